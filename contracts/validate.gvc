# Start-up validation (C17)
package swarm

# the bytes b have the SHA-1 listed for piece i
spec hashok(h Str, i int, b Str) bool rec = sha1(b) == sub(h, 20*i, 20*i + 20)
# the client's parts belong together
pred wfswarm(s) = alive(s.Bf) && alive(s.Bf.data) && s.Tor != nil && s.Tor.info != nil && s.Fileio != nil && s.Fileio.torInfo == s.Tor.info && wffio(s.Fileio) && s.Bf != nil && wfbf(s.Bf) && s.Bf.nbits == s.Tor.info.numPieces
pred wfpieces(ti) = forall(p, 0, ti.numPieces, wfpiece(ti, p), ti.pm[p])
pred pieceok(ti, p) = hashok(ti.hashes, p, pbytes(disk, ti, ti.pm[p]))

func (*swarm.Swarm).Validate(s) (err)
  requires wfswarm(s) && wfpieces(s.Tor.info)
  modifies s.Bf.nset, elems(s.Bf.data)
  loop wfbf(s.Bf)
  loop [i int64] 0 <= i && i <= s.Tor.info.numPieces
  loop [i int64] -1 <= i && i < s.Tor.info.numPieces
  loop [i int64] forall(k, 0, i, iff(bitof(str(s.Bf.data), k) == 1, old(pieceok(s.Tor.info, k))), bitof(str(s.Bf.data), k))
  loop [i int64] forall(k, i+1, s.Tor.info.numPieces, iff(bitof(str(s.Bf.data), k) == 1, old(pieceok(s.Tor.info, k))), bitof(str(s.Bf.data), k))
  measure [i int64] s.Tor.info.numPieces - i
  ensures wfbf(s.Bf)
  ensures imp(err == nil, forall(k, 0, s.Bf.nbits, iff(bitat(str(s.Bf.data), k) == 1, old(pieceok(s.Tor.info, k))), bitof(str(s.Bf.data), k)))
  props C17
