# Peer protocol handling
package info
# well-formed metadata (established by NewTorInfo, C11)
pred wfti(ti) = ti.pieceLen > 0 && ti.pieceLen < pow2(32) && 0 <= ti.numPieces && ti.numPieces <= pow2(48) && ti.numPieces == len(ti.pm) && len(ti.hashes) == 20*ti.numPieces && imp(ti.numPieces > 0, 0 < ti.lastPieceLen && ti.lastPieceLen <= ti.pieceLen) && ti.length == (ti.numPieces - 1)*ti.pieceLen + ti.lastPieceLen
pred plen(ti, i) = ite(i == ti.numPieces - 1, ti.lastPieceLen, ti.pieceLen)

# the piece map and layout of the metadata (C10)
pred wfmap(ti) = laidout(ti.flist, ti.pieceLen) && ti.length == begs(ti.flist, len(ti.flist)) && nneg(elen(ti.flist), off(ti.flist), len(ti.flist)) && forall(p, 0, ti.numPieces, covers(ti.pm[p], ti.flist, p*ti.pieceLen, min((p+1)*ti.pieceLen, ti.length)))

# C11: metadata is well formed or refused
func torrent/info.NewTorInfo(name, pieceLen, hashes, files) (r, err)
  loop [i int@rangeindex, l int64@length|l] l == old(begs(files, i)) && 0 <= l
  loop [i int@rangeindex] forall(k, 0, i, 0 <= old(files[k].length))
  loop [l int64@length|l] l + pieceLen < pow2(63)
  ensures imp(err == nil, r != nil && fresh(r) && wfti(r))
  ensures {C10} imp(err == nil, wfmap(r))
  ensures imp(err == nil, r.name == name && r.pieceLen == pieceLen && r.hashes == hashes && len(r.flist) == len(files) && forall(i, 0, len(files), r.flist[i].EntryBase == files[i]))
  ensures imp(err != nil, r == nil)
  ensures {C11} imp(0 < pieceLen && pieceLen < pow2(32) && old(nneg(elen(files), off(files), len(files))) && old(begs(files, len(files))) + pieceLen < pow2(63) && len(hashes) == 20*((old(begs(files, len(files))) + pieceLen - 1) / pieceLen), err == nil)
  props C10 C11

func (*torrent/info.TorInfo).PieceLen(ti) (r)
  ensures r == ti.pieceLen
  props C11
func (*torrent/info.TorInfo).Hashes(ti) (r)
  ensures r == ti.hashes
  props C11
func (*torrent/info.TorInfo).NumPieces(ti) (r)
  ensures r == ti.numPieces
  props C11
func (*torrent/info.TorInfo).Length(ti) (r)
  ensures r == ti.length
  props C11
func (*torrent/info.TorInfo).LastPieceLen(ti) (r)
  ensures r == ti.lastPieceLen
  props C11
func (*torrent.Torrent).Info(t) (r)
  ensures r == t.info
  props C11 C13

package swarm
pred wfsw(s) = s != nil && s.Tor != nil && s.Tor.info != nil && wfti(s.Tor.info)

# C21: the requests of a piece are a chain from 0 to the piece's length
pred reqok(q, index) = alive(q) && reqmsg(q) && q.index == index && 1 <= q.reqlen && q.reqlen <= 16384
pred chain(m, index) = forall(i, 0, len(m), reqok(m[i], index)) && imp(len(m) > 0, m[0].begin == 0) && forall(i, 1, len(m), m[i].begin == m[i-1].begin + m[i-1].reqlen)
pred chainend(m) = ite(len(m) == 0, 0, m[len(m)-1].begin + m[len(m)-1].reqlen)
func (*swarm.PeerHandler).createReqMessages(ph, index) (r)
  requires wfsw(ph.swarm) && index < ph.swarm.Tor.info.numPieces
  loop [any m []*p2p.MsgRequest] chain(m, index)
  loop [any m []*p2p.MsgRequest] len(m) == 0 || fresh(m)
  loop [any m []*p2p.MsgRequest, o int] o == chainend(m)
  loop [any m []*p2p.MsgRequest, o int] o + chainend(m) == plen(ph.swarm.Tor.info, index)
  loop [any m []*p2p.MsgRequest, o int] chainend(m) == min(o*16384, plen(ph.swarm.Tor.info, index))
  ensures chain(r, index) && chainend(r) == plen(ph.swarm.Tor.info, index)
  props C21
