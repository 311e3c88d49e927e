# Serving requests (C22)
package swarm

pred wfph(ph) = ph.swarm != nil && wfswarm(ph.swarm) && ph.swarm.RLIO != nil && ph.conn != nil && len(ph.buf) == ph.swarm.Tor.info.pieceLen && obj(ph.buf) != obj(ph.swarm.Bf.data)
pred ours(ph, m) = m.index < ph.swarm.Bf.nbits && bitat(str(ph.swarm.Bf.data), m.index) == 1
pred within(ph, m) = m.begin + m.reqlen <= plen(ph.swarm.Tor.info, m.index)

func (*swarm.PeerHandler).handleRequest(ph, m) (err)
  requires wfph(ph) && m != nil && imp(m.index < ph.swarm.Tor.info.numPieces, wfpiece(ph.swarm.Tor.info, m.index)) && ph.swarm.Tor.info.pieceLen <= 4294967286
  modifies elems(ph.buf), wcalls, wto, wbytes, werr, ph.swarm.RLIO.wUsed, ph.swarm.RLIO.wTotal
  let good = ours(ph, m) && within(ph, m)
  ensures wcalls == old(wcalls) || wcalls == old(wcalls) + 1 && good
  ensures imp(wcalls != old(wcalls), wto == ph.conn && hdr(wbytes, 9 + m.reqlen, 7) && be(wbytes, 5, 4) == m.index && be(wbytes, 9, 4) == m.begin)
  ensures imp(wcalls != old(wcalls), sub(wbytes, 13, 13 + m.reqlen) == sub(old(pbytes(disk, ph.swarm.Tor.info, ph.swarm.Tor.info.pm[m.index])), m.begin, m.begin + m.reqlen))
  ensures imp(err == nil && good, wcalls == old(wcalls) + 1)
  diverges
  props C22
func swarm.NewPeerHandler(pi, s, conn) (r)
  requires s != nil && s.Tor != nil && s.Tor.info != nil && wfti(s.Tor.info) && s.Tor.info.numPieces <= 8000000000000
  ensures r != nil && fresh(r) && r.swarm == s && r.conn == conn && len(r.buf) == s.Tor.info.pieceLen && fresh(r.buf)
  ensures r.bf != nil && wfbf(r.bf) && r.bf.nbits == s.Tor.info.numPieces && forall(i, 0, r.bf.nbits, bitat(str(r.bf.data), i) == 0)
  props C22
