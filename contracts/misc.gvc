# Handshake (C18), statistics and peer state (C30)
package swarm

func swarm.MakeHandshake(infohash, id) (r)
  requires len(infohash) == 20 && len(id) == 20
  ensures len(r) == 68 && r[0] == 19 && sub(str(r), 1, 20) == "BitTorrent protocol"
  ensures forall(k, 20, 28, r[k] == 0) && sub(str(r), 28, 48) == infohash && sub(str(r), 48, 68) == id
  props C18

pred goodhs(s, infohash) = len(s) == 68 && s[0] == 19 && sub(s, 1, 20) == "BitTorrent protocol" && sub(s, 28, 48) == infohash

func swarm.ValidHandshake(hs, infohash) (r)
  ensures iff(r, goodhs(str(hs), infohash))
  props C18

func (swarm.Handshake).Pstrlen(hs) (r)
  requires len(hs) >= 1
  ensures r == hs[0]
  opt aux
  props C18
func (swarm.Handshake).Pstr(hs) (r)
  requires len(hs) >= 20
  ensures str(r) == sub(str(hs), 1, 20)
  opt aux
  props C18
func (swarm.Handshake).Reserved(hs) (r)
  requires len(hs) >= 28
  ensures str(r) == sub(str(hs), 20, 28)
  props C18
func (swarm.Handshake).Infohash(hs) (r)
  requires len(hs) >= 48
  ensures str(r) == sub(str(hs), 28, 48)
  props C18
func (swarm.Handshake).Id(hs) (r)
  requires len(hs) == 68
  ensures str(r) == sub(str(hs), 48, 68)
  props C18

# what MakeHandshake builds is what ValidHandshake accepts, for any reserved bytes and id
lemma handshake_ok(s Str, infohash Str, id Str)
  requires len(infohash) == 20 && len(id) == 20 && len(s) == 68 && s[0] == 19 && sub(s, 1, 20) == "BitTorrent protocol"
  requires sub(s, 28, 48) == infohash && sub(s, 48, 68) == id
  ensures goodhs(s, infohash)
  props C18

package tracker

func tracker.NewStats(dn, up, left) (r)
  ensures fresh(r) && r.dnloaded == dn && r.uploaded == up && r.left == left
  props C30
func (*tracker.Stats).IncUploaded(s, amnt) ()
  modifies s.uploaded
  ensures s.uploaded == (old(s.uploaded) + amnt) % pow2(64)
  props C30
func (*tracker.Stats).IncDnloaded(s, amnt) ()
  modifies s.dnloaded
  ensures s.dnloaded == (old(s.dnloaded) + amnt) % pow2(64)
  props C30
func (*tracker.Stats).DecLeft(s, amnt) ()
  modifies s.left
  ensures s.left == max(0, old(s.left) - amnt)
  props C30
func (tracker.Stats).Uploaded(s) (r)
  ensures r == s.uploaded
  props C30
func (tracker.Stats).Dnloaded(s) (r)
  ensures r == s.dnloaded
  props C30
func (tracker.Stats).Left(s) (r)
  ensures r == s.left
  props C30

package peer

func peer.MakeState() (r)
  ensures r.chokingUs && r.weChoking && !r.interestedUs && !r.weInterested
  props C30
func (*peer.State).ChokingUs(s) (r)
  ensures r == s.chokingUs
  props C30
func (*peer.State).WeChoking(s) (r)
  ensures r == s.weChoking
  props C30
func (*peer.State).InterestedUs(s) (r)
  ensures r == s.interestedUs
  props C30
func (*peer.State).WeInterested(s) (r)
  ensures r == s.weInterested
  props C30
func (*peer.State).SetChokingUs(s, v) ()
  modifies s.chokingUs
  ensures s.chokingUs == v
  props C30
func (*peer.State).SetWeChoking(s, v) ()
  modifies s.weChoking
  ensures s.weChoking == v
  props C30
func (*peer.State).SetInterestedUs(s, v) ()
  modifies s.interestedUs
  ensures s.interestedUs == v
  props C30
func (*peer.State).SetWeInterested(s, v) ()
  modifies s.weInterested
  ensures s.weInterested == v
  props C30

# ---------------------------------------------------------------- peer records (C29)
smt (declare-fun s_ipstr (Str) Str)
# net.IP.String of an IPv6 address (16 bytes, not an IPv4 one) contains a colon, nothing else does
pred v4in6(s) = forall(k, 0, 10, s[k] == 0) && s[10] == 255 && s[11] == 255
pred ip6(s) = len(s) == 16 && !v4in6(s)
axiom ipstr_colon(s Str)
  ensures iff(ip6(s), exists(k, 0, len(s_ipstr(s)), s_ipstr(s)[k] == 58)) && forall(k, 0, len(s_ipstr(s)), s_ipstr(s)[k] != 37)
  trigger s_ipstr(s)
trusted (net.IP).String(ip) (r)
  ensures r == s_ipstr(str(ip))
trusted (net.IP).To4(ip) (r)
  ensures iff(r == nil, !(len(ip) == 4 || (len(ip) == 16 && v4in6(str(ip)))))
  ensures imp(len(ip) == 4, r == ip)
  ensures imp(r != nil && len(ip) == 16, str(r) == sub(str(ip), 12, 16) && obj(r) == obj(ip))
pred joinhp(h, p) = ite(exists(k, 0, len(h), h[k] == 58 || h[k] == 37), cat("[", h, "]:", p), cat(h, ":", p))
trusted net.JoinHostPort(h, p) (r)
  ensures r == joinhp(h, p)

func peer.MakePeer(id, ip, port) (r)
  ensures r.id == id && str(r.ip) == str(ip) && r.port == port && r.addr == ite(ip6(str(ip)), cat("[", s_ipstr(str(ip)), "]:", dec(port)), cat(s_ipstr(str(ip)), ":", dec(port)))
  props C29 C24
func (peer.Info).Id(p) (r)
  ensures r == p.id
  props C29
func (peer.Info).Ip(p) (r)
  ensures r == p.ip
  props C29
func (peer.Info).Port(p) (r)
  ensures r == p.port
  props C29
func (*peer.Info).Addr(p) (r)
  ensures r == p.addr
  props C29

package utils
assume {C29} the random source eventually yields letters (termination of the letter loop is not proved)
trusted math/rand.NewSource(seed) (r)
  ensures r != nil
pred letter(c) = (97 <= c && c <= 122) || (65 <= c && c <= 90)
func utils.randStringBytesMaskImprSrcSB(n) (r)
  requires 0 <= n && n < 1048576
  ensures len(r) == n && forall(k, 0, n, letter(r[k]))
  loop [i int, any sb *strings.Builder] -1 <= i && len(content(sb)) == n - 1 - i
  loop [any sb *strings.Builder] forall(k, 0, len(content(sb)), letter(content(sb)[k]))
  diverges
  opt aux
  props C29
func utils.NewPeerId() (r)
  ensures len(r) == 20 && sub(r, 0, 8) == "-GT0000-" && forall(k, 8, 20, letter(r[k]))
  diverges
  props C29
