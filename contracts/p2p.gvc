# Peer wire protocol (properties C05, C06, C07)
package p2p

pred mlen(s, p) = be(s, p, 4)
# length prefix and type agree (BEP 3)
pred goodlen(t, n) = ite(t <= 3, n == 1, ite(t == 4, n == 5, ite(t == 5, n >= 2, ite(t == 6, n == 13, t == 7 && n >= 9))))
# a complete, well-formed message starts at position p of s
pred validat(s, p) = 0 <= p && p + 4 <= len(s) && (mlen(s, p) == 0 || (p + 4 + mlen(s, p) <= len(s) && goodlen(s[p+4], mlen(s, p))))

pred base(m, n, t) = m.length == n && m.mtype == t
# the message value m (an interface) is the one encoded at position p of s
pred kindat(m, s, p) = ite(mlen(s,p) == 0, is(m, "*p2p.MsgKeepAlive") && as(m, "*p2p.MsgKeepAlive") != nil && base(as(m, "*p2p.MsgKeepAlive"), 0, 255),
    ite(s[p+4] == 0, is(m, "*p2p.MsgChoke") && as(m, "*p2p.MsgChoke") != nil && base(as(m, "*p2p.MsgChoke"), 1, 0),
    ite(s[p+4] == 1, is(m, "*p2p.MsgUnchoke") && as(m, "*p2p.MsgUnchoke") != nil && base(as(m, "*p2p.MsgUnchoke"), 1, 1),
    ite(s[p+4] == 2, is(m, "*p2p.MsgInterested") && as(m, "*p2p.MsgInterested") != nil && base(as(m, "*p2p.MsgInterested"), 1, 2),
    ite(s[p+4] == 3, is(m, "*p2p.MsgNotInterested") && as(m, "*p2p.MsgNotInterested") != nil && base(as(m, "*p2p.MsgNotInterested"), 1, 3),
    ite(s[p+4] == 4, is(m, "*p2p.MsgHave") && havemsg(as(m, "*p2p.MsgHave")) && as(m, "*p2p.MsgHave").index == be(s, p+5, 4),
    ite(s[p+4] == 5, is(m, "*p2p.MsgBitfield") && bitsmsg(as(m, "*p2p.MsgBitfield")) && bitsat(as(m, "*p2p.MsgBitfield"), s, p),
    ite(s[p+4] == 6, is(m, "*p2p.MsgRequest") && reqmsg(as(m, "*p2p.MsgRequest")) && as(m, "*p2p.MsgRequest").index == be(s, p+5, 4) && as(m, "*p2p.MsgRequest").begin == be(s, p+9, 4) && as(m, "*p2p.MsgRequest").reqlen == be(s, p+13, 4),
    s[p+4] == 7 && is(m, "*p2p.MsgPiece") && piecemsg(as(m, "*p2p.MsgPiece")) && pieceat(as(m, "*p2p.MsgPiece"), s, p)))))))))
pred havemsg(m) = m != nil && base(m, 5, 4)
pred reqmsg(m) = m != nil && base(m, 13, 6)
pred piecemsg(m) = m != nil && len(m.block) <= 4294967286 && base(m, 9 + len(m.block), 7)
pred bitsmsg(m) = m != nil && m.bitfield != nil && wfbf(m.bitfield) && m.bitfield.nbytes <= 4294967294 && base(m, 1 + m.bitfield.nbytes, 5)
pred pieceat(m, s, p) = m.index == be(s, p+5, 4) && m.begin == be(s, p+9, 4) && m.length == mlen(s, p) && forall(k, 0, len(m.block), m.block[k] == s[p+13+k])
pred bitsat(m, s, p) = m.length == mlen(s, p) && m.bitfield.nbits == 8*(mlen(s, p) - 1) && forall(k, 0, m.bitfield.nbytes, m.bitfield.data[k] == s[p+5+k])

global {C05,C06,C07} base(p2p.KeepAliveSingleton, 0, 255)
func p2p.init() ()
  opt init
  props C05

# ---------------------------------------------------------------- constructors

func p2p.NewMsgChoke() (r)
  ensures fresh(r) && base(r, 1, 0)
  props C05 C06
func p2p.NewMsgUnchoke() (r)
  ensures fresh(r) && base(r, 1, 1)
  props C05 C06
func p2p.NewMsgInterested() (r)
  ensures fresh(r) && base(r, 1, 2)
  props C05 C06
func p2p.NewMsgNotInterested() (r)
  ensures fresh(r) && base(r, 1, 3)
  props C05 C06
func p2p.NewMsgHave(idx) (r)
  ensures fresh(r) && havemsg(r) && r.index == idx
  props C05 C06
func p2p.NewMsgRequest(index, begin, reqlen) (r)
  ensures fresh(r) && reqmsg(r) && r.index == index && r.begin == begin && r.reqlen == reqlen
  props C05 C06
func p2p.NewMsgPiece(index, begin, block) (r)
  requires len(block) <= 4294967286
  ensures fresh(r) && piecemsg(r) && r.index == index && r.begin == begin && r.block == block
  props C05 C06
func p2p.NewMsgBitfield(b) (r)
  requires b != nil && wfbf(b) && b.nbytes <= 4294967294
  ensures fresh(r) && bitsmsg(r) && r.bitfield == b
  props C05

# ---------------------------------------------------------------- encoders

pred hdr(s, n, t) = len(s) == 4 + n && be(s, 0, 4) == n && s[4] == t

func (*p2p.msgBase).fillBase(m, buf) ()
  requires len(buf) >= 5
  modifies elems(buf)
  ensures be(str(buf), 0, 4) == m.length && buf[4] == m.mtype
  ensures forall(k, 5, len(buf), buf[k] == old(buf[k]))
  props C05

func (*p2p.msgBase).Encode(m) (r)
  requires m.length == 1
  ensures fresh(r) && hdr(str(r), 1, m.mtype)
  props C05

func (*p2p.MsgKeepAlive).Encode(m) (r)
  ensures len(r) == 4 && be(str(r), 0, 4) == 0
  props C05
func (*p2p.MsgHave).Encode(m) (r)
  requires havemsg(m)
  ensures hdr(str(r), 5, 4) && be(str(r), 5, 4) == m.index
  props C05
func (*p2p.MsgRequest).Encode(m) (r)
  requires reqmsg(m)
  ensures hdr(str(r), 13, 6) && be(str(r), 5, 4) == m.index && be(str(r), 9, 4) == m.begin && be(str(r), 13, 4) == m.reqlen
  props C05
func (*p2p.MsgPiece).Encode(m) (r)
  requires piecemsg(m)
  ensures hdr(str(r), 9 + len(m.block), 7) && be(str(r), 5, 4) == m.index && be(str(r), 9, 4) == m.begin
  ensures forall(k, 0, len(m.block), r[13+k] == m.block[k])
  props C05
func (*p2p.MsgBitfield).Encode(m) (r)
  requires bitsmsg(m)
  modifies elems(m.bitfield.data5)
  ensures hdr(str(r), 1 + m.bitfield.nbytes, 5) && forall(k, 0, m.bitfield.nbytes, r[5+k] == m.bitfield.data[k])
  ensures bitsmsg(m) && forall(k, 0, m.bitfield.nbytes, m.bitfield.data[k] == old(m.bitfield.data[k]))
  use popc_upd(old(str(m.bitfield.data)), str(m.bitfield.data), m.bitfield.nbits, m.bitfield.nbits)
  props C05

# ---------------------------------------------------------------- accessors

func (*p2p.msgBase).Length(m) (r)
  ensures r == m.length
  props C05
func (*p2p.msgBase).Mtype(m) (r)
  ensures r == m.mtype
  props C05
func (*p2p.MsgHave).Index(m) (r)
  ensures r == m.index
  props C05
func (*p2p.MsgRequest).Index(m) (r)
  ensures r == m.index
  props C05
func (*p2p.MsgRequest).Begin(m) (r)
  ensures r == m.begin
  props C05
func (*p2p.MsgRequest).ReqLen(m) (r)
  ensures r == m.reqlen
  props C05
func (*p2p.MsgPiece).Index(m) (r)
  ensures r == m.index
  props C05
func (*p2p.MsgPiece).Begin(m) (r)
  ensures r == m.begin
  props C05
func (*p2p.MsgPiece).Block(m) (r)
  ensures r == m.block
  props C05
func (*p2p.MsgBitfield).Bitfield(m) (r)
  ensures r == m.bitfield
  props C05 C07

# ---------------------------------------------------------------- decoders

func p2p.DecodeMsgHave(payload) (r, err)
  requires len(payload) <= 4294967295
  ensures iff(err == nil, len(payload) == 4)
  ensures imp(err == nil, fresh(r) && havemsg(r) && r.index == be(str(payload), 0, 4))
  props C05 C06
func p2p.DecodeMsgRequest(payload) (r, err)
  requires len(payload) <= 4294967295
  ensures iff(err == nil, len(payload) == 12)
  ensures imp(err == nil, fresh(r) && reqmsg(r) && r.index == be(str(payload), 0, 4) && r.begin == be(str(payload), 4, 4) && r.reqlen == be(str(payload), 8, 4))
  props C05 C06
func p2p.DecodeMsgPiece(payload, length) (r, err)
  requires len(payload) == length && length <= 4294967294
  ensures iff(err == nil, length >= 8)
  ensures imp(err == nil, fresh(r) && piecemsg(r) && r.index == be(str(payload), 0, 4) && r.begin == be(str(payload), 4, 4) && len(r.block) == len(payload) - 8 && forall(k, 0, len(r.block), r.block[k] == payload[8+k]))
  props C05 C06
func p2p.DecodeMsgBitfield(fullmsg, msglen) (r, err)
  requires msglen >= 1 && len(fullmsg) >= 4 + msglen
  ensures iff(err == nil, msglen >= 2)
  ensures imp(err == nil, fresh(r) && bitsmsg(r) && fresh(r.bitfield) && fresh(r.bitfield.data5) && r.length == msglen && r.bitfield.nbits == 8*(msglen-1) && forall(k, 0, msglen - 1, r.bitfield.data[k] == fullmsg[5+k]))
  props C05 C06 C07

func p2p.Decode(data) (r, err)
  ensures iff(err == nil, validat(str(data), 0))
  ensures imp(err == nil, r.Read == 4 + mlen(str(data), 0) && kindat(r.Msg, str(data), 0))
  ensures imp(err == nil && mlen(str(data), 0) > 0 && data[4] == 5, fresh(as(r.Msg, "*p2p.MsgBitfield").bitfield.data5))
  ensures imp(len(data) > 0, r.Read == dsz(str(data), 0))
  props C05 C06

# DecodeAll: the bytes passed over at position p (a bad message: what Decode says)
pred bad9(s, p) = p + 5 <= len(s) && p + 4 + mlen(s, p) <= len(s) && mlen(s, p) != 0
pred badsz(s, p) = ite(!bad9(s, p) || s[p+4] <= 3 || s[p+4] > 7, len(s) - p, ite(s[p+4] == 4, 9, ite(s[p+4] == 5, max(4 + mlen(s, p), 1), ite(s[p+4] == 6, 17, 4 + mlen(s, p)))))
pred dsz(s, p) = max(1, ite(validat(s, p), 4 + mlen(s, p), badsz(s, p)))
# number of messages decoded from position p on, their total size, and the
# position of the j-th of them
spec nmsg(s Str, p int) int rec = ite(p >= len(s), 0, ite(validat(s, p), 1, 0) + nmsg(s, p + dsz(s, p)))
spec nsz(s Str, p int) int rec = ite(p >= len(s), 0, ite(validat(s, p), dsz(s, p), 0) + nsz(s, p + dsz(s, p)))
spec mpos(s Str, p int, j int) int rec = ite(p >= len(s), len(s), ite(validat(s, p), ite(j <= 0, p, mpos(s, p + dsz(s, p), j-1)), mpos(s, p + dsz(s, p), j)))

func p2p.DecodeAll(data) (r)
  let s = str(data)
  ensures len(r.Msgs) == nmsg(s, 0) && r.Read == nsz(s, 0) && r.Read <= len(data)
  ensures forall(j, 0, len(r.Msgs), kindat(r.Msgs[j], s, mpos(s, 0, j)))
  ensures forall(j, 0, len(r.Msgs), imp(is(r.Msgs[j], "*p2p.MsgBitfield"), fresh(as(r.Msgs[j], "*p2p.MsgBitfield").bitfield.data5)))
  loop [idx int, read int, ms []p2p.Message] 0 <= idx && read <= idx && read <= len(data)
  loop [idx int, ms []p2p.Message] len(ms) + nmsg(s, idx) == nmsg(s, 0)
  loop [idx int, read int] read + nsz(s, idx) == nsz(s, 0)
  loop [idx int, ms []p2p.Message] forall(j, "int", imp(j >= len(ms), mpos(s, 0, j) == mpos(s, idx, j - len(ms))), mpos(s, 0, j))
  loop [ms []p2p.Message] forall(j, 0, len(ms), kindat(ms[j], s, mpos(s, 0, j)))
  loop [ms []p2p.Message] forall(j, 0, len(ms), imp(is(ms[j], "*p2p.MsgBitfield"), fresh(as(ms[j], "*p2p.MsgBitfield").bitfield.data5)))
  props C06 C07

# ---------------------------------------------------------------- round trip (C05)
# the encoders' postconditions on e imply, for any bytes following, what Decode needs
lemma rt_keepalive(e Str, rest Str)
  requires len(e) == 4 && be(e, 0, 4) == 0
  ensures validat(cat(e, rest), 0) && mlen(cat(e, rest), 0) == 0
  props C05
lemma rt_nopayload(e Str, rest Str, t int)
  requires hdr(e, 1, t) && 0 <= t && t <= 3
  ensures validat(cat(e, rest), 0) && 4 + mlen(cat(e, rest), 0) == len(e) && cat(e, rest)[4] == t
  props C05
lemma rt_have(e Str, rest Str, i int)
  requires hdr(e, 5, 4) && be(e, 5, 4) == i
  ensures validat(cat(e, rest), 0) && 4 + mlen(cat(e, rest), 0) == len(e) && cat(e, rest)[4] == 4 && be(cat(e, rest), 5, 4) == i
  props C05
lemma rt_request(e Str, rest Str, i int, b int, l int)
  requires hdr(e, 13, 6) && be(e, 5, 4) == i && be(e, 9, 4) == b && be(e, 13, 4) == l
  ensures validat(cat(e, rest), 0) && 4 + mlen(cat(e, rest), 0) == len(e) && cat(e, rest)[4] == 6
  ensures be(cat(e, rest), 5, 4) == i && be(cat(e, rest), 9, 4) == b && be(cat(e, rest), 13, 4) == l
  props C05
lemma rt_piece(e Str, rest Str, n int, i int, b int)
  requires 0 <= n && hdr(e, 9 + n, 7) && be(e, 5, 4) == i && be(e, 9, 4) == b
  ensures validat(cat(e, rest), 0) && 4 + mlen(cat(e, rest), 0) == len(e) && cat(e, rest)[4] == 7
  ensures be(cat(e, rest), 5, 4) == i && be(cat(e, rest), 9, 4) == b && forall(k, 0, n, cat(e, rest)[13+k] == e[13+k])
  props C05
lemma rt_bitfield(e Str, rest Str, n int)
  requires 1 <= n && hdr(e, 1 + n, 5)
  ensures validat(cat(e, rest), 0) && 4 + mlen(cat(e, rest), 0) == len(e) && cat(e, rest)[4] == 5
  ensures forall(k, 0, n, cat(e, rest)[5+k] == e[5+k])
  props C05
