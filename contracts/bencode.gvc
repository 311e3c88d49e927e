# Bencode
package bencode

# a dictionary or list of the program holds what a boxed one (an immutable snapshot) holds
pred dictis(r, b) = len(r) == len(b) && forall(k, "Str", has(r, k) == has(b, k) && imp(has(r, k), r[k] == b[k]))
pred listis(r, b) = len(r) == len(b) && forall(k, 0, len(b), r[k] == b[k])

func (bencode.Dict).get(d, key) (v, err)
  ensures (err == nil) == has(d, key)
  ensures imp(err == nil, v == d[key])
  props C04 C11 C12 C24

func (bencode.Dict).GetString(d, key) (r, err)
  ensures (err == nil) == (has(d, key) && is(d[key], "string"))
  ensures imp(err == nil, r == as(d[key], "string"))
  props C04 C11 C12 C24

func (bencode.Dict).GetInt(d, key) (r, err)
  ensures (err == nil) == (has(d, key) && is(d[key], "int64"))
  ensures imp(err == nil, r == as(d[key], "int64"))
  props C04 C11 C12 C24

func (bencode.Dict).GetUint(d, key) (r, err)
  ensures (err == nil) == (has(d, key) && is(d[key], "int64") && as(d[key], "int64") >= 0)
  ensures imp(err == nil, r == as(d[key], "int64"))
  props C04 C11 C12 C24

func (bencode.Dict).GetDict(d, key) (r, err)
  ensures (err == nil) == (has(d, key) && is(d[key], "bencode.Dict"))
  ensures imp(err == nil, dictis(r, as(d[key], "bencode.Dict")) && bd(r) == as(d[key], "bencode.Dict"))
  props C04 C11 C12 C24

func (bencode.Dict).GetList(d, key) (r, err)
  ensures (err == nil) == (has(d, key) && is(d[key], "bencode.List"))
  ensures imp(err == nil, listis(r, as(d[key], "bencode.List")) && bl(r) == as(d[key], "bencode.List"))
  props C04 C11 C12 C24

# ---------------------------------------------------------------- decoding (C03)
# length of the run of digits of d from p
spec ndig(d Str, p int) int rec = ite(p < 0 || p >= len(d) || !digit(d[p]), 0, 1 + ndig(d, p + 1))
# a string at p: its length in decimal, a colon, as many bytes
pred strcol(d, p) = p + ndig(d, p)
pred strlen(d, p) = dv(d, p, strcol(d, p))
pred strat(d, p) = 0 <= p && ndig(d, p) > 0 && strcol(d, p) < len(d) && d[strcol(d, p)] == 58 && strcol(d, p) + 1 + strlen(d, p) <= len(d)
pred strval(d, p) = sub(d, strcol(d, p) + 1, strcol(d, p) + 1 + strlen(d, p))
pred strend(d, p) = strcol(d, p) + 1 + strlen(d, p)
# an integer at p: i, its shortest decimal form, e
pred intneg(d, p) = ite(p + 1 < len(d) && d[p+1] == 45, 1, 0)
pred intdig(d, p) = p + 1 + intneg(d, p)
pred intcol(d, p) = intdig(d, p) + ndig(d, intdig(d, p))
pred intabs(d, p) = dv(d, intdig(d, p), intcol(d, p))
pred intval(d, p) = ite(intneg(d, p) == 1, 0 - intabs(d, p), intabs(d, p))
pred intat(d, p) = 0 <= p && p < len(d) && d[p] == 105 && ndig(d, intdig(d, p)) > 0 && intcol(d, p) < len(d) && d[intcol(d, p)] == 101 && imp(d[intdig(d, p)] == 48, ndig(d, intdig(d, p)) == 1 && intneg(d, p) == 0) && 0 - pow2(63) <= intval(d, p) && intval(d, p) < pow2(63)
pred intend(d, p) = intcol(d, p) + 1

lemma ndigs(d Str, p int, q int)
  requires 0 <= p && p <= q && q <= len(d) && forall(k, p, q, digit(d[k])) && (q == len(d) || !digit(d[q]))
  ensures ndig(d, p) == q - p
  induct q - p
  use ndigs(d, p+1, q)
  props C03
lemma dvsub(d Str, p int, q int, e int, b int)
  requires 0 <= p && p <= q && q <= len(d) && 0 <= b && b <= e && e <= q - p
  ensures dv(sub(d, p, q), b, e) == dv(d, p + b, p + e)
  induct e - b
  use dvsub(d, p, q, e-1, b)
  props C03
pred ddata(dc) = str(dc.data)
pred dcok(dc) = dc != nil && 0 <= dc.curs && dc.curs <= len(dc.data)
func (*bencode.decoder).decodeString(dc) (r, err)
  requires dcok(dc)
  modifies dc.curs
  maypanic
  loop old(dc.curs) <= dc.curs && dc.curs <= len(dc.data)
  loop [any s string@strLen] s == sub(str(dc.data), old(dc.curs), dc.curs)
  loop forall(k, old(dc.curs), dc.curs, digit(str(dc.data)[k]))
  loop [any s string@strLen] forall(k, 0, len(s), digit(s[k]))
  measure len(dc.data) - dc.curs
  use ndigs(ddata(dc), old(dc.curs), dc.curs - 1 - len(r))
  use dvsub(ddata(dc), old(dc.curs), dc.curs - 1 - len(r), dc.curs - 1 - len(r) - old(dc.curs), 0)
  ensures imp(err == nil, old(dc.curs) < dc.curs && dc.curs <= len(dc.data))
  ensures imp(err == nil, strat(ddata(dc), old(dc.curs)) && r == strval(ddata(dc), old(dc.curs)) && dc.curs == strend(ddata(dc), old(dc.curs)))
  props C03
func (*bencode.decoder).decodeInt(dc) (r, err)
  requires dcok(dc)
  modifies dc.curs
  maypanic
  loop old(dc.curs) < dc.curs && dc.curs <= len(dc.data)
  loop [any s string@strInt] s == sub(str(dc.data), old(dc.curs) + 1, dc.curs)
  loop forall(k, intdig(str(dc.data), old(dc.curs)), dc.curs, digit(str(dc.data)[k]))
  loop [any s string@strInt] forall(k, intneg(ddata(dc), old(dc.curs)), len(s), digit(s[k]))
  measure len(dc.data) - dc.curs
  use ndigs(ddata(dc), intdig(ddata(dc), old(dc.curs)), dc.curs - 1)
  use dvsub(ddata(dc), old(dc.curs) + 1, dc.curs - 1, dc.curs - 2 - old(dc.curs), intneg(ddata(dc), old(dc.curs)))
  ensures imp(err == nil, old(dc.curs) < dc.curs && dc.curs <= len(dc.data))
  ensures imp(err == nil, intat(ddata(dc), old(dc.curs)) && r == intval(ddata(dc), old(dc.curs)) && dc.curs == intend(ddata(dc), old(dc.curs)))
  props C03
func (*bencode.decoder).decodeList(dc) (r, err)
  requires dcok(dc) && dc.depth <= 10000
  modifies dc.curs, dc.depth
  maypanic
  decreases 10000 - dc.depth
  loop old(dc.curs) < dc.curs && dc.curs <= len(dc.data) && dc.depth == old(dc.depth) + 1
  loop [any l bencode.List] l == nil || fresh(l) && !frozen(l) && alive(l)
  measure len(dc.data) - dc.curs
  ensures imp(err == nil, old(dc.curs) < dc.curs && dc.curs <= len(dc.data) && dc.depth == old(dc.depth))
  ensures r == nil || fresh(r)
  props C03
func (*bencode.decoder).decodeDict(dc) (r, err)
  requires dcok(dc) && dc.depth <= 10000
  modifies dc.curs, dc.depth
  maypanic
  decreases 10000 - dc.depth
  loop old(dc.curs) < dc.curs && dc.curs <= len(dc.data) && dc.depth == old(dc.depth) + 1
  loop [any m map[string]interface{}] fresh(m) && !frozen(m) && alive(m)
  loop [any m bencode.Dict] fresh(m) && !frozen(m) && alive(m)
  measure len(dc.data) - dc.curs
  ensures r == nil || fresh(r)
  ensures imp(err == nil, r != nil && old(dc.curs) < dc.curs && dc.curs <= len(dc.data) && dc.depth == old(dc.depth))
  props C03
# the input and the result of the latest call of Decode
ghost decin "(Array Int Str)"
ghost decout "(Array Int Iface)"
func bencode.Decode(data) (r, err)
  modifies decin, decout
  set decin(x) = old(str(data))
  set decout(x) = r
  ensures {C13} decin[0] == old(str(data)) && decout[0] == r
  props C03 C13
