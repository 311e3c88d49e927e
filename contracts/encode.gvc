# The bencode encoder (C02)
package bencode

# the keys of a dictionary in ascending byte order: what every finite map has
smt (declare-fun skey (BD Int) Str)
smt (declare-fun srank (BD Str) Int)
axiom skeys(d "BD", i int)
  requires finite(d) && 0 <= i && i < len(d)
  ensures has(d, skey(d, i)) && srank(d, skey(d, i)) == i
  trigger skey(d, i)
axiom sranks(d "BD", k Str)
  requires finite(d) && has(d, k)
  ensures 0 <= srank(d, k) && srank(d, k) < len(d) && skey(d, srank(d, k)) == k
  trigger srank(d, k)
axiom sorder(d "BD", a Str, b Str)
  requires finite(d) && has(d, a) && has(d, b) && strlt(a, b)
  ensures srank(d, a) < srank(d, b)
  trigger srank(d, a), srank(d, b), strlt(a, b)

# boxed values are finite trees
smt (declare-fun vheight (Iface) Int)
smt (declare-fun lheight (BL) Int)
smt (declare-fun dheight (BD) Int)
axiom hnonneg(v Iface)
  ensures 0 <= vheight(v)
  trigger vheight(v)
axiom lnonneg(l "BL")
  ensures 0 <= lheight(l)
  trigger lheight(l)
axiom dnonneg(d "BD")
  ensures 0 <= dheight(d)
  trigger dheight(d)
axiom hlist(v Iface)
  requires is(v, "bencode.List")
  ensures vheight(v) == lheight(as(v, "bencode.List"))
  trigger vheight(v)
axiom hdict(v Iface)
  requires is(v, "bencode.Dict")
  ensures vheight(v) == dheight(as(v, "bencode.Dict"))
  trigger vheight(v)
axiom hitem(l "BL", i int)
  requires 0 <= i && i < len(l)
  ensures vheight(l[i]) < lheight(l)
  trigger l[i], lheight(l)
axiom hvalue(d "BD", k Str)
  requires finite(d) && has(d, k)
  ensures vheight(d[k]) < dheight(d)
  trigger d[k], dheight(d)

pred isint(v) = is(v, "int") || is(v, "int8") || is(v, "int16") || is(v, "int32") || is(v, "int64")
pred intof(v) = ite(is(v, "int"), as(v, "int"), ite(is(v, "int8"), as(v, "int8"), ite(is(v, "int16"), as(v, "int16"), ite(is(v, "int32"), as(v, "int32"), as(v, "int64")))))
# the canonical encodings
pred encs(s) = cat(dec(len(s)), ":", s)
pred enci(i) = cat("i", dec(i), "e")
spec enc(v Iface) Str rec = ite(is(v, "string"), encs(as(v, "string")), ite(isint(v), enci(intof(v)), ite(is(v, "bencode.List"), cat("l", encl(as(v, "bencode.List"), len(as(v, "bencode.List"))), "e"), cat("d", encd(as(v, "bencode.Dict"), len(as(v, "bencode.Dict"))), "e"))))
spec encl(l "BL", n int) Str rec = ite(n <= 0, "", cat(encl(l, n-1), enc(l[n-1])))
spec encd(d "BD", n int) Str rec = ite(n <= 0, "", cat(encd(d, n-1), encs(skey(d, n-1)), enc(d[skey(d, n-1)])))
# what can be encoded
spec encok(v Iface) Bool rec = ite(is(v, "string"), len(as(v, "string")) > 0, ite(isint(v), true, ite(is(v, "bencode.List"), encokl(as(v, "bencode.List"), len(as(v, "bencode.List"))), is(v, "bencode.Dict") && encokd(as(v, "bencode.Dict"), len(as(v, "bencode.Dict"))))))
spec encokl(l "BL", n int) Bool rec = n <= 0 || encokl(l, n-1) && encok(l[n-1])
spec encokd(d "BD", n int) Bool rec = n <= 0 || encokd(d, n-1) && len(skey(d, n-1)) > 0 && encok(d[skey(d, n-1)])

# encokl and encokd of a prefix
lemma oklpre(l "BL", m int, n int)
  requires 0 <= m && m < n && encokl(l, n)
  ensures encok(l[m])
  trigger l[m], encokl(l, n)
  induct n
  use oklpre(l, m, n-1)
  props C02 C13
lemma okdpre(d "BD", m int, n int)
  requires 0 <= m && m < n && encokd(d, n)
  ensures len(skey(d, m)) > 0 && encok(d[skey(d, m)])
  trigger skey(d, m), encokd(d, n)
  induct n
  use okdpre(d, m, n-1)
  props C02 C13
# a row of strings that holds the keys of d in ascending order
spec skrow(a "(Array Int Str)", o int, d "BD") Bool rec = finite(d) && forall(p, o, o+len(d), has(d, a[p])) && forall(p, o, o+len(d), forall(q, o, p, strlt(a[q], a[p])))
lemma sklow(a "(Array Int Str)", o int, d "BD", i int)
  requires skrow(a, o, d) && 0 <= i && i < len(d)
  ensures srank(d, a[o+i]) >= i
  induct i
  use sklow(a, o, d, i-1)
  props C02 C13
lemma skhigh(a "(Array Int Str)", o int, d "BD", i int)
  requires skrow(a, o, d) && 0 <= i && i < len(d)
  ensures srank(d, a[o+len(d)-1-i]) <= len(d)-1-i
  induct i
  use skhigh(a, o, d, i-1)
  props C02 C13
lemma skrows(a "(Array Int Str)", o int, d "BD", p int)
  requires skrow(a, o, d) && o <= p && p < o+len(d)
  ensures skey(d, p-o) == a[p]
  trigger skrow(a, o, d), a[p]
  use sklow(a, o, d, p-o)
  use skhigh(a, o, d, len(d)-1-(p-o))
  props C02 C13

func bencode.encodeString(s, buf) (err)
  requires buf != nil
  modifies *buf
  ensures (err == nil) == (len(s) > 0)
  ensures imp(err == nil, content(buf) == cat(old(content(buf)), encs(s)))
  props C02 C13
func bencode.encodeInt(i, buf) ()
  requires buf != nil
  modifies *buf
  ensures content(buf) == cat(old(content(buf)), enci(i))
  props C02 C13
func bencode.encode(data, buf) (err)
  requires buf != nil
  modifies *buf
  ensures (err == nil) == encok(data)
  ensures imp(err == nil, content(buf) == cat(old(content(buf)), enc(data)))
  decreases 2*vheight(data) + 1
  props C02 C13
func bencode.encodeList(list, buf) (err)
  requires buf != nil
  modifies *buf
  loop [i int@rangeindex] encokl(bl(list), i)
  loop [i int@rangeindex] content(buf) == cat(old(content(buf)), "l", encl(bl(list), i))
  ensures (err == nil) == encokl(bl(list), len(list))
  ensures imp(err == nil, content(buf) == cat(old(content(buf)), "l", encl(bl(list), len(list)), "e"))
  decreases 2*lheight(bl(list))
  props C02 C13
func bencode.encodeDict(dict, buf) (err)
  requires buf != nil && finite(bd(dict))
  modifies *buf
  loop [m iter, any r []string] len(r) == m
  loop [m iter, any r []string] forall(k, 0, m, r[k] == m_ord[k])
  loop [m iter, i int] i == m
  loop [any ks []string] skrow(elems(ks), off(ks), bd(dict))
  loop [i int@rangeindex] encokd(bd(dict), i)
  loop [i int@rangeindex] content(buf) == cat(old(content(buf)), "d", encd(bd(dict), i))
  ensures (err == nil) == encokd(bd(dict), len(bd(dict)))
  ensures imp(err == nil, content(buf) == cat(old(content(buf)), "d", encd(bd(dict), len(bd(dict))), "e"))
  decreases 2*dheight(bd(dict))
  props C02 C13
func bencode.Encode(data) (ret, err)
  ensures (err == nil) == encok(data)
  ensures imp(err == nil, fresh(ret) && str(ret) == enc(data))
  props C02 C13
