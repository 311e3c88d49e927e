# Torrent creation (C14)
package utils

# x is a multiple of g
spec mult(x int, g int) bool rec = g > 0 && (x == 0 || x >= g && mult(x - g, g))
lemma mult_gap(a int, b int, g int)
  requires g > 0 && 0 <= b && b < a && mult(a, g) && mult(b, g)
  ensures b + g <= a
  induct b
  use mult_gap(a - g, b - g, g), mult(a, g), mult(b, g), mult(a - g, g)
  trigger mult(a, g), mult(b, g)
  props C14
lemma mult_mul(q int, g int)
  requires g > 0 && q >= 0
  ensures mult(q*g, g) && q*g >= 0
  induct q
  use mult_mul(q - 1, g), mult(q*g, g)
  props C14

# consecutive segments of the first e bytes of data, in the same memory, none empty, all of size g but the last, which may be shorter
pred seg(p, data, k) = obj(p[k]) == obj(data) && 0 < len(p[k]) && off(p[k]) == ite(k == 0, off(data), off(p[k-1]) + len(p[k-1]))
pred segs(p, data, g, e) = ite(len(p) == 0, e == 0, off(p[len(p)-1]) + len(p[len(p)-1]) == off(data) + e) && forall(k, 0, len(p), seg(p, data, k) && imp(k < len(p) - 1, len(p[k]) == g) && len(p[k]) <= g && off(p[k]) + len(p[k]) <= off(data) + e, p[k])

func utils.SegmentData(data, segSize) (r)
  requires segSize > 0 && len(data) < pow2(47)
  loop [any p [][]byte, e int64] segs(p, data, segSize, e) && 0 <= e && e <= len(data)
  loop [any p [][]byte] fresh(p) && alive(p)
  loop [any p [][]byte, e int64] imp(e < len(data), forall(k, 0, len(p), len(p[k]) == segSize, p[k]) && mult(e, segSize))
  loop [any p [][]byte, e int64] imp(mult(len(data), segSize), forall(k, 0, len(p), len(p[k]) == segSize, p[k]))
  loop [e int64, l int64] e + l == len(data)
  ensures segs(r, data, segSize, len(data)) && (len(r) == 0 || fresh(r))
  ensures imp(mult(len(data), segSize), forall(k, 0, len(r), len(r[k]) == segSize, r[k]))
  props C14

