# Bitfield (property C08)
package bf

# bit i of a byte string, most significant bit first
pred bitat(s, i) = b8(s[(i)/8], 7 - (i)%8)
spec bitof(s Str, i int) int rec = bitat(s, i)
# number of set bits among the first n
spec popc(s Str, n int) int rec = ite(n <= 0, 0, popc(s, n-1) + bitat(s, n-1))

# changing (at most) bit i changes the count by the difference
lemma popc_upd(s Str, t Str, i int, n int)
  requires i >= 0 && n >= 0 && forall(j, 0, n, imp(j != i, bitat(s, j) == bitat(t, j)))
  ensures popc(t, n) == popc(s, n) + ite(i < n, bitat(t, i) - bitat(s, i), 0)
  induct n
  use popc_upd(s, t, i, n-1), popc(s, n), popc(t, n)

lemma popc_range(s Str, n int)
  requires n >= 0
  ensures 0 <= popc(s, n) && popc(s, n) <= n
  induct n
  trigger popc(s, n)
  use popc_range(s, n-1), popc(s, n)

lemma popc_full(s Str, n int)
  requires n >= 0
  ensures iff(popc(s, n) == n, forall(j, 0, n, bitat(s, j) == 1))
  induct n
  use popc_full(s, n-1), popc(s, n), popc_range(s, n-1), popc_range(s, n)

lemma popc_zero(s Str, n int)
  requires n >= 0
  ensures iff(popc(s, n) == 0, forall(j, 0, n, bitat(s, j) == 0))
  induct n
  use popc_zero(s, n-1), popc(s, n), popc_range(s, n-1), popc_range(s, n)

pred wfbits(b) = b.nbits >= 0 && b.nbytes == (b.nbits+7)/8 && len(b.data) == b.nbytes && len(b.data5) == b.nbytes + 5 && obj(b.data) == obj(b.data5) && off(b.data) == off(b.data5) + 5 && cap(b.data) + 5 == cap(b.data5)
pred wfbf(b) = wfbits(b) && b.nset == popc(str(b.data), b.nbits)

func bf.NewBitfield(nbits) (r)
  requires 0 <= nbits && nbits <= 8000000000000
  ensures r != nil && fresh(r) && fresh(r.data5) && wfbf(r) && r.nbits == nbits
  ensures r.nset == 0 && forall(i, 0, len(r.data5), r.data5[i] == 0)
  ensures forall(i, 0, nbits, bitat(str(r.data), i) == 0)
  use popc_zero(str(r.data), nbits)
  props C08

func (*bf.Bitfield).calcNset(b) ()
  requires wfbits(b)
  modifies b.nset
  ensures wfbf(b)
  loop [n int, j int, any i int] n == popc(str(b.data), 8*i + j)
  loop [n int, i int] n == popc(str(b.data), 8*i)
  loop [n int, i int] n == popc(str(b.data), b.nbits - b.nbits%8 + i)
  loop [n int, i int] n == popc(str(b.data), i)
  props C08

func bf.FromBytes(bytes5, nbits) (r, err)
  ensures iff(err == nil, len(bytes5) > 5 && nbits > 0 && (nbits+7)/8 == len(bytes5) - 5)
  ensures imp(err == nil, r != nil && fresh(r) && wfbf(r) && r.nbits == nbits && r.data5 == bytes5)
  ensures imp(err != nil, r == nil)
  props C08

func (*bf.Bitfield).Fill(b) ()
  requires wfbf(b)
  modifies b.nset, elems(b.data5)
  ensures wfbf(b) && b.nset == b.nbits && forall(i, 0, b.nbits, bitat(str(b.data), i) == 1)
  loop [any i int] forall(k, 0, i, b.data5[k] == 255)
  loop [i int] forall(k, 0, i, b.data5[k] == 255)
  use popc_full(str(b.data), b.nbits)
  props C08

func (*bf.Bitfield).Get(b, idx) (r)
  requires wfbits(b) && 0 <= idx && idx < b.nbits
  ensures iff(r, bitat(str(b.data), idx) == 1)
  props C08

func (*bf.Bitfield).Set(b, idx, val) ()
  requires wfbf(b) && 0 <= idx && idx < b.nbits
  modifies b.nset, elems(b.data)
  ensures wfbf(b)
  ensures bitof(str(b.data), idx) == ite(val, 1, 0)
  ensures forall(i, 0, 8*b.nbytes, imp(i != idx, bitof(str(b.data), i) == old(bitof(str(b.data), i))), bitof(str(b.data), i))
  use popc_upd(old(str(b.data)), str(b.data), idx, b.nbits)
  props C08

func (*bf.Bitfield).Data5(b) (r)
  ensures r == b.data5
  props C08
func (*bf.Bitfield).Data(b) (r)
  ensures r == b.data
  props C08
func (*bf.Bitfield).Nbits(b) (r)
  ensures r == b.nbits
  props C08
func (*bf.Bitfield).Nbytes(b) (r)
  ensures r == b.nbytes
  props C08
func (*bf.Bitfield).Nset(b) (r)
  ensures r == b.nset
  props C08

func (*bf.Bitfield).Complete(b) (r)
  requires wfbf(b)
  ensures iff(r, forall(i, 0, b.nbits, bitat(str(b.data), i) == 1))
  use popc_full(str(b.data), b.nbits)
  props C08

func (*bf.Bitfield).SetNbits(b, nbits) ()
  requires wfbf(b)
  modifies b.nset, b.nbits
  ensures wfbf(b) && b.nbits == nbits
  panics !(nbits >= 0 && (nbits+7)/8 == b.nbytes)
  props C08
