# Containers (C28)
package ds

# a set holds each element under its key
pred wfset(s) = obj(s.set) != 0 && forall(q, "Str", imp(has(s.set, q), keyof(s.set[q]) == q))

func utils/ds.MakeSet() (r)
  ensures obj(r.set) != 0 && fresh(r.set) && len(r.set) == 0 && forall(q, "Str", !has(r.set, q))
  props C28 C19

func (*utils/ds.Set).Has(s, x) (r)
  ensures r == has(s.set, keyof(x))
  props C28 C19
func (*utils/ds.Set).Size(s) (r)
  ensures r == len(s.set)
  props C28 C19
func (*utils/ds.Set).Add(s, x) (r)
  requires obj(s.set) != 0
  modifies mapof(s.set)
  ensures r == !old(has(s.set, keyof(x)))
  ensures forall(q, "Str", has(s.set, q) == (q == keyof(x) || old(has(s.set, q))))
  ensures forall(q, "Str", imp(old(has(s.set, q)), s.set[q] == old(s.set[q])))
  ensures imp(r, s.set[keyof(x)] == x)
  ensures len(s.set) == old(len(s.set)) + ite(r, 1, 0)
  props C28 C19
func (*utils/ds.Set).Remove(s, x) (r)
  requires obj(s.set) != 0
  modifies mapof(s.set)
  ensures r == old(has(s.set, keyof(x)))
  ensures forall(q, "Str", has(s.set, q) == (q != keyof(x) && old(has(s.set, q))))
  ensures forall(q, "Str", imp(has(s.set, q), s.set[q] == old(s.set[q])))
  ensures len(s.set) == old(len(s.set)) - ite(r, 1, 0)
  props C28 C19
func (*utils/ds.Set).Items(s) (r)
  requires wfset(s)
  loop [m iter, any r []T] len(r) == m
  loop [m iter, any r []T] forall(i, 0, m, r[i] == s.set[m_ord[i]])
  ensures len(r) == len(s.set)
  ensures forall(i, 0, len(r), has(s.set, keyof(r[i])) && s.set[keyof(r[i])] == r[i])
  ensures forall(i, 0, len(r), forall(j, 0, i, keyof(r[i]) != keyof(r[j])))
  props C28

# ---------------------------------------------------------------- linked list
# ghosts: the list (address) a node is in and its position counted from the back
ghost lown "(Array Int Int)"
ghost lowi "(Array Int Int)"
ghost lpos "(Array Int Int)"
pred own(ll, o) = lown[o] == obj(ll) && lowi[o] == idx(ll)
pred inl(ll, o) = own(ll, o) && 0 <= lpos[o] && lpos[o] < ll.size
pred nd(ll, o) = ptrlike(ll.head, o)
pred nextok(ll, o) = ite(lpos[o] == 0, nd(ll, o).next == nil, nd(ll, o).next != nil && idx(nd(ll, o).next) == 0 && inl(ll, obj(nd(ll, o).next)) && lpos[obj(nd(ll, o).next)] == lpos[o] - 1)
pred prevok(ll, o) = ite(lpos[o] == ll.size - 1, nd(ll, o).prev == nil && ll.head == nd(ll, o), nd(ll, o).prev != nil && idx(nd(ll, o).prev) == 0 && inl(ll, obj(nd(ll, o).prev)) && lpos[obj(nd(ll, o).prev)] == lpos[o] + 1)
# a well-formed doubly linked list: positions are distinct, head is the last one, next and prev go one down and up
pred wfl(ll) = 0 <= ll.size && ll.size < pow2(48) && ite(ll.size == 0, ll.head == nil, ll.head != nil && idx(ll.head) == 0 && inl(ll, obj(ll.head)) && lpos[obj(ll.head)] == ll.size - 1) && forall(o, "Int", imp(inl(ll, o), o > 0 && alive(nd(ll, o)) && nextok(ll, o) && prevok(ll, o)), lpos[o]) && forall(o, "Int", forall(p, "Int", imp(inl(ll, o) && inl(ll, p) && lpos[o] == lpos[p], o == p), lpos[p]), lpos[o])

func utils/ds.Make() (r)
  ensures r.head == nil && r.size == 0
  props C28
func (*utils/ds.Node).Next(n) (r)
  ensures r == n.next
  props C28 C20
func (*utils/ds.Node).Prev(n) (r)
  ensures r == n.prev
  props C28
func (*utils/ds.LinkedList).Head(ll) (r)
  ensures r == ll.head
  props C28 C20
func (*utils/ds.LinkedList).Clear(ll) ()
  modifies ll.head, ll.size
  ensures wfl(ll) && ll.size == 0
  props C28

func (*utils/ds.LinkedList).AddNodeFront(ll, n) ()
  requires wfl(ll) && n != nil && idx(n) == 0 && !inl(ll, obj(n)) && ll.size < pow2(48) - 1
  modifies n.prev, n.next, ll.head, ll.size, ll.head.prev, lown, lowi, lpos
  set lpos(x) = ite(x == obj(n), old(ll.size), lpos[x])
  set lowi(x) = ite(x == obj(n), idx(ll), lowi[x])
  set lown(x) = ite(x == obj(n), obj(ll), ite(own(ll, x) && !(0 <= lpos[x] && lpos[x] < old(ll.size)), 0 - 1, lown[x]))
  ensures wfl(ll) && ll.size == old(ll.size) + 1 && ll.head == n && ite(old(ll.size) == 0, n.next == nil, n.next == old(ll.head)) && n.prev == nil
  ensures forall(o, "Int", inl(ll, o) == (o == obj(n) || old(inl(ll, o))), lpos[o]) && lpos[obj(n)] == old(ll.size)
  ensures forall(o, "Int", imp(o != obj(n), lpos[o] == old(lpos[o]) && lowi[o] == old(lowi[o]) && imp(!old(own(ll, o)), lown[o] == old(lown[o]))), lpos[o])
  props C28 C19

func (*utils/ds.LinkedList).AddDataFront(ll, data) (r)
  requires wfl(ll) && ll.size < pow2(48) - 1
  modifies ll.head, ll.size, ll.head.prev, lown, lowi, lpos
  ensures wfl(ll) && ll.size == old(ll.size) + 1 && ll.head == r && fresh(r) && r.Data == data && idx(r) == 0
  ensures forall(o, "Int", inl(ll, o) == (o == obj(r) || old(inl(ll, o))), lpos[o]) && lpos[obj(r)] == old(ll.size)
  ensures forall(o, "Int", imp(o != obj(r), lpos[o] == old(lpos[o]) && lowi[o] == old(lowi[o]) && imp(!old(own(ll, o)), lown[o] == old(lown[o]))), lpos[o])
  props C28 C19

func (*utils/ds.LinkedList).Remove(ll, n) ()
  requires wfl(ll) && n != nil && idx(n) == 0 && inl(ll, obj(n))
  modifies n.prev, n.next, ll.head, ll.size, n.prev.next, n.next.prev, lown, lowi, lpos
  set lpos(x) = ite(own(ll, x) && 0 <= lpos[x] && lpos[x] < old(ll.size) && lpos[x] > lpos[obj(n)], lpos[x] - 1, lpos[x])
  set lown(x) = ite(x == obj(n), 0 - 1, lown[x])
  ensures wfl(ll) && ll.size == old(ll.size) - 1
  ensures forall(o, "Int", inl(ll, o) == (o != obj(n) && old(inl(ll, o))), lpos[o])
  ensures forall(o, "Int", lpos[o] == ite(old(inl(ll, o)) && old(lpos[o]) > old(lpos[obj(n)]), old(lpos[o]) - 1, old(lpos[o])) && lowi[o] == old(lowi[o]) && imp(o != obj(n), lown[o] == old(lown[o])), lpos[o])
  ensures lown[obj(n)] == 0 - 1
  props C28 C19

package utils
func utils.RemoveSwap(s, index) (r)
  requires 0 <= index && index < len(s)
  modifies elems(s)
  ensures len(r) == len(s) - 1 && forall(i, 0, len(s) - 1, r[i] == ite(i == index, old(s[len(s) - 1]), old(s[i])))
  props C28
