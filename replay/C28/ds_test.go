//package-dir: utils/ds
package ds

import (
	"fmt"
	"math/rand"
	"testing"
)

type vkey struct {
	k string
	n int
}

func (v *vkey) Key() string { return v.k }

func vListCase(ops []int) {
	var trace []string
	vrun(func() string { return fmt.Sprintf("list operations %v", trace) }, func() string {
		ll := Make[int]()
		other := Make[int]()
		var want, gone []*Node[int]
		check := func() string {
			cur := ll.Head()
			var prev *Node[int]
			for i := 0; i < len(want); i++ {
				if cur != want[i] {
					return fmt.Sprintf("node %d of %d from the front is not the expected one", i, len(want))
				}
				if cur.Prev() != prev {
					return fmt.Sprintf("node %d has the wrong predecessor", i)
				}
				prev, cur = cur, cur.Next()
			}
			if cur != nil {
				return fmt.Sprintf("the list has more than the expected %d nodes", len(want))
			}
			if ll.size != int64(len(want)) {
				return fmt.Sprintf("size is %d, should be %d", ll.size, len(want))
			}
			return ""
		}
		for i, op := range ops {
			switch {
			case op%5 == 0 || (op%5 == 1 && len(gone) == 0):
				trace = append(trace, fmt.Sprintf("AddDataFront(%d)", i))
				n := ll.AddDataFront(i)
				if n.Data != i {
					return "AddDataFront: wrong data"
				}
				want = append([]*Node[int]{n}, want...)
			case op%5 == 1:
				k := op / 5 % len(gone)
				n := gone[k]
				gone = append(gone[:k:k], gone[k+1:]...)
				trace = append(trace, fmt.Sprintf("AddNodeFront(node %d)", n.Data))
				ll.AddNodeFront(n)
				want = append([]*Node[int]{n}, want...)
			case op%5 == 4 && op%7 == 0:
				trace = append(trace, "Clear()")
				ll.Clear()
				want = nil
			default:
				if len(want) == 0 {
					continue
				}
				k := op / 5 % len(want)
				n := want[k]
				trace = append(trace, fmt.Sprintf("Remove(node %d)", n.Data))
				ll.Remove(n)
				want = append(want[:k:k], want[k+1:]...)
				if op%2 == 0 {
					other.AddNodeFront(n)
					other.Remove(n)
				}
				gone = append(gone, n)
			}
			if r := check(); r != "" {
				return r
			}
		}
		return ""
	})
}

func TestVerifList(t *testing.T) {
	r := vrand(28)
	for it := 0; it < 6000; it++ {
		ops := make([]int, 1+r.Intn(14))
		for i := range ops {
			ops[i] = r.Intn(10000)
			if r.Intn(3) == 0 {
				ops[i] = 0
			}
		}
		vListCase(ops)
	}
	ops := make([]int, 1500)
	for i := range ops {
		ops[i] = r.Intn(4)
		if ops[i] > 1 {
			ops[i] = r.Intn(5000)
		}
	}
	vListCase(ops)
}

func vSetCase(r *rand.Rand, n, nk int) {
	var trace []string
	vrun(func() string { return fmt.Sprintf("set operations %v", trace) }, func() string {
		s := MakeSet[*vkey]()
		model := map[string]*vkey{}
		for i := 0; i < n; i++ {
			k := &vkey{fmt.Sprintf("k%d", r.Intn(nk)), i}
			if r.Intn(9) == 0 {
				k.k = ""
			}
			old, has := model[k.k]
			if s.Has(k) != has {
				return fmt.Sprintf("Has(%q) = %v", k.k, !has)
			}
			if r.Intn(5) < 3 {
				trace = append(trace, fmt.Sprintf("Add(%q)", k.k))
				if s.Add(k) != !has {
					return "Add reports the wrong result"
				}
				if !has {
					model[k.k] = k
				} else {
					model[k.k] = old
				}
			} else {
				trace = append(trace, fmt.Sprintf("Remove(%q)", k.k))
				if s.Remove(k) != has {
					return "Remove reports the wrong result"
				}
				delete(model, k.k)
			}
			if s.Size() != len(model) {
				return fmt.Sprintf("size is %d, should be %d", s.Size(), len(model))
			}
			if i%5 == 0 || n < 20 {
				items := s.Items()
				if len(items) != len(model) {
					return fmt.Sprintf("Items lists %d elements of %d", len(items), len(model))
				}
				seen := map[string]bool{}
				for _, x := range items {
					if x == nil || seen[x.k] || model[x.k] != x {
						return fmt.Sprintf("Items lists a wrong or repeated element: %v", x)
					}
					seen[x.k] = true
				}
			}
		}
		for k := 0; k < nk; k++ {
			x := &vkey{fmt.Sprintf("k%d", k), 0}
			if _, has := model[x.k]; s.Has(x) != has {
				return fmt.Sprintf("Has(%q) = %v", x.k, !has)
			}
		}
		return ""
	})
}

func TestVerifSet(t *testing.T) {
	r := vrand(29)
	for it := 0; it < 2000; it++ {
		vSetCase(r, 1+r.Intn(25), 1+r.Intn(8))
	}
	for it := 0; it < 20; it++ {
		vSetCase(r, 1500, 300)
	}
}
