//package-dir: bf
package bf

import (
	"bytes"
	"fmt"
	"testing"
)

func vagree(b *Bitfield, set []bool, n int64) string {
	cnt := int64(0)
	for i := int64(0); i < n; i++ {
		if b.Get(i) != set[i] {
			return fmt.Sprintf("Get(%d) is %v", i, b.Get(i))
		}
		if set[i] {
			cnt++
		}
		if (b.Data()[i/8]>>(7-uint(i%8))&1 == 1) != set[i] {
			return fmt.Sprintf("bit %d of Data() is wrong", i)
		}
	}
	if b.Nset() != cnt {
		return fmt.Sprintf("Nset() is %d, %d are set", b.Nset(), cnt)
	}
	if b.Complete() != (cnt == n) {
		return fmt.Sprintf("Complete() is %v with %d of %d set", b.Complete(), cnt, n)
	}
	if b.Nbits() != n || b.Nbytes() != (n+7)/8 || int64(len(b.Data())) != (n+7)/8 || int64(len(b.Data5())) != 5+(n+7)/8 {
		return "sizes are wrong"
	}
	if !bytes.Equal(b.Data5()[5:], b.Data()) {
		return "Data5 and Data differ"
	}
	return ""
}

func TestVerifHistories(t *testing.T) {
	r := vrand(8)
	for it := 0; it < 6000; it++ {
		n := int64(1 + r.Intn(70))
		if it%10 == 0 {
			n = int64(1 + r.Intn(400))
		}
		hist := fmt.Sprintf("NewBitfield(%d)", n)
		set := make([]bool, n)
		var b *Bitfield
		desc := func() string { return hist }
		vrun(desc, func() string {
			if r.Intn(2) == 0 {
				b = NewBitfield(n)
			} else {
				data := make([]byte, 5+(n+7)/8)
				r.Read(data)
				if r.Intn(2) == 0 {
					// every named bit set, the spare ones as they come
					for i := int64(0); i < n; i++ {
						data[5+i/8] |= 1 << (7 - uint(i%8))
					}
				}
				hist = fmt.Sprintf("FromBytes(%x,%d)", data, n)
				for i := range set {
					set[i] = data[5+i/8]>>(7-uint(i%8))&1 == 1
				}
				var err error
				b, err = FromBytes(data, n)
				if err != nil {
					return "refused: " + err.Error()
				}
			}
			return vagree(b, set, n)
		})
		for k := 0; k < 40; k++ {
			vrun(desc, func() string {
				switch c := r.Intn(20); {
				case c == 0:
					hist += " Fill"
					b.Fill()
					for i := range set {
						set[i] = true
					}
				case c == 1:
					// any count that keeps the bytes
					m := (n-1)/8*8 + 1 + int64(r.Intn(8))
					hist += fmt.Sprintf(" SetNbits(%d)", m)
					full := make([]bool, m)
					for i := range full {
						full[i] = b.Data()[i/8]>>(7-uint(i%8))&1 == 1
					}
					b.SetNbits(m)
					n, set = m, full
				default:
					i := int64(r.Intn(int(n)))
					v := r.Intn(3) > 0
					hist += fmt.Sprintf(" Set(%d,%v)", i, v)
					b.Set(i, v)
					set[i] = v
				}
				return vagree(b, set, n)
			})
		}
	}
}

// large bitfields: byte patterns and single indices
func TestVerifLarge(t *testing.T) {
	r := vrand(9)
	for _, nb := range []int64{31, 32, 33, 255, 256, 257, 8191, 8192, 8193, 70000, 600000} {
		for rem := int64(0); rem < 8; rem++ {
			n := 8*nb - rem
			hist := ""
			desc := func() string { return hist }
			vrun(desc, func() string {
				hist = fmt.Sprintf("FromBytes(5+%d bytes 0xff, %d)", nb, n)
				b, err := FromBytes(bytes.Repeat([]byte{255}, int(5+nb)), n)
				if err != nil {
					return "refused"
				}
				if b.Nset() != n || !b.Complete() {
					return fmt.Sprintf("Nset() is %d", b.Nset())
				}
				for _, bad := range []int64{8*nb + 1, 8*nb + 2, 8 * (nb - 1)} {
					hist = fmt.Sprintf("FromBytes(5+%d bytes, %d)", nb, bad)
					if _, err := FromBytes(make([]byte, 5+nb), bad); err == nil {
						return "accepted"
					}
				}
				b = NewBitfield(n)
				hist = fmt.Sprintf("NewBitfield(%d)", n)
				cnt := int64(0)
				ref := map[int64]bool{}
				for k := 0; k < 30; k++ {
					i := r.Int63n(n)
					if k == 0 {
						i = n - 1
					}
					hist += fmt.Sprintf(" Set(%d,true)", i)
					b.Set(i, true)
					if !ref[i] {
						cnt++
					}
					ref[i] = true
					for j := range ref {
						if !b.Get(j) || b.Data()[j/8]>>(7-uint(j%8))&1 == 0 {
							return fmt.Sprintf("index %d is not set", j)
						}
					}
					for q := 0; q < 20; q++ {
						j := r.Int63n(n)
						if q < 10 {
							j = i & (1<<uint(8+q) - 1)
						}
						if b.Get(j) != ref[j] {
							return fmt.Sprintf("Get(%d) is %v", j, !ref[j])
						}
					}
					if b.Nset() != cnt || b.Complete() {
						return "wrong count"
					}
				}
				b.Fill()
				hist += " Fill"
				if b.Nset() != n || !b.Complete() {
					return fmt.Sprintf("Nset() is %d", b.Nset())
				}
				return ""
			})
		}
	}
}

func TestVerifSizes(t *testing.T) {
	for l := 0; l < 40; l++ {
		for n := int64(-20); n < 330; n++ {
			d := func() string { return fmt.Sprintf("FromBytes(%d bytes, %d)", l, n) }
			vrun(d, func() string {
				b, err := FromBytes(make([]byte, l), n)
				want := l > 5 && n > 0 && (n+7)/8 == int64(l-5)
				if (err == nil) != want || (err == nil) != (b != nil) {
					return fmt.Sprintf("accepted=%v", err == nil)
				}
				return ""
			})
		}
	}
	for n := int64(1); n < 60; n++ {
		for m := int64(-70); m < 150; m++ {
			d := func() string { return fmt.Sprintf("NewBitfield(%d).SetNbits(%d)", n, m) }
			vrun(d, func() string {
				b := NewBitfield(n)
				ok := func() (ok bool) {
					defer func() { recover() }()
					b.SetNbits(m)
					return true
				}()
				want := m >= 0 && (m+7)/8 == (n+7)/8
				if ok != want {
					return fmt.Sprintf("accepted=%v", ok)
				}
				return ""
			})
		}
	}
}
