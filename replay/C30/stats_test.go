//package-dir: tracker
package tracker

import (
	"fmt"
	"testing"
)

func TestVerifStats(t *testing.T) {
	r := vrand(30)
	v := func() uint64 {
		switch r.Intn(4) {
		case 0:
			return uint64(r.Intn(5))
		case 1:
			return r.Uint64()
		case 2:
			return 1<<uint(r.Intn(64)) - uint64(r.Intn(2))
		}
		return r.Uint64() >> uint(r.Intn(64))
	}
	for it := 0; it < 5000; it++ {
		up, dn, left := v(), v(), v()
		s := NewStats(dn, up, left)
		hist := fmt.Sprintf("NewStats(%d,%d,%d)", dn, up, left)
		for k := 0; k < 30; k++ {
			vrun(func() string { return hist }, func() string {
				a := v()
				switch r.Intn(4) {
				case 0:
					hist += fmt.Sprintf(" IncUploaded(%d)", a)
					s.IncUploaded(a)
					up += a
				case 1:
					hist += fmt.Sprintf(" IncDnloaded(%d)", a)
					s.IncDnloaded(a)
					dn += a
				default:
					if r.Intn(5) == 0 {
						a = left
					}
					hist += fmt.Sprintf(" DecLeft(%d)", a)
					s.DecLeft(a)
					if a > left {
						left = 0
					} else {
						left -= a
					}
				}
				if s.Uploaded() != up || s.Dnloaded() != dn || s.Left() != left {
					return fmt.Sprintf("gives up %d down %d left %d, want %d %d %d", s.Uploaded(), s.Dnloaded(), s.Left(), up, dn, left)
				}
				return ""
			})
		}
	}
}
