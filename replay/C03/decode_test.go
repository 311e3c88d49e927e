//package-dir: bencode
package bencode

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"
)

// vParse is an independent parser of one value at p; ok means well formed (string lengths may have leading zeros).
func vParse(d []byte, p int) (v interface{}, end int, ok bool) {
	if p >= len(d) {
		return
	}
	switch {
	case d[p] == 'i':
		q := p + 1
		for q < len(d) && d[q] != 'e' {
			q++
		}
		if q >= len(d) {
			return
		}
		s := string(d[p+1 : q])
		n, good := new(big.Int).SetString(s, 10)
		if !good || n.String() != s || !n.IsInt64() {
			return
		}
		return n.Int64(), q + 1, true
	case d[p] == 'l':
		l := List{}
		for p++; ; {
			if p < len(d) && d[p] == 'e' {
				return l, p + 1, true
			}
			x, e, good := vParse(d, p)
			if !good {
				return
			}
			l = append(l, x)
			p = e
		}
	case d[p] == 'd':
		m := Dict{}
		for p++; ; {
			if p < len(d) && d[p] == 'e' {
				return m, p + 1, true
			}
			if p >= len(d) || d[p] < '0' || d[p] > '9' {
				return
			}
			k, e, good := vParse(d, p)
			if !good {
				return
			}
			x, e, good := vParse(d, e)
			if !good {
				return
			}
			m[k.(string)] = x
			p = e
		}
	}
	q := p
	n := new(big.Int)
	for q < len(d) && d[q] >= '0' && d[q] <= '9' {
		n.Mul(n, big.NewInt(10)).Add(n, big.NewInt(int64(d[q]-'0')))
		q++
	}
	if q == p || q >= len(d) || d[q] != ':' || n.Cmp(big.NewInt(int64(len(d)-q-1))) > 0 {
		return
	}
	return string(d[q+1 : q+1+int(n.Int64())]), q + 1 + int(n.Int64()), true
}

func vEq(a, b interface{}) bool {
	switch x := a.(type) {
	case List:
		y, ok := b.(List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !vEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case Dict:
		y, ok := b.(Dict)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if z, ok := y[k]; !ok || !vEq(x[k], z) {
				return false
			}
		}
		return true
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	}
	return false
}

func vDecode(in []byte, spare string) {
	vrun(func() string {
		if len(in) > 300 {
			return fmt.Sprintf("Decode(%q... %d bytes)", in[:100], len(in))
		}
		return fmt.Sprintf("Decode(%q) with %q beyond the end", in, spare)
	}, func() string {
		buf := make([]byte, len(in)+len(spare))
		copy(buf, in)
		copy(buf[len(in):], spare)
		v, err := Decode(buf[:len(in)])
		if !bytes.Equal(buf[:len(in)], in) || string(buf[len(in):]) != spare {
			return "modified the input"
		}
		w, _, ok := vParse(in, 0)
		if (err == nil) != ok {
			return fmt.Sprintf("error %v, but the input is well formed: %v", err, ok)
		}
		if ok && !vEq(w, v) {
			return fmt.Sprintf("gives %#v, should be %#v", v, w)
		}
		return ""
	})
}

func vGen(r interface{ Intn(int) int }, depth int) string {
	switch k := r.Intn(10); {
	case k < 3:
		n := r.Intn(12)
		if r.Intn(20) == 0 {
			n = r.Intn(300)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = "ade:il0123456789\xff\x00-"[r.Intn(19)]
		}
		return fmt.Sprintf("%d:%s", n, b)
	case k < 6 || depth <= 0:
		return "i" + []string{"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "-0", "00", "01", "-01", "+1", "", "-", "12345", "-700", "18446744073709551616", "1 ", "0x1", "1e1", "--1", "1_0"}[r.Intn(22)%(1+r.Intn(22))] + "e"
	case k < 8:
		s := "l"
		for i := r.Intn(5); i > 0; i-- {
			s += vGen(r, depth-1)
		}
		return s + "e"
	}
	s := "d"
	for i := r.Intn(5); i > 0; i-- {
		s += []string{"1:a", "1:b", "2:aa", "0:", "3:a\x00b", "1:\xff"}[r.Intn(6)] + vGen(r, depth-1)
	}
	return s + "e"
}

func TestVerifDecode(t *testing.T) {
	r := vrand(3)
	for c := 0; c < 40000; c++ {
		s := vGen(r, r.Intn(6))
		vDecode([]byte(s), strings.Repeat("z", r.Intn(3)))
		// damage it
		b := []byte(s)
		switch r.Intn(5) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			if len(b) > 0 {
				b[r.Intn(len(b))] = "ade:il0123456789\xff\x00-"[r.Intn(19)]
			}
		case 2:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{"ade:il0123456789-"[r.Intn(17)]}, b[i:]...)...)
		case 3:
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 4:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], fmt.Sprintf("%d:", []int64{1 << 31, 1 << 32, 1<<63 - 1, 1<<32 + 1, 5, 300}[r.Intn(6)])...)
		}
		vDecode(b, strings.Repeat("z", r.Intn(400)))
	}
	for c := 0; c < 60000; c++ {
		b := make([]byte, r.Intn(9))
		for i := range b {
			b[i] = "ade:il012-9"[r.Intn(11)]
		}
		vDecode(b, "zzz")
	}
	for _, s := range []string{"99999999999999999999:a", "18446744073709551617:a", "9223372036854775807:a", "9223372036854775808:", "4294967296:a", "", "d", "l", "i", "-", "1", "1:", "2:a", ":", "0:", "00:", "01:a", "i" + strings.Repeat("9", 1000) + "e", strings.Repeat("0", 1000) + "1:a", "l" + strings.Repeat("1:a", 2000) + "e"} {
		vDecode([]byte(s), "zzzzzzzz")
	}
	for b := 0; b < 256; b++ {
		vDecode([]byte{byte(b)}, "e")
		vDecode([]byte{'1', byte(b), 'x'}, "e")
		vDecode([]byte{'i', byte(b), 'e'}, "e")
		vDecode([]byte{'i', '1', byte(b), 'e'}, "e")
		vDecode([]byte{'l', byte(b), 'e'}, "e")
		vDecode([]byte{'d', '1', ':', 'k', byte(b), 'e'}, "e")
		vDecode([]byte{'1', ':', byte(b)}, "e")
	}
}

// Deep nesting: whatever the answer, the process survives. (A stack overflow cannot be recovered from;
// the watchdog line is printed first, so that it is known what ran.)
func TestVerifDeep(t *testing.T) {
	for _, u := range []string{"l", "d1:a", "ld1:a", "ll"} {
		for _, n := range []int{1, 100, 1000, 9999, 10001, 20000, 100000, 1000000, 9000000} {
			in := []byte(strings.Repeat(u, n))
			vmark(fmt.Sprintf("Decode of %q repeated %d times: the process dies (stack overflow)", u, n))
			v, err := Decode(in)
			_ = v
			if err == nil {
				vfail(fmt.Sprintf("Decode of %q repeated %d times: accepted truncated input", u, n))
			}
		}
	}
	vmark("")
	for _, n := range []int{1, 10, 100, 500} {
		vDecode([]byte(strings.Repeat("l", n)+strings.Repeat("e", n)), "")
		vDecode([]byte(strings.Repeat("d1:a", n)+"0:"+strings.Repeat("e", n)), "")
	}
}
