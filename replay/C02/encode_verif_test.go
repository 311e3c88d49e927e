//package-dir: bencode
package bencode

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// vEnc is an independent encoder: the canonical form, or not ok.
func vEnc(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		if x == "" {
			return "", false
		}
		return strconv.Itoa(len(x)) + ":" + x, true
	case int:
		return "i" + strconv.FormatInt(int64(x), 10) + "e", true
	case int8:
		return "i" + strconv.FormatInt(int64(x), 10) + "e", true
	case int16:
		return "i" + strconv.FormatInt(int64(x), 10) + "e", true
	case int32:
		return "i" + strconv.FormatInt(int64(x), 10) + "e", true
	case int64:
		return "i" + strconv.FormatInt(x, 10) + "e", true
	case List:
		s := "l"
		for _, y := range x {
			e, ok := vEnc(y)
			if !ok {
				return "", false
			}
			s += e
		}
		return s + "e", true
	case Dict:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		s := "d"
		for _, k := range ks {
			e, ok := vEnc(x[k])
			if !ok || k == "" {
				return "", false
			}
			s += strconv.Itoa(len(k)) + ":" + k + e
		}
		return s + "e", true
	}
	return "", false
}

func vShow(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 300 {
		s = fmt.Sprintf("%s... (%d characters, a %T)", s[:300], len(s), v)
	}
	return s
}

func vCheckEnc(t *testing.T, v interface{}) {
	want, ok := vEnc(v)
	vrun(func() string { return "Encode(" + vShow(v) + ")" }, func() string {
		for i := 0; i < 3; i++ {
			got, err := Encode(v)
			if (err == nil) != ok {
				return fmt.Sprintf("error %v, want an encoding: %v", err, ok)
			}
			if ok && string(got) != want {
				p := 0
				for p < len(got) && p < len(want) && got[p] == want[p] {
					p++
				}
				return fmt.Sprintf("got %d bytes, want %d; first difference at byte %d", len(got), len(want), p)
			}
			again, ok2 := vEnc(v)
			if ok2 != ok || again != want {
				return "encoding changed the value"
			}
			if i == 0 {
				for j := range got { // the result is the caller's
					got[j] = 'x'
				}
			}
		}
		return ""
	})
}

type vOther string
type vInts int

var vBad = []interface{}{nil, true, 1.5, uint(3), uint8(3), uint16(3), uint32(3), uint64(3), float32(1), []byte("ab"), "", []string{"a"}, map[string]string{"a": "b"},
	[]interface{}{"a"}, map[string]interface{}{"a": "b"}, vOther("x"), vInts(3), struct{}{}, 'x' == 'y', complex(1, 2), &Dict{}, &List{}, Dict{"": "a"}, Dict{"a": ""}, Dict{"a": nil}, List{nil}, List{""}, Dict{"": int64(1), "b": "c"}}

func vVal(r *rand.Rand, depth int, bad bool) interface{} {
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	if bad && r.Intn(12) == 0 {
		return vBad[r.Intn(len(vBad))]
	}
	switch k {
	case 0, 1:
		n := 1 + r.Intn(12)
		if r.Intn(20) == 0 {
			n = 90 + r.Intn(1000)
		}
		b := make([]byte, n)
		r.Read(b)
		if r.Intn(2) == 0 {
			for i := range b {
				b[i] = "0123456789:eldi%\x00\n-"[r.Intn(19)]
			}
		}
		return string(b)
	case 2:
		return int64(r.Uint64())
	case 3:
		return r.Intn(20) - 10
	case 4:
		return []interface{}{int8(r.Int()), int16(r.Int()), int32(r.Int()), int(r.Uint64())}[r.Intn(4)]
	case 5:
		return []interface{}{int64(math.MinInt64), int64(math.MaxInt64), math.MinInt64, math.MaxInt64, int64(0), 0, int8(-128), int16(-32768), int32(math.MinInt32), int32(math.MaxInt32), int8(127), int16(32767)}[r.Intn(12)]
	case 6, 7:
		l := List{}
		for i := r.Intn(5); i > 0; i-- {
			l = append(l, vVal(r, depth-1, bad))
		}
		if len(l) == 0 && r.Intn(2) == 0 {
			return List(nil)
		}
		return l
	}
	d := Dict{}
	for i := r.Intn(7); i > 0; i-- {
		d[vKey(r)] = vVal(r, depth-1, bad)
	}
	if len(d) == 0 && r.Intn(2) == 0 {
		return Dict(nil)
	}
	return d
}

func vKey(r *rand.Rand) string {
	n := 1 + r.Intn(5)
	if r.Intn(20) == 0 {
		n = 100
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "aAbB10:\x00\xff\x80 e"[r.Intn(12)]
	}
	return string(b)
}

func TestVerifEncodeKinds(t *testing.T) {
	for _, b := range vBad {
		vCheckEnc(t, b)
		vCheckEnc(t, List{"a", b})
		vCheckEnc(t, List{b, "a"})
		vCheckEnc(t, Dict{"a": b, "b": "x"})
		vCheckEnc(t, Dict{"a": "x", "b": b})
		vCheckEnc(t, List{List{Dict{"k": List{b}}}})
	}
	for i := -300; i <= 300; i++ {
		vCheckEnc(t, i)
		vCheckEnc(t, int64(i)<<32)
		vCheckEnc(t, int64(math.MinInt64)+int64(i+300))
		vCheckEnc(t, int64(math.MaxInt64)-int64(i+300))
	}
	for i := 0; i < 63; i++ {
		for d := int64(-1); d <= 1; d++ {
			vCheckEnc(t, int64(1)<<uint(i)+d)
			vCheckEnc(t, -(int64(1)<<uint(i))+d)
		}
	}
	for p, i := int64(1), 0; i < 19; p, i = p*10, i+1 {
		vCheckEnc(t, List{p, -p, p - 1, 1 - p})
	}
	for i := 0; i < 256; i++ {
		vCheckEnc(t, string([]byte{byte(i)}))
		vCheckEnc(t, Dict{string([]byte{byte(i)}): i, "m": "x", "mm": "y", string([]byte{'m', byte(i)}): i})
	}
	for _, n := range []int{1, 9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 9999, 10000, 65535, 65536, 65537, 99999, 100000, 1 << 20, 1<<20 + 1} {
		vCheckEnc(t, strings.Repeat("x", n))
		vCheckEnc(t, Dict{"a": strings.Repeat("\x00", n), strings.Repeat("k", n): "v"})
	}
	l := List{}
	d := Dict{}
	for i := 0; i < 300; i++ {
		vCheckEnc(t, l)
		vCheckEnc(t, d)
		l = append(l, i, fmt.Sprint("s", i))
		d[fmt.Sprintf("k%d", i*7919%1000)] = i
	}
}

func TestVerifEncodeDeep(t *testing.T) {
	for _, n := range []int{1, 2, 10, 100, 1000, 5000} {
		var v, w, b interface{} = "x", int64(1), ""
		for i := 0; i < n; i++ {
			v = List{v}
			w = Dict{"k": w}
			b = List{"a", b}
		}
		vCheckEnc(t, v)
		if n <= 1000 {
			vCheckEnc(t, w)
		}
		vCheckEnc(t, b)
	}
	shared := Dict{"b": "1", "a": "2", "c": List{int64(1)}}
	vCheckEnc(t, List{shared, shared, Dict{"x": shared, "a": shared}})
}

func TestVerifEncodeRandom(t *testing.T) {
	for s := int64(0); s < 3000; s++ {
		r := vrand(s)
		vCheckEnc(t, vVal(r, 1+r.Intn(4), s%3 == 0))
	}
}
