//package-dir: bencode
package bencode

import (
	"fmt"
	"reflect"
	"testing"
)

func vDictCase(d Dict, key string) {
	v, has := d[key]
	vrun(func() string { return fmt.Sprintf("Dict %#v, key %q", d, key) }, func() string {
		s, e := d.GetString(key)
		if w, ok := v.(string); (has && ok) != (e == nil) || (e == nil && s != w) {
			return fmt.Sprintf("GetString gives %q, %v", s, e)
		}
		i, e := d.GetInt(key)
		w, ok := v.(int64)
		if (has && ok) != (e == nil) || (e == nil && i != w) {
			return fmt.Sprintf("GetInt gives %d, %v", i, e)
		}
		u, e := d.GetUint(key)
		if (has && ok && w >= 0) != (e == nil) || (e == nil && (u != uint64(w) || w < 0)) {
			return fmt.Sprintf("GetUint gives %d, %v", u, e)
		}
		dd, e := d.GetDict(key)
		if w, ok := v.(Dict); (has && ok) != (e == nil) || (e == nil && (!reflect.DeepEqual(dd, w) || len(dd) != len(w))) {
			return fmt.Sprintf("GetDict gives %#v, %v", dd, e)
		}
		l, e := d.GetList(key)
		if w, ok := v.(List); (has && ok) != (e == nil) || (e == nil && (len(l) != len(w) || (len(w) > 0 && !reflect.DeepEqual(l, w)))) {
			return fmt.Sprintf("GetList gives %#v, %v", l, e)
		}
		return ""
	})
}

func TestVerifDict(t *testing.T) {
	r := vrand(4)
	vals := []interface{}{nil, "", "x", "-1", "12", int64(0), int64(1), int64(-1), int64(-1 << 63), int64(1<<63 - 1), int64(1 << 32), int64(-1 << 31), Dict{}, Dict{"a": int64(1)}, Dict(nil), List{}, List(nil), List{"x", int64(2)}, List{"x", nil}, List{nil}, List{"", "", int64(0)}, List{Dict{}, List{}, "a", "b", "c", int64(7), "e", "f"}, Dict{"": nil}, Dict{"a": nil, "b": List{nil}},
		7, uint64(8), uint32(1), []interface{}{"x"}, map[string]interface{}{"a": "b"}, []byte("abc"), 1.5, true}
	keys := []string{"", "a", "b", "A", "a\x00", "length", "Length", "piece length", "pieces", "z"}
	for _, v := range vals {
		for _, k := range keys {
			for _, k2 := range keys {
				vDictCase(Dict{k: v}, k2)
				vDictCase(Dict{k: v, "other": int64(-5), "b": "s"}, k2)
			}
		}
	}
	for _, k := range keys {
		vDictCase(nil, k)
		vDictCase(Dict{}, k)
	}
	for it := 0; it < 3000; it++ {
		d := Dict{}
		for n := r.Intn(5); n > 0; n-- {
			d[keys[r.Intn(len(keys))]] = vals[r.Intn(len(vals))]
			d[fmt.Sprintf("k%d", r.Intn(20))] = int64(r.Uint64() >> uint(r.Intn(64)))
		}
		vDictCase(d, keys[r.Intn(len(keys))])
		vDictCase(d, fmt.Sprintf("k%d", r.Intn(20)))
	}
}
