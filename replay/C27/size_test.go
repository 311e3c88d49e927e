//package-dir: utils
package utils

import (
	"fmt"
	"math/big"
	"testing"
)

// the documented meaning of a size option; ok=false for an error
func vSize(s string) (int64, bool) {
	i, neg := 0, false
	if i < len(s) && s[i] == '-' {
		neg = true
		i++
	}
	j := i
	for j < len(s) && s[j] >= '0' && s[j] <= '9' {
		j++
	}
	if j == i {
		return 0, false
	}
	v, _ := new(big.Int).SetString(s[i:j], 10)
	switch s[j:] {
	case "", "b", "B":
	case "k", "K":
		v.Lsh(v, 10)
	case "m", "M":
		v.Lsh(v, 20)
	case "g", "G":
		v.Lsh(v, 30)
	default:
		return 0, false
	}
	if neg {
		v.Neg(v)
	}
	if !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

func vSizeCase(s string) {
	vrun(func() string { return fmt.Sprintf("parseSizeUnits(%q)", s) }, func() string {
		got, e := parseSizeUnits(s)
		want, ok := vSize(s)
		if ok != (e == nil) {
			return fmt.Sprintf("gives (%v, %v), should be (%v, ok=%v)", got, e, want, ok)
		}
		if ok && got != want {
			return fmt.Sprintf("gives %v, should be %v", got, want)
		}
		return ""
	})
}

func vSizeStrings() []string {
	r := vrand(27)
	nums := []string{"", "0", "1", "-1", "-0", "-", "+1", "--1", "007", "-007", "10", "999", "1000", "1024", "-1024", "9223372036854775807", "9223372036854775808",
		"-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
		"9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740992", "-9007199254740993", "8796093022207", "8796093022208", "-8796093022208", "-8796093022209",
		"8589934591", "8589934592", "-8589934592", "-8589934593", "17179869184", "17592186044416", "18014398509481984", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649",
		"4194303", "4194304", "2097151", "2097152", "2048", "3", "00000000000000000000000000012", "1_000", "0x10", "1.5", "1e3", " 1", "\u0661"}
	sufs := []string{"", "b", "B", "k", "K", "m", "M", "g", "G", "t", "T", "KB", "kb", "Mb", "GG", "BB", " ", "k ", "-", "5k5", "\u212a", "\u0131", "\u017f", "\x00", "\xff", "p", "e", "5", "c", "a", "h", "L", "N", "F", "J"}
	var all []string
	for _, n := range nums {
		for _, s := range sufs {
			all = append(all, n+s)
		}
	}
	for c := 0; c < 256; c++ {
		all = append(all, string([]byte{byte(c)}), "7"+string([]byte{byte(c)}), string([]byte{byte(c)})+"7", "7"+string([]byte{byte(c)})+"7", "-7"+string([]byte{byte(c)}), "7"+string(rune(c))+"K")
	}
	for i := 0; i < 30000; i++ {
		b := make([]byte, 0, 24)
		if r.Intn(3) == 0 {
			b = append(b, '-')
		}
		n := r.Intn(21)
		for k := 0; k < n; k++ {
			b = append(b, byte('0'+r.Intn(10)))
		}
		if r.Intn(2) == 0 {
			b = append(b, "bBkKmMgG"[r.Intn(8)])
		}
		if r.Intn(12) == 0 && len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		all = append(all, string(b))
	}
	return all
}

func TestVerifSize(t *testing.T) {
	for _, s := range vSizeStrings() {
		vSizeCase(s)
	}
}

func TestVerifValidate(t *testing.T) {
	all := vSizeStrings()
	r := vrand(28)
	str := func(s string) *string { return &s }
	for i := 0; i < 6000; i++ {
		u, d := all[r.Intn(len(all))], all[r.Intn(len(all))]
		if r.Intn(2) == 0 {
			u = fmt.Sprintf("%d%c", r.Intn(2000)-1000, "bkmgBKMG"[r.Intn(8)])
		}
		if r.Intn(2) == 0 {
			d = fmt.Sprintf("%d%c", r.Intn(2000)-1000, "bkmgBKMG"[r.Intn(8)])
		}
		port := uint(60666)
		o := &Opts{input: str("x.torrent"), wd: str("w"), port: &port, cmd: str(StartSwarm), uplimStr: str(u), dnlimStr: str(d)}
		opts = o
		vrun(func() string { return fmt.Sprintf("Validate with -u %q -d %q", u, d) }, func() string {
			e := o.Validate()
			wu, ok1 := vSize(u)
			wd, ok2 := vSize(d)
			if (e == nil) != (ok1 && ok2) {
				return fmt.Sprintf("error %v", e)
			}
			if e == nil && (o.UpLimit() != wu || o.DnLimit() != wd) {
				return fmt.Sprintf("limits %v and %v, should be %v and %v", o.UpLimit(), o.DnLimit(), wu, wd)
			}
			return ""
		})
	}
}
