//package-dir: swarm
package swarm

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifHandshake(t *testing.T) {
	r := vrand(18)
	str := func(n int) string {
		b := make([]byte, n)
		r.Read(b)
		if r.Intn(3) == 0 {
			for i := range b {
				b[i] = "abcXYZ\x00\xff"[r.Intn(8)]
			}
		}
		return string(b)
	}
	for it := 0; it < 4000; it++ {
		ih, id := str(20), str(20)
		hs := MakeHandshake(ih, id)
		want := append([]byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"+ih), id...)
		vrun(func() string { return fmt.Sprintf("MakeHandshake(%q,%q)", ih, id) }, func() string {
			if !bytes.Equal(hs, want) {
				return "gives " + vq(hs)
			}
			return ""
		})
		b := append([]byte{}, want...)
		switch r.Intn(8) {
		case 0:
			b = b[:r.Intn(69)]
		case 1:
			b = append(b, str(1+r.Intn(70))...)
		case 2:
			b = []byte(str(r.Intn(200)))
		case 3:
			copy(b[20:28], str(8))
			copy(b[48:], str(20))
		case 4:
			b[20+r.Intn(8)] ^= 1 << uint(r.Intn(8))
		default:
			b[r.Intn(68)] ^= 1 << uint(r.Intn(8))
			if r.Intn(3) == 0 {
				b[28+r.Intn(20)] ^= 0x20
			}
		}
		for i, c := range b {
			if i >= 28 && i < 48 && i%5 == 0 && it%5 == 0 && 'a' <= c && c <= 'z' {
				b[i] -= 32
			}
		}
		ok := len(b) == 68 && b[0] == 19 && string(b[1:20]) == "BitTorrent protocol" && string(b[28:48]) == ih
		vrun(func() string { return fmt.Sprintf("ValidHandshake(%q,%q)", b, ih) }, func() string {
			if ValidHandshake(Handshake(b), ih) != ok {
				return fmt.Sprintf("should be %v", ok)
			}
			if len(b) == 68 {
				h := Handshake(b)
				if h.Pstrlen() != b[0] || !bytes.Equal(h.Pstr(), b[1:20]) || !bytes.Equal(h.Reserved(), b[20:28]) || !bytes.Equal(h.Infohash(), b[28:48]) || !bytes.Equal(h.Id(), b[48:]) {
					return "the fields are wrong"
				}
			}
			return ""
		})
	}
}
