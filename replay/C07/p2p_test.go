//package-dir: p2p
package p2p

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

func vmsg(b *bytes.Buffer, t byte, payload []byte) {
	binary.Write(b, binary.BigEndian, uint32(len(payload)+1))
	b.WriteByte(t)
	b.Write(payload)
}

func TestVerifDecodeAll(t *testing.T) {
	r := vrand(7)
	for it := 0; it < 4000; it++ {
		var b bytes.Buffer
		good := true
		n := r.Intn(20)
		if it%400 == 0 {
			n = r.Intn(5000)
		}
		for k := 0; k < n; k++ {
			c := r.Intn(10)
			if c == 9 && (n > 20 || r.Intn(4) > 0) {
				c = r.Intn(9)
			}
			switch c {
			case 0, 1, 2, 3:
				vmsg(&b, byte(c), nil)
			case 4, 6:
				p := make([]byte, 4+8*(c/6))
				r.Read(p)
				vmsg(&b, byte(c), p)
			case 5, 7:
				p := make([]byte, 1+7*(c/7)+r.Intn(40))
				if r.Intn(20) == 0 {
					p = make([]byte, 16384+8)
				}
				r.Read(p)
				vmsg(&b, byte(c), p)
			case 8:
				b.Write([]byte{0, 0, 0, 0})
			default:
				p := make([]byte, r.Intn(20))
				r.Read(p)
				vmsg(&b, byte(r.Intn(12)), p)
				good = false
			}
		}
		if r.Intn(3) == 0 {
			p := make([]byte, r.Intn(20))
			r.Read(p)
			b.Write(p)
			good = false
		}
		buf := b.Bytes()
		orig := append([]byte{}, buf...)
		vrun(func() string { return "DecodeAll(" + vq(orig) + ")" }, func() string {
			// one message at each successive position
			type one struct {
				at, size uint64
			}
			var want []one
			sum := uint64(0)
			for p := uint64(0); p < uint64(len(buf)); {
				dr, err := Decode(append([]byte{}, orig[p:]...))
				if dr.Read == 0 {
					return "Decode consumes nothing"
				}
				if err == nil {
					want = append(want, one{p, dr.Read})
					sum += dr.Read
				}
				p += dr.Read
			}
			if good && (sum != uint64(len(buf)) || len(want) != n) {
				return fmt.Sprintf("%d messages decode one by one, %d bytes", len(want), sum)
			}
			dar := DecodeAll(buf)
			if len(dar.Msgs) != len(want) {
				return fmt.Sprintf("%d messages, want %d", len(dar.Msgs), len(want))
			}
			if dar.Read != sum || dar.Read > uint64(len(buf)) {
				return fmt.Sprintf("Read=%d, the messages are %d bytes", dar.Read, sum)
			}
			for k := 0; k < 2; k++ {
				for i, m := range dar.Msgs {
					w := orig[want[i].at : want[i].at+want[i].size]
					if m == nil {
						return fmt.Sprintf("message %d is nil", i)
					}
					bm, isbf := m.(*MsgBitfield)
					if k == 1 && !isbf {
						continue
					}
					if isbf && !bytes.Equal(bm.Bitfield().Data(), w[5:]) {
						return fmt.Sprintf("bitfield message %d wrong (buffer overwritten: %v)", i, k == 1)
					}
					if !bytes.Equal(m.Encode(), w) {
						return fmt.Sprintf("message %d encodes as %s (buffer overwritten: %v)", i, vq(m.Encode()), k == 1)
					}
				}
				for i := range buf {
					buf[i] ^= 0xa5
				}
			}
			return ""
		})
	}
}
