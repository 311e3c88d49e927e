//package-dir: p2p
package p2p

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

// reference: is a complete well-formed message at the start of d, and its size
func vref(d []byte) (ok bool, size uint64) {
	if len(d) < 4 {
		return false, 0
	}
	n := uint64(binary.BigEndian.Uint32(d))
	if n == 0 {
		return true, 4
	}
	if uint64(len(d)) < 4+n {
		return false, 0
	}
	switch t := d[4]; {
	case t <= 3:
		ok = n == 1
	case t == 4:
		ok = n == 5
	case t == 5:
		ok = n >= 2
	case t == 6:
		ok = n == 13
	case t == 7:
		ok = n >= 9
	}
	return ok, 4 + n
}

// the message m is the one encoded at the start of d
func vsame(m Message, d []byte) string {
	n := binary.BigEndian.Uint32(d)
	t := TypeKeepAlive
	if n > 0 {
		t = d[4]
	}
	if m == nil {
		return "nil message"
	}
	if m.Mtype() != t || m.Length() != n {
		return fmt.Sprintf("type %d length %d", m.Mtype(), m.Length())
	}
	u := func(i int) uint32 { return binary.BigEndian.Uint32(d[i:]) }
	good := false
	switch m := m.(type) {
	case *MsgKeepAlive:
		good = n == 0
	case *MsgChoke:
		good = t == 0
	case *MsgUnchoke:
		good = t == 1
	case *MsgInterested:
		good = t == 2
	case *MsgNotInterested:
		good = t == 3
	case *MsgHave:
		good = t == 4 && m.Index() == u(5)
	case *MsgBitfield:
		good = t == 5 && bytes.Equal(m.Bitfield().Data(), d[5:4+n]) && m.Bitfield().Nbits() == 8*int64(n-1)
	case *MsgRequest:
		good = t == 6 && m.Index() == u(5) && m.Begin() == u(9) && m.ReqLen() == u(13)
	case *MsgPiece:
		good = t == 7 && m.Index() == u(5) && m.Begin() == u(9) && bytes.Equal(m.Block(), d[13:4+n])
	}
	if !good {
		return fmt.Sprintf("%T with the wrong fields", m)
	}
	return ""
}

func vbuffers(f func(d []byte)) {
	r := vrand(6)
	lens := []uint32{0, 1, 2, 3, 4, 5, 8, 9, 12, 13, 14, 0xffffffff, 0xfffffffe, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0x7fffffff, 0x80000000, 0x01000000}
	for n := 0; n < 24; n++ {
		for _, l := range append(lens, uint32(n), uint32(n-4), uint32(n-5), uint32(n-3)) {
			for _, t := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 254, 255} {
				d := make([]byte, n)
				r.Read(d)
				var h [5]byte
				binary.BigEndian.PutUint32(h[:], l)
				h[4] = t
				copy(d, h[:])
				f(d)
			}
		}
	}
	for it := 0; it < 3000; it++ {
		n := r.Intn(600)
		if it%100 == 0 {
			n = 60000 + r.Intn(20000)
		}
		d := make([]byte, n)
		r.Read(d)
		if n >= 5 {
			binary.BigEndian.PutUint32(d, uint32(r.Intn(n+2)))
			if it%3 == 0 {
				binary.BigEndian.PutUint32(d, uint32(n-4))
			}
			d[4] = byte(r.Intn(10))
			if it%2 == 0 {
				d[4] = 5 + 2*byte(it/2%2)
			}
		}
		f(d)
	}
}

func TestVerifDecode(t *testing.T) {
	vbuffers(func(d []byte) {
		orig := append([]byte{}, d...)
		vrun(func() string { return "Decode(" + vq(orig) + ")" }, func() string {
			dr, err := Decode(d)
			if !bytes.Equal(d, orig) {
				return "the buffer was changed"
			}
			ok, size := vref(d)
			if ok != (err == nil) {
				return fmt.Sprintf("err=%v, well-formed=%v", err, ok)
			}
			if len(d) > 0 && dr.Read < 1 {
				return "consumes nothing"
			}
			if !ok {
				return ""
			}
			if dr.Read != size {
				return fmt.Sprintf("consumed %d", dr.Read)
			}
			return vsame(dr.Msg, d)
		})
	})
}

func TestVerifDecodeAllEnds(t *testing.T) {
	vbuffers(func(d []byte) {
		orig := append([]byte{}, d...)
		vrun(func() string { return "DecodeAll(" + vq(orig) + ")" }, func() string {
			DecodeAll(d)
			if !bytes.Equal(d, orig) {
				return "the buffer was changed"
			}
			return ""
		})
	})
}
