//package-dir: p2p
package p2p

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"gotor/bf"
)

// m must encode as want and decode back from it with any bytes following
func vround(desc string, m Message, want []byte, r interface{ Read([]byte) (int, error) }) {
	vrun(func() string { return desc }, func() string {
		for k := 0; k < 2; k++ {
			enc := m.Encode()
			if !bytes.Equal(enc, want) {
				return "encodes as " + vq(enc)
			}
		}
		for _, extra := range []int{0, 1, 4, 5, 9, 50} {
			d := make([]byte, len(want)+extra)
			r.Read(d)
			copy(d, want)
			dr, err := Decode(d)
			if err != nil {
				return fmt.Sprintf("does not decode with %d bytes following: %v", extra, err)
			}
			if dr.Read != uint64(len(want)) {
				return fmt.Sprintf("%d bytes consumed of %d", dr.Read, len(want))
			}
			if fmt.Sprintf("%T", dr.Msg) != fmt.Sprintf("%T", m) || dr.Msg.Mtype() != m.Mtype() || dr.Msg.Length() != m.Length() {
				return fmt.Sprintf("decodes as a %T", dr.Msg)
			}
			same := true
			switch a := m.(type) {
			case *MsgHave:
				b := dr.Msg.(*MsgHave)
				same = a.Index() == b.Index()
			case *MsgRequest:
				b := dr.Msg.(*MsgRequest)
				same = a.Index() == b.Index() && a.Begin() == b.Begin() && a.ReqLen() == b.ReqLen()
			case *MsgPiece:
				b := dr.Msg.(*MsgPiece)
				same = a.Index() == b.Index() && a.Begin() == b.Begin() && bytes.Equal(a.Block(), b.Block())
			case *MsgBitfield:
				b := dr.Msg.(*MsgBitfield)
				same = bytes.Equal(a.Bitfield().Data(), b.Bitfield().Data())
			}
			if !same {
				return fmt.Sprintf("decodes to other fields: %+v", dr.Msg)
			}
			if !bytes.Equal(dr.Msg.Encode(), want) {
				return "the decoded message encodes differently"
			}
		}
		return ""
	})
}

func vlay(t byte, fields ...interface{}) []byte {
	var p bytes.Buffer
	for _, f := range fields {
		binary.Write(&p, binary.BigEndian, f)
	}
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, uint32(p.Len()+1))
	b.WriteByte(t)
	b.Write(p.Bytes())
	return b.Bytes()
}

func TestVerifRoundTrip(t *testing.T) {
	r := vrand(5)
	vround("keep-alive", &KeepAliveSingleton, []byte{0, 0, 0, 0}, r)
	vround("choke", NewMsgChoke(), vlay(0), r)
	vround("unchoke", NewMsgUnchoke(), vlay(1), r)
	vround("interested", NewMsgInterested(), vlay(2), r)
	vround("not interested", NewMsgNotInterested(), vlay(3), r)
	vals := []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304, 0xdeadbeef}
	for i := 0; i < 300; i++ {
		v := func() uint32 {
			if r.Intn(2) == 0 {
				return vals[r.Intn(len(vals))]
			}
			return r.Uint32() >> uint(r.Intn(32))
		}
		a, b, c := v(), v(), v()
		vround(fmt.Sprintf("have %d", a), NewMsgHave(a), vlay(4, a), r)
		vround(fmt.Sprintf("request %d %d %d", a, b, c), NewMsgRequest(a, b, c), vlay(6, a, b, c), r)
	}
	for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 9, 100, 246, 247, 248, 255, 256, 257, 16383, 16384, 16385, 65526, 65527, 65528, 70000, 1 << 17, 1 << 20, 1<<24 + 3} {
		for k := 0; k < 4; k++ {
			block := make([]byte, n)
			r.Read(block)
			a, b := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
			vround(fmt.Sprintf("piece %d %d with %d bytes", a, b, n), NewMsgPiece(a, b, block), vlay(7, a, b, block), r)
			if n > 1<<17 {
				break
			}
		}
		if n == 0 {
			continue
		}
		for rem := 0; rem < 8; rem++ {
			data := make([]byte, 5+n)
			r.Read(data)
			bits, err := bf.FromBytes(data, int64(8*n-rem))
			if err != nil {
				continue
			}
			want := vlay(5, append([]byte{}, data[5:]...))
			vround(fmt.Sprintf("bitfield of %d bits", 8*n-rem), NewMsgBitfield(bits), want, r)
			if n > 1<<17 {
				break
			}
		}
	}
}
