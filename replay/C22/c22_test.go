//package-dir: swarm
package swarm

import (
	"bytes"
	"encoding/binary"
	"fmt"
	stdio "io"
	"log"
	"net"
	"os"
	"path/filepath"
	"testing"

	"gotor/bf"
	"gotor/io"
	"gotor/p2p"
	"gotor/peer"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
)

type vconn struct {
	net.Conn
	got []byte
	n   int
}

func (c *vconn) Write(b []byte) (int, error) {
	c.n++
	c.got = append(c.got, b...)
	return len(b), nil
}

func TestVerifServe(t *testing.T) {
	log.SetOutput(stdio.Discard)
	r := vrand(22)
	for it := 0; it < 150; it++ {
		P := int64(1 + r.Intn(40))
		if it%10 == 9 {
			P = int64(16384 + r.Intn(40000))
		}
		nf := 1 + r.Intn(3)
		lens := make([]int64, nf)
		total := int64(0)
		for i := range lens {
			lens[i] = 1 + r.Int63n(3*P)
			total += lens[i]
		}
		data := make([]byte, total)
		for i := range data {
			data[i] = byte(r.Intn(256))
		}
		n := (total + P - 1) / P
		have := bf.NewBitfield(n)
		all := r.Intn(3) == 0
		for p := int64(0); p < n; p++ {
			have.Set(p, all || r.Intn(2) == 0)
		}
		dir := t.TempDir()
		es := []filesd.EntryBase{}
		pos := int64(0)
		for i, l := range lens {
			e := filesd.MakeFileEntry(fmt.Sprintf("f%d", i), l)
			e.SetLocalPath(filepath.Join(dir, e.TorPath()))
			es = append(es, e)
			if os.WriteFile(e.LocalPath(), data[pos:pos+l], 0o644) != nil {
				return
			}
			pos += l
		}
		ti, err := info.NewTorInfo("t", P, string(make([]byte, 20*n)), es)
		if err != nil {
			return
		}
		tor, err := torrent.NewTorrent(ti, "http://a/")
		if err != nil {
			return
		}
		fio := fileio.NewFileIO(ti)
		if fio.OCATAll(ti.Files()) != nil {
			return
		}
		s := &Swarm{Tor: tor, Fileio: fio, Bf: have, RLIO: io.NewRateLimitIO()}
		conn := &vconn{}
		ph := NewPeerHandler(peer.MakePeer("x", net.IPv4(127, 0, 0, 1), 1), s, conn)
		for k := 0; k < 60; k++ {
			idx := uint32(r.Int63n(n + 1))
			if r.Intn(6) == 0 {
				idx = []uint32{uint32(n), uint32(n) + 7, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(5)]
			}
			pl := P
			if int64(idx) == n-1 {
				pl = total - (n-1)*P
			}
			begin := uint32(r.Int63n(pl + 1))
			length := uint32(r.Int63n(pl - int64(begin) + 1))
			switch r.Intn(8) {
			case 0:
				length++
			case 1:
				length = uint32(P - int64(begin)%P)
			case 2:
				// wraps around to an offset within the piece
				begin = 1<<32 - 1 - uint32(r.Intn(3))
				length = uint32(r.Intn(6))
			case 3:
				length = -begin + uint32(r.Int63n(pl))
			case 4:
				begin, length = uint32(r.Int63n(2*P)), uint32(r.Int63n(2*P))
			case 5:
				begin, length = 0, uint32(pl)
			}
			desc := func() string {
				return fmt.Sprintf("files %v, piece length %d, have %v, request index %d begin %d length %d", lens, P, have.Data(), idx, begin, length)
			}
			vrun(desc, func() string {
				conn.got, conn.n = nil, 0
				err := ph.handleMessage(p2p.NewMsgRequest(idx, begin, length).Encode())
				ok := int64(idx) < n && have.Get(int64(idx)) && int64(begin)+int64(length) <= pl
				if !ok {
					if len(conn.got) != 0 {
						return fmt.Sprintf("sent %d bytes for a request that must be refused", len(conn.got))
					}
					return ""
				}
				if err != nil {
					return fmt.Sprintf("error %v", err)
				}
				b := int64(idx)*P + int64(begin)
				want := make([]byte, 13)
				binary.BigEndian.PutUint32(want, 9+length)
				want[4] = 7
				binary.BigEndian.PutUint32(want[5:], idx)
				binary.BigEndian.PutUint32(want[9:], begin)
				want = append(want, data[b:b+int64(length)]...)
				if !bytes.Equal(conn.got, want) {
					return fmt.Sprintf("sent %d bytes, want %d (or they differ)", len(conn.got), len(want))
				}
				return ""
			})
		}
		fio.CloseAll()
	}
}
