//package-dir: swarm
package swarm

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"gotor/p2p"
	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
)

func vReqCase(r *rand.Rand, P, total int64) {
	vrun(func() string { return fmt.Sprintf("piece length %d, total length %d", P, total) }, func() string {
		n := (total + P - 1) / P
		ti, err := info.NewTorInfo("t", P, strings.Repeat("abcdefghijklmnopqrst", int(n)), []filesd.EntryBase{filesd.MakeFileEntry("t", total)})
		if err != nil {
			return fmt.Sprintf("NewTorInfo: %v", err)
		}
		tor, err := torrent.NewTorrent(ti, "http://x/")
		if err != nil {
			return fmt.Sprintf("NewTorrent: %v", err)
		}
		ph := &PeerHandler{swarm: &Swarm{Tor: tor}}
		idx := []int64{0, 1, n / 2, n - 2, n - 1}
		if P < 100 && n > 9 {
			for i := int64(0); i < n; i++ {
				idx = append(idx, i)
			}
		} else {
			for k := 0; k < 20; k++ {
				idx = append(idx, r.Int63n(n), n-1-int64(1)<<uint(k))
			}
		}
		for _, i := range idx {
			if i < 0 || i >= n {
				continue
			}
			l := P
			if i == n-1 {
				l = total - (n-1)*P
			}
			ch := make(chan []*p2p.MsgRequest, 1)
			go func() { ch <- ph.createReqMessages(uint32(i)) }()
			var ms []*p2p.MsgRequest
			select {
			case ms = <-ch:
			case <-time.After(20 * time.Second):
				return fmt.Sprintf("createReqMessages(%d) does not return", i)
			}
			pos := int64(0)
			for k, m := range ms {
				if int64(m.Index()) != i || int64(m.Begin()) != pos || m.ReqLen() < 1 || m.ReqLen() > 16384 {
					return fmt.Sprintf("request %d of piece %d (%d bytes) is index %d, begin %d, length %d; expected begin %d", k, i, l, m.Index(), m.Begin(), m.ReqLen(), pos)
				}
				pos += int64(m.ReqLen())
			}
			if pos != l {
				return fmt.Sprintf("the requests of piece %d cover %d bytes of %d", i, pos, l)
			}
		}
		return ""
	})
}

func TestVerifRequests(t *testing.T) {
	r := vrand(21)
	for _, P := range []int64{1, 2, 3, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65536, 262144, 1 << 20, 5 << 20, 1<<24 + 1, 1 << 25, 40000000} {
		for _, last := range []int64{1, 2, 16383, 16384, 16385, 32768, 49151, P - 1, P, P / 2, 1<<24 + 3} {
			if last < 1 || last > P {
				continue
			}
			for _, n := range []int64{1, 2, 3, 9} {
				vReqCase(r, P, (n-1)*P+last)
			}
		}
	}
	for it := 0; it < 300; it++ {
		P := 1 + r.Int63n(1<<uint(1+r.Intn(22)))
		vReqCase(r, P, r.Int63n(5*P)+1)
	}
	for it := 0; it < 10; it++ {
		P := int64(16384)<<uint(r.Intn(8)) + int64(r.Intn(3)-1)
		vReqCase(r, P, r.Int63n(300*P)+1)
	}
	vReqCase(r, 10, 7003)
	vReqCase(r, 3, 3*70000-1)
	// piece lengths that need all 32 bits
	vReqCase(r, 1<<31+5, 3<<31)
	vReqCase(r, 1<<32-1, 1<<33)
}
