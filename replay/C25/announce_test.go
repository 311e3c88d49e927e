//package-dir: tracker
package tracker

import (
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"gotor/bencode"
	"gotor/torrent"
)

var (
	vGot  *http.Request
	vN    int
	vBody string
)

func vTorrent(dir, announce, name string) (*torrent.Torrent, error) {
	d := bencode.Dict{"announce": announce, "info": bencode.Dict{"name": name, "piece length": int64(16), "pieces": strings.Repeat("h", 20), "length": int64(5)}}
	b, err := bencode.Encode(d)
	if err != nil {
		return nil, err
	}
	p := filepath.Join(dir, "t.torrent")
	if err := os.WriteFile(p, b, 0o600); err != nil {
		return nil, err
	}
	return torrent.FromTorrentFile(p, dir)
}

func TestVerifAnnounce(t *testing.T) {
	r := vrand(25)
	dir := t.TempDir()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	go http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		vGot = q
		vN++
		w.Write([]byte(vBody))
	}))
	defer ln.Close()
	good := "d8:completei1e10:incompletei2e8:intervali3e5:peers6:\x01\x02\x03\x04\x00\x50e"
	bodies := []string{good, good, good, "", "d", "i3e", "de", "d14:failure reason1:xe", strings.Repeat("l", 100)}
	base := "http://" + ln.Addr().String()
	paths := []string{"/announce", "/Announce/AbC", "", "/", "/a%20b/x", "/p?passkey=AbC1", "/announce?left=1&port=2&info_hash=x&peer_id=y&uploaded=z&downloaded=q&compact=0", "/announce?x=a+b%20c&x=2"}
	nums := []uint64{0, 1, 1023, 1024, 1025, 4095, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1234567890123456789}
	num := func() uint64 {
		if r.Intn(2) == 0 {
			return nums[r.Intn(len(nums))]
		}
		return r.Uint64() >> uint(r.Intn(64))
	}
	ids := []string{"-GT0001-abcdefghijkl", "ABCDEFGHIJKLMNOPQRST", "a b&c=d%20e+f/g?h#i;", "\x00\xff\x80 %%&&==++//::12"}
	for c := 0; c < 600; c++ {
		p := paths[r.Intn(len(paths))]
		announce := base + p
		tor, err := vTorrent(dir, announce, fmt.Sprintf("n%d", r.Intn(1000)))
		if err != nil {
			continue
		}
		dn, up, left := num(), num(), num()
		st := NewStats(0, 0, left)
		st.IncDnloaded(dn)
		st.IncUploaded(up)
		id := ids[r.Intn(len(ids))]
		port := uint16(r.Intn(65536))
		vBody = bodies[r.Intn(len(bodies))]
		vrun(func() string {
			return fmt.Sprintf("Get(announce %q, infohash %q, downloaded %d, uploaded %d, left %d, port %d, id %q)", p, tor.Infohash(), dn, up, left, port, id)
		}, func() string {
			n := vN
			resp, err := Get(tor, st, port, id)
			if vN != n+1 {
				return fmt.Sprintf("made %d requests (error %v)", vN-n, err)
			}
			if (err == nil) != (vBody == good) || (err == nil && (resp == nil || len(resp.Peers) != 1)) {
				return fmt.Sprintf("error %v for the reply %q", err, vBody)
			}
			u, _ := url.Parse(announce)
			wp := u.Path
			if wp == "" {
				wp = "/"
			}
			if vGot.Method != "GET" || vGot.URL.Path != wp {
				return fmt.Sprintf("sent %s to %q", vGot.Method, vGot.URL.Path)
			}
			q := vGot.URL.Query()
			for k, v := range map[string]string{"info_hash": tor.Infohash(), "peer_id": id, "port": fmt.Sprint(port), "uploaded": fmt.Sprint(up), "downloaded": fmt.Sprint(dn), "left": fmt.Sprint(left), "compact": "1"} {
				if g := q[k]; len(g) != 1 || g[0] != v {
					return fmt.Sprintf("sent %s = %q, should be %q", k, g, v)
				}
			}
			return ""
		})
	}
	for _, a := range []string{":", "http://[::1", "%zz", "http://a b/", "://x", "http://127.0.0.1:99999999/", "\x7f", "nope", "ftp://x/y", "http://", "/announce", "udp://127.0.0.1:1/announce"} {
		tor, err := vTorrent(dir, a, "n")
		if err != nil {
			continue
		}
		vrun(func() string { return fmt.Sprintf("Get with the announce URL %q", a) }, func() string {
			resp, err := Get(tor, NewStats(1, 2, 3), 4, "id")
			if err == nil {
				return fmt.Sprintf("no error, but %v", resp)
			}
			return ""
		})
	}
}
