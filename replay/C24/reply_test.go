//package-dir: tracker
package tracker

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"testing"

	"gotor/bencode"
)

type vPeer struct {
	id   string
	ip   net.IP
	port uint16
}

// vReply is the independent reading of a decoded reply.
func vReply(d bencode.Dict) (ok bool, st State, ps []vPeer) {
	if _, f := d["failure reason"].(string); f {
		return
	}
	u := func(k string) (uint64, bool) {
		v, ok := d[k].(int64)
		return uint64(v), ok && v >= 0
	}
	var o1, o2, o3 bool
	st.interval, o1 = u("interval")
	st.seeders, o2 = u("complete")
	st.leechers, o3 = u("incomplete")
	if !o1 || !o2 || !o3 {
		return
	}
	if s, c := d["peers"].(string); c {
		if len(s)%6 != 0 {
			return
		}
		for ; len(s) > 0; s = s[6:] {
			ps = append(ps, vPeer{"", net.IP{s[0], s[1], s[2], s[3]}, uint16(s[4])<<8 | uint16(s[5])})
		}
	} else {
		l, c := d["peers"].(bencode.List)
		if !c {
			return
		}
		for _, e := range l {
			pd, c := e.(bencode.Dict)
			if !c {
				return
			}
			ip, o1 := pd["ip"].(string)
			id, o2 := pd["peer id"].(string)
			port, o3 := pd["port"].(int64)
			if !o1 || !o2 || !o3 || port < 0 || port > 65535 || net.ParseIP(ip) == nil {
				return
			}
			ps = append(ps, vPeer{id, net.ParseIP(ip), uint16(port)})
		}
	}
	if s, c := d["warning message"].(string); c {
		st.warning = s
	}
	if m, c := u("min interval"); c {
		st.minInterval = m
	}
	return true, st, ps
}

func vReplyCase(d bencode.Dict) {
	vrun(func() string { return fmt.Sprintf("newResponse(%#v)", d) }, func() string {
		ok, st, ps := vReply(d)
		r, err := newResponse(d)
		if ok != (err == nil) {
			return fmt.Sprintf("error %v, but the reply is valid: %v", err, ok)
		}
		if err != nil {
			return ""
		}
		if r.State.Interval() != st.interval || r.State.Seeders() != st.seeders || r.State.Leechers() != st.leechers || r.State.Warning() != st.warning || r.State.MinInterval() != st.minInterval {
			return fmt.Sprintf("state %+v, should be %+v", *r.State, st)
		}
		if len(r.Peers) != len(ps) {
			return fmt.Sprintf("%d peers, should be %d", len(r.Peers), len(ps))
		}
		for i, p := range ps {
			g := r.Peers[i]
			if g.Id() != p.id || g.Port() != p.port || !g.Ip().Equal(p.ip) || (len(p.ip) == 16 && !bytes.Equal(g.Ip(), p.ip)) {
				return fmt.Sprintf("peer %d is %q %v port %d, should be %q %v port %d", i, g.Id(), g.Ip(), g.Port(), p.id, p.ip, p.port)
			}
			if w := net.JoinHostPort(p.ip.String(), fmt.Sprint(p.port)); g.Addr() != w {
				return fmt.Sprintf("peer %d is at %s, should be %s", i, g.Addr(), w)
			}
		}
		return ""
	})
}

func TestVerifReply(t *testing.T) {
	r := vrand(24)
	ints := []int64{0, 1, 2, 80, 255, 256, 6881, 65534, 65535, 65536, 65537, 131072 + 80, 1 << 31, 1 << 32, 1<<32 + 80, 1<<63 - 1, -1, -65535, -65536, -1 << 63, -1<<63 + 1}
	junk := []interface{}{nil, int64(0), int64(-1), int64(5), "", "x", "aaaaaa", bencode.List{}, bencode.List{int64(1)}, bencode.Dict{}, 7, uint64(7), []byte("aaaaaa"), true}
	ips := []string{"1.2.3.4", "0.0.0.0", "255.255.255.255", "::1", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "", "x", "1.2.3", "1.2.3.4.5", "1.2.3.256", "01.2.3.4", "example.com", " 1.2.3.4", "1.2.3.4 ", "::1%eth0", "1.2.3.4:80", ":::"}
	keys := []string{"failure reason", "interval", "complete", "incomplete", "peers", "warning message", "min interval"}
	pint := func() int64 {
		if r.Intn(2) == 0 {
			return ints[r.Intn(len(ints))]
		}
		return int64(r.Intn(70000))
	}
	for c := 0; c < 60000; c++ {
		bad := []int{3, 20, 1000}[r.Intn(3)]
		good := func(n int64) int64 {
			if n < 0 && r.Intn(bad) > 0 {
				return -(n + 1)
			}
			return n
		}
		d := bencode.Dict{"interval": good(pint()), "complete": good(pint()), "incomplete": good(pint())}
		if r.Intn(2) == 0 {
			n := 6 * r.Intn(8)
			if r.Intn(bad) == 0 {
				n += r.Intn(6)
			}
			if r.Intn(100) == 0 {
				n = 6 * r.Intn(3000)
			}
			b := make([]byte, n)
			r.Read(b)
			if r.Intn(6) == 0 {
				for i := range b {
					b[i] = []byte{0, 1, 255, 10}[b[i]&3]
				}
			}
			d["peers"] = string(b)
		} else {
			l := bencode.List{}
			for i := r.Intn(6); i > 0; i-- {
				p := good(pint())
				if p > 65535 && r.Intn(bad) > 0 {
					p &= 0xffff
				}
				ip := ips[r.Intn(7)]
				if r.Intn(bad) == 0 {
					ip = ips[r.Intn(len(ips))]
				}
				pd := bencode.Dict{"ip": ip, "port": p, "peer id": []string{"", "id", "-GT-aaaaaaaaaaaaaaaa", "\x00\xff"}[r.Intn(4)]}
				if r.Intn(bad) == 0 {
					pd[[]string{"ip", "port", "peer id"}[r.Intn(3)]] = junk[r.Intn(len(junk))]
				}
				if r.Intn(bad*3) == 0 {
					delete(pd, []string{"ip", "port", "peer id"}[r.Intn(3)])
				}
				l = append(l, pd)
				if r.Intn(bad*3) == 0 {
					l = append(l, junk[r.Intn(len(junk))])
				}
			}
			d["peers"] = l
		}
		if r.Intn(3) == 0 {
			d["warning message"] = "w" + strings.Repeat("!", r.Intn(5))
		}
		if r.Intn(3) == 0 {
			d["min interval"] = pint()
		}
		if r.Intn(bad*2) == 0 {
			d[keys[r.Intn(len(keys))]] = junk[r.Intn(len(junk))]
		}
		if r.Intn(bad*2) == 0 {
			delete(d, keys[r.Intn(len(keys))])
		}
		vReplyCase(d)
	}
	vReplyCase(nil)
	vReplyCase(bencode.Dict{})
}
