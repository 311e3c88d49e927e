//package-dir: peer
package peer

import (
	"bytes"
	"fmt"
	"net"
	"strconv"
	"testing"
)

func TestVerifPeer(t *testing.T) {
	r := vrand(29)
	ips := []net.IP{net.IPv4(1, 2, 3, 4), net.IPv4(1, 2, 3, 4).To4(), net.ParseIP("::1"), net.ParseIP("::"), net.ParseIP("2001:db8::7"), net.ParseIP("fe80::1:2:3:4"), net.ParseIP("::ffff:10.0.0.1"), net.IPv4zero, net.IPv4bcast}
	for i := 0; i < 300; i++ {
		b := make([]byte, []int{4, 16}[r.Intn(2)])
		r.Read(b)
		for k := range b {
			if r.Intn(2) == 0 {
				b[k] = 0
			}
		}
		ips = append(ips, b)
	}
	ports := []uint16{0, 1, 9, 80, 6881, 9999, 10000, 32767, 32768, 60666, 65535}
	for i := 0; i < 60; i++ {
		ports = append(ports, uint16(r.Intn(65536)))
	}
	for _, ip := range ips {
		for _, port := range ports {
			idb := make([]byte, r.Intn(22))
			r.Read(idb)
			id := string(idb)
			was := append(net.IP{}, ip...)
			vrun(func() string { return fmt.Sprintf("MakePeer(%q, %v, %v)", id, was, port) }, func() string {
				p := MakePeer(id, ip, port)
				if p.Id() != id || !bytes.Equal(p.Ip(), was) || p.Port() != port {
					return fmt.Sprintf("reports %q %v %v", p.Id(), p.Ip(), p.Port())
				}
				h, ps, e := net.SplitHostPort(p.Addr())
				if e != nil {
					return fmt.Sprintf("address %q: %v", p.Addr(), e)
				}
				n, e := strconv.ParseUint(ps, 10, 16)
				if e != nil || uint16(n) != port || !net.ParseIP(h).Equal(was) || net.ParseIP(h) == nil {
					return fmt.Sprintf("address %q is not that of the peer", p.Addr())
				}
				return ""
			})
		}
	}
}
