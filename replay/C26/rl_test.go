//package-dir: io
package io

import (
	"bytes"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"
)

type vRW struct {
	mu    sync.Mutex
	calls [][]byte
	bufs  [][]byte
	err   error
	short bool
	hook  func()
}

func (v *vRW) Write(p []byte) (int, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.calls = append(v.calls, append([]byte{}, p...))
	if v.hook != nil {
		v.hook()
	}
	if v.short {
		return len(p) / 2, v.err
	}
	return len(p), v.err
}

func (v *vRW) Read(p []byte) (int, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.bufs = append(v.bufs, p)
	for i := range p {
		p[i] = byte(i*7 + 3)
	}
	if v.short {
		return len(p) / 2, v.err
	}
	return len(p), v.err
}

func (v *vRW) n() int {
	v.mu.Lock()
	defer v.mu.Unlock()
	return len(v.calls) + len(v.bufs)
}

func TestVerifRate(t *testing.T) {
	r := vrand(26)
	e1 := errors.New("some error")
	for it := 0; it < 6000; it++ {
		n := []int{0, 1, 2, 3, 17, 1000, 16384, 16385, 40000}[r.Intn(9)]
		data := make([]byte, n)
		r.Read(data)
		was := append([]byte{}, data...)
		limit := []int64{-1, -1, -2, -9000000000, 1, 2, 5, 16, 1000, 20000, 1 << 40, 1<<63 - 1}[r.Intn(12)]
		rl := NewRateLimitIO()
		used := int64(0)
		if limit > 0 {
			used = []int64{0, limit / 2, limit - 1}[r.Intn(3)]
		} else {
			used = int64(r.Intn(3) * 1000)
		}
		dev := &vRW{short: r.Intn(3) == 0}
		if r.Intn(2) == 0 {
			dev.err = e1
		}
		rep := 1 + r.Intn(2)
		desc := func() string {
			return fmt.Sprintf("limit %v, %v used, %v bytes, %v times, error %v, short %v", limit, used, n, rep, dev.err, dev.short)
		}
		vrun(func() string { return "Write: " + desc() }, func() string {
			rl.SetWriteRate(limit)
			rl.wUsed = used
			for k := 1; k <= rep; k++ {
				if k > 1 {
					rl.wUsed = used
				}
				e := rl.Write(dev, data)
				if e != dev.err {
					return fmt.Sprintf("returns %v", e)
				}
				if len(dev.calls) != k || !bytes.Equal(dev.calls[k-1], was) || !bytes.Equal(data, was) {
					return fmt.Sprintf("the writer got %v calls of sizes %v", len(dev.calls), func() (s []int) {
						for _, c := range dev.calls {
							s = append(s, len(c))
						}
						return
					}())
				}
				if rl.wUsed != used+int64(n) {
					return fmt.Sprintf("counts %v", rl.wUsed)
				}
			}
			return ""
		})
		rl = NewRateLimitIO()
		vrun(func() string { return "Read: " + desc() }, func() string {
			rl.SetReadRate(limit)
			rl.rUsed = used
			for k := 1; k <= rep; k++ {
				if k > 1 {
					rl.rUsed = used
				}
				e := rl.Read(dev, data)
				if e != dev.err {
					return fmt.Sprintf("returns %v", e)
				}
				if len(dev.bufs) != k || len(dev.bufs[k-1]) != n || (n > 0 && &dev.bufs[k-1][0] != &data[0]) {
					return fmt.Sprintf("%v reads, or not into the whole buffer of the caller", len(dev.bufs))
				}
				for i := range data {
					if data[i] != byte(i*7+3) {
						return "the bytes read are not delivered"
					}
				}
				if rl.rUsed != used+int64(n) {
					return fmt.Sprintf("counts %v", rl.rUsed)
				}
			}
			return ""
		})
	}
}

// at or above the limit nothing may start before the counter is reset
func TestVerifRateBlocks(t *testing.T) {
	for _, limit := range []int64{0, 1, 5, 1000} {
		for _, over := range []int64{0, 1, 100000} {
			for _, n := range []int{0, 1, 100, 20000} {
				for kind := 0; kind < 2; kind++ {
					rl := NewRateLimitIO()
					rl.SetWriteRate(limit)
					rl.SetReadRate(limit)
					rl.wUsed, rl.rUsed = limit+over, limit+over
					dev := &vRW{}
					go func() {
						if kind == 0 {
							rl.Write(dev, make([]byte, n))
						} else {
							rl.Read(dev, make([]byte, n))
						}
					}()
					vrun(func() string {
						return fmt.Sprintf("%v of %v bytes, limit %v, %v used", []string{"Write", "Read"}[kind], n, limit, limit+over)
					}, func() string {
						time.Sleep(3 * time.Millisecond)
						if dev.n() != 0 {
							return "starts although the limit is reached"
						}
						return ""
					})
				}
			}
		}
	}
}
