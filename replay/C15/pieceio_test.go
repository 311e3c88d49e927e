//package-dir: torrent/fileio
package fileio

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/utils"
)

func vPieceIO(t *testing.T, r interface{ Intn(int) int }, lens []int64, P int64, badLen bool) {
	total := int64(0)
	for _, l := range lens {
		total += l
	}
	want := make([]byte, total) // the torrent's data
	disk := make([]byte, total) // what is on disk first
	for i := range want {
		want[i], disk[i] = byte(r.Intn(256)), byte(r.Intn(256))
	}
	n := (total + P - 1) / P
	piece := func(b []byte, p int64) []byte {
		if p == n-1 {
			return b[p*P:]
		}
		return b[p*P : (p+1)*P]
	}
	order := make([]int64, n)
	for i := range order {
		order[i] = int64(i)
		j := r.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	flip := r.Intn(20)
	desc := func() string {
		return fmt.Sprintf("file lengths %v, piece length %d, pieces in order %v", lens, P, order)
	}
	vrun(desc, func() string {
		dir := t.TempDir()
		hashes := ""
		for p := int64(0); p < n; p++ {
			d := piece(want, p)
			if badLen {
				// a hash of data of another length
				d = append(append([]byte{}, d...), 'x')
			}
			hashes += utils.SHA1(d)
		}
		es := []filesd.EntryBase{}
		pos := int64(0)
		for i, l := range lens {
			e := filesd.MakeFileEntry(fmt.Sprintf("f%d", i), l)
			e.SetLocalPath(filepath.Join(dir, e.TorPath()))
			es = append(es, e)
			if err := os.WriteFile(e.LocalPath(), disk[pos:pos+l], 0o644); err != nil {
				return ""
			}
			pos += l
		}
		ti, err := info.NewTorInfo("t", P, hashes, es)
		if err != nil {
			return fmt.Sprintf("NewTorInfo fails: %v", err)
		}
		fio := NewFileIO(ti)
		if err := fio.OCATAll(ti.Files()); err != nil {
			return fmt.Sprintf("OCATAll fails: %v", err)
		}
		defer fio.CloseAll()
		cur := append([]byte{}, disk...)
		check := func(after string) string {
			pos := int64(0)
			for i := range es {
				b, err := os.ReadFile(es[i].LocalPath())
				if err != nil {
					return fmt.Sprintf("after %s: %v", after, err)
				}
				if !bytes.Equal(b, cur[pos:pos+lens[i]]) {
					return fmt.Sprintf("after %s file %d holds %s, should be %s", after, i, vq(b), vq(cur[pos:pos+lens[i]]))
				}
				pos += lens[i]
			}
			buf := make([]byte, P)
			for p := int64(0); p < n; p++ {
				k, err := fio.ReadPiece(p, buf)
				if err != nil || !bytes.Equal(buf[:k], piece(cur, p)) {
					return fmt.Sprintf("after %s ReadPiece(%d) gives %s, %v, should be %s", after, p, vq(buf[:k]), err, vq(piece(cur, p)))
				}
			}
			return ""
		}
		for _, p := range order {
			d := append([]byte{}, piece(want, p)...)
			if badLen {
				d = append(d, 'x')
				if _, err := fio.WritePiece(p, d); err == nil {
					return fmt.Sprintf("WritePiece(%d) with %d bytes does not fail", p, len(d))
				}
				if m := check(fmt.Sprintf("refusing piece %d", p)); m != "" {
					return m
				}
				continue
			}
			// data that does not match
			w := append([]byte{}, d...)
			w[len(w)-1] ^= 1
			if _, err := fio.WritePiece(p, w); err == nil {
				return fmt.Sprintf("WritePiece(%d) accepts data that does not match the hash", p)
			}
			if _, err := fio.WritePiece(p, d[:len(d)-1]); err == nil {
				return fmt.Sprintf("WritePiece(%d) accepts data that is too short", p)
			}
			if m := check(fmt.Sprintf("refusing piece %d", p)); m != "" {
				return m
			}
			k, err := fio.WritePiece(p, d)
			if err != nil || k != int64(len(d)) {
				return fmt.Sprintf("WritePiece(%d) gives %d, %v", p, k, err)
			}
			copy(piece(cur, p), d)
			if m := check(fmt.Sprintf("writing piece %d", p)); m != "" {
				return m
			}
		}
		for _, p := range []int64{-1, n, n + 1, -n, 1 << 40, -1 << 63, 1<<63 - 1} {
			if p >= 0 && p < n {
				continue
			}
			if _, err := fio.ReadPiece(p, make([]byte, P)); err == nil {
				return fmt.Sprintf("ReadPiece(%d) does not fail", p)
			}
			if _, err := fio.WritePiece(p, want); err == nil {
				return fmt.Sprintf("WritePiece(%d) does not fail", p)
			}
		}
		if badLen || n == 0 {
			return ""
		}
		// a hash that differs in one byte is not the data's
		hb := []byte(hashes)
		hb[flip] ^= 0x10
		if t2, err := info.NewTorInfo("t", P, string(hb), es); err == nil {
			f2 := NewFileIO(t2)
			f2.lfps = fio.lfps
			if _, err := f2.WritePiece(0, piece(want, 0)); err == nil {
				return fmt.Sprintf("WritePiece(0) accepts data although byte %d of the hash differs", flip)
			}
		}
		// a file that became shorter
		for i := len(lens) - 1; i >= 0; i-- {
			if lens[i] > 0 {
				if os.Truncate(es[i].LocalPath(), lens[i]-1) != nil {
					return ""
				}
				e := int64(0)
				for _, l := range lens[:i+1] {
					e += l
				}
				p := (e - 1) / P
				if k, err := fio.ReadPiece(p, make([]byte, P)); err == nil {
					return fmt.Sprintf("ReadPiece(%d) gives %d bytes and no error although file %d is too short", p, k, i)
				}
				break
			}
		}
		return ""
	})
}

func TestVerifPieceIO(t *testing.T) {
	r := vrand(15)
	for _, c := range []struct {
		l []int64
		p int64
	}{{[]int64{5}, 2}, {[]int64{4, 1, 7}, 3}, {[]int64{3, 0, 5}, 4}, {[]int64{0, 3}, 2}, {[]int64{1, 1, 1, 1}, 4}, {[]int64{2, 0, 0, 2}, 3}, {[]int64{70000, 3}, 65536}} {
		vPieceIO(t, r, c.l, c.p, false)
		vPieceIO(t, r, c.l, c.p, true)
	}
	for i := 0; i < 300; i++ {
		var l []int64
		for j := 1 + r.Intn(6); j > 0; j-- {
			l = append(l, int64(r.Intn(12)*r.Intn(3)))
		}
		vPieceIO(t, r, l, int64(1+r.Intn(14)), i%10 == 0)
	}
}
