//package-dir: swarm
package swarm

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"gotor/bf"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/utils"
)

func TestVerifValidate(t *testing.T) {
	r := vrand(17)
	for it := 0; it < 600; it++ {
		nf := 1 + r.Intn(4)
		P := int64(1 + r.Intn(40))
		lens := make([]int64, nf)
		total := int64(0)
		for i := range lens {
			lens[i] = int64(r.Intn(70))
			if r.Intn(5) == 0 {
				lens[i] = 0
			}
			total += lens[i]
		}
		if total == 0 {
			lens[0], total = 5, 5
		}
		n := (total + P - 1) / P
		data := make([]byte, total)
		for i := range data {
			data[i] = byte(r.Intn(256))
			if r.Intn(4) == 0 {
				// a few zeros at the ends of pieces
				data[i] = 0
			}
		}
		disk := append([]byte{}, data...)
		bad := make([]bool, n)
		what := r.Intn(4)
		for p := int64(0); p < n; p++ {
			if what == 0 || what == 1 && r.Intn(3) > 0 {
				continue
			}
			if what == 3 || r.Intn(2) == 0 {
				bad[p] = true
				end := (p + 1) * P
				if end > total {
					end = total
				}
				k := p*P + r.Int63n(end-p*P)
				disk[k] ^= byte(1 << r.Intn(8))
			}
		}
		lastEqual := r.Intn(4) == 0 && n > 1 && total%P != 0
		preset := r.Intn(4)
		cut := -1
		if r.Intn(6) == 0 {
			cut = r.Intn(nf)
			if lens[cut] == 0 {
				cut = -1
			}
		}
		flip, at := int64(-1), r.Intn(20)
		if r.Intn(3) == 0 {
			flip = r.Int63n(n)
		}
		desc := func() string {
			return fmt.Sprintf("files %v, piece length %d, bad pieces %v, bits before: %d, file %d shortened", lens, P, bad, preset, cut)
		}
		vrun(desc, func() string {
			dir := t.TempDir()
			hashes := ""
			for p := int64(0); p < n; p++ {
				end := (p + 1) * P
				if end > total {
					end = total
				}
				d := data[p*P : end]
				if lastEqual && p == n-1 {
					// the hash of the last piece followed by what the piece before has there
					d = append(append([]byte{}, d...), disk[(p-1)*P+int64(len(d)):p*P]...)
					bad[p] = true
				}
				h := []byte(utils.SHA1(d))
				if p == flip {
					// a hash that differs in one byte
					h[at] ^= 0x40
					bad[p] = true
				}
				hashes += string(h)
			}
			es := []filesd.EntryBase{}
			pos := int64(0)
			for i, l := range lens {
				e := filesd.MakeFileEntry(fmt.Sprintf("f%d", i), l)
				e.SetLocalPath(filepath.Join(dir, e.TorPath()))
				es = append(es, e)
				if err := os.WriteFile(e.LocalPath(), disk[pos:pos+l], 0o644); err != nil {
					return ""
				}
				pos += l
			}
			ti, err := info.NewTorInfo("t", P, hashes, es)
			if err != nil {
				return fmt.Sprintf("NewTorInfo fails: %v", err)
			}
			tor, err := torrent.NewTorrent(ti, "http://a/")
			if err != nil {
				return fmt.Sprintf("NewTorrent fails: %v", err)
			}
			fio := fileio.NewFileIO(ti)
			if err := fio.OCATAll(ti.Files()); err != nil {
				return fmt.Sprintf("OCATAll fails: %v", err)
			}
			defer fio.CloseAll()
			if cut >= 0 {
				if err := os.Truncate(es[cut].LocalPath(), lens[cut]-1); err != nil {
					return ""
				}
			}
			s := &Swarm{Tor: tor, Fileio: fio, Bf: bf.NewBitfield(n)}
			for p := int64(0); p < n; p++ {
				if preset == 1 || preset == 2 && r.Intn(2) == 0 {
					s.Bf.Set(p, true)
				}
			}
			err = s.Validate()
			if cut >= 0 {
				if err == nil {
					return "a file is too short to read a piece, but Validate reports no error"
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("Validate fails: %v", err)
			}
			nset := int64(0)
			for p := int64(0); p < n; p++ {
				if s.Bf.Get(p) == bad[p] {
					return fmt.Sprintf("piece %d: matches=%v, but its bit is %v", p, !bad[p], s.Bf.Get(p))
				}
				if !bad[p] {
					nset++
				}
			}
			if s.Bf.Nset() != nset {
				return fmt.Sprintf("%d pieces match, but the bitfield counts %d", nset, s.Bf.Nset())
			}
			return ""
		})
	}
}
