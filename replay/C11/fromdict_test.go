//package-dir: torrent/info
package info

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"

	"gotor/bencode"
	"gotor/torrent/filesd"
)

// vConsistent says what is wrong with accepted metadata.
func vConsistent(ti *TorInfo) string {
	if ti.PieceLen() <= 0 {
		return fmt.Sprintf("accepted with piece length %d", ti.PieceLen())
	}
	sum := new(big.Int)
	for i := range ti.Files() {
		l := ti.Files()[i].Length()
		if l < 0 {
			return fmt.Sprintf("accepted with file length %d", l)
		}
		sum.Add(sum, big.NewInt(l))
	}
	if sum.Cmp(big.NewInt(ti.Length())) != 0 {
		return fmt.Sprintf("total length %d, but the files add up to %v", ti.Length(), sum)
	}
	n := ti.NumPieces()
	if int64(len(ti.Hashes())) != 20*n {
		return fmt.Sprintf("%d pieces but %d bytes of hashes", n, len(ti.Hashes()))
	}
	if n > 0 {
		if ti.LastPieceLen() <= 0 || ti.LastPieceLen() > ti.PieceLen() {
			return fmt.Sprintf("last piece length %d of pieces of %d", ti.LastPieceLen(), ti.PieceLen())
		}
		t := new(big.Int).Mul(big.NewInt(n-1), big.NewInt(ti.PieceLen()))
		t.Add(t, big.NewInt(ti.LastPieceLen()))
		if t.Cmp(sum) != 0 {
			return fmt.Sprintf("pieces add up to %v, files to %v", t, sum)
		}
	} else if sum.Sign() != 0 {
		return fmt.Sprintf("no pieces, but the files have %v bytes", sum)
	}
	for i := int64(0); i < n && i < 1000; i++ {
		ti.PieceHash(i)
		if _, err := ti.PieceLookup(i); err != nil {
			return fmt.Sprintf("PieceLookup(%d) fails: %v", i, err)
		}
	}
	return ""
}

func vFromDict(d bencode.Dict) {
	vrun(func() string { return fmt.Sprintf("FromDict(%#v)", d) }, func() string {
		ti, err := FromDict(d, "/wd")
		if err != nil {
			return ""
		}
		if ti == nil {
			return "returns neither metadata nor an error"
		}
		if v, ok := d["name"].(string); !ok || v != ti.Name() {
			return "accepted with name " + ti.Name()
		}
		if v, ok := d["piece length"].(int64); !ok || v != ti.PieceLen() {
			return fmt.Sprintf("accepted with piece length %d", ti.PieceLen())
		}
		if v, ok := d["pieces"].(string); !ok || v != ti.Hashes() {
			return "accepted with other hashes"
		}
		if v, ok := d["length"].(int64); ok {
			if len(ti.Files()) != 1 || ti.Files()[0].Length() != v {
				return "accepted with other files"
			}
		} else {
			l, ok := d["files"].(bencode.List)
			if !ok || len(l) != len(ti.Files()) {
				return "accepted with other files"
			}
			for i, e := range l {
				fd, ok := e.(bencode.Dict)
				if !ok {
					return "accepted a file that is no dictionary"
				}
				if v, ok := fd["length"].(int64); !ok || v != ti.Files()[i].Length() {
					return fmt.Sprintf("file %d has length %d", i, ti.Files()[i].Length())
				}
				if p, ok := fd["path"].(bencode.List); !ok || len(p) == 0 {
					return "accepted a file without a path"
				}
			}
		}
		return vConsistent(ti)
	})
}

func TestVerifFromDict(t *testing.T) {
	r := vrand(11)
	ints := []int64{0, 1, -1, 2, 3, 5, 7, 16, 20, 40, -20, 16384, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 62, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}
	junk := []interface{}{nil, int64(0), int64(-1), int64(20), "", "x", "aaaaaaaaaaaaaaaaaaaa", bencode.List{}, bencode.List{int64(1)}, bencode.List{"a"}, bencode.Dict{}, bencode.Dict{"length": int64(1)}, uint8(1), 3, []byte("x")}
	pick := func() int64 {
		if r.Intn(3) == 0 {
			return ints[r.Intn(len(ints))]
		}
		return int64(r.Intn(50))
	}
	for c := 0; c < 60000; c++ {
		P := pick()
		nf := r.Intn(5)
		sum := int64(0)
		files := bencode.List{}
		for i := 0; i < nf; i++ {
			l := pick()
			sum += l
			path := bencode.List{}
			for k := r.Intn(4); k >= 0; k-- {
				path = append(path, []string{"a", "b.txt", "c d"}[r.Intn(3)])
			}
			fd := bencode.Dict{"length": l, "path": path}
			switch r.Intn(40) {
			case 0:
				fd["path"] = bencode.List{}
			case 1:
				fd["path"] = bencode.List{"a", junk[r.Intn(len(junk))]}
			case 2:
				fd["path"] = junk[r.Intn(len(junk))]
			case 3:
				fd["length"] = junk[r.Intn(len(junk))]
			case 4:
				delete(fd, "path")
			case 5:
				delete(fd, "length")
			}
			if r.Intn(40) == 0 {
				files = append(files, junk[r.Intn(len(junk))])
			}
			files = append(files, fd)
		}
		d := bencode.Dict{"name": "n", "piece length": P}
		if r.Intn(3) == 0 {
			sum = pick()
			d["length"] = sum
		} else {
			d["files"] = files
		}
		n := int64(r.Intn(6))
		if P > 0 && sum >= 0 && r.Intn(4) > 0 {
			n = sum / P
			if sum%P != 0 {
				n++
			}
			if n > 100 {
				n = int64(r.Intn(3))
			}
			n += []int64{0, 0, 0, 0, 1, -1}[r.Intn(6)]
		}
		if n < 0 {
			n = 0
		}
		h := strings.Repeat("x", 20*int(n))
		if r.Intn(30) == 0 {
			tail := make([]byte, 1+r.Intn(40))
			cs := "\x00\r\n\t y0x"
			if r.Intn(2) == 0 {
				cs = cs[:5]
			}
			for i := range tail {
				tail[i] = cs[r.Intn(len(cs))]
			}
			h += string(tail)
		}
		d["pieces"] = h
		if r.Intn(15) == 0 {
			d[[]string{"name", "piece length", "pieces", "length", "files"}[r.Intn(5)]] = junk[r.Intn(len(junk))]
		}
		if r.Intn(40) == 0 {
			delete(d, []string{"name", "piece length", "pieces", "length", "files"}[r.Intn(5)])
		}
		vFromDict(d)
	}
	for _, d := range []bencode.Dict{nil, {}, {"name": "x"}} {
		vFromDict(d)
	}
	for _, P := range ints {
		for _, L := range ints {
			for _, n := range []int{0, 1, 2, 3} {
				h := strings.Repeat("x", 20*n)
				vFromDict(bencode.Dict{"name": "n", "piece length": P, "pieces": h, "length": L})
				for _, M := range ints {
					vFromDict(bencode.Dict{"name": "n", "piece length": P, "pieces": h, "files": bencode.List{
						bencode.Dict{"length": L, "path": bencode.List{"a"}}, bencode.Dict{"length": M, "path": bencode.List{"b"}}}})
				}
			}
		}
	}
}

func TestVerifNewTorInfo(t *testing.T) {
	r := vrand(12)
	// consistent metadata is accepted
	for c := 0; c < 3000; c++ {
		P := int64(1 + r.Intn(30))
		if r.Intn(4) == 0 {
			P = int64(1) << uint(10+r.Intn(22))
		}
		var es []filesd.EntryBase
		sum := int64(0)
		for i := r.Intn(5); i >= 0; i-- {
			l := int64(r.Intn(100))
			if r.Intn(4) == 0 {
				l = r.Int63n(4 * P)
			}
			sum += l
			es = append(es, filesd.MakeFileEntry(fmt.Sprint("f", i), l))
		}
		n := (sum + P - 1) / P
		vrun(func() string { return fmt.Sprintf("NewTorInfo(piece length %d, %d hashes, files %v)", P, n, es) }, func() string {
			ti, err := NewTorInfo("n", P, strings.Repeat("h", int(20*n)), es)
			if err != nil {
				return "refused: " + err.Error()
			}
			if len(ti.Files()) != len(es) || ti.PieceLen() != P || ti.NumPieces() != n {
				return "other metadata"
			}
			return vConsistent(ti)
		})
	}
}
