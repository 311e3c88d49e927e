//package-dir: torrent/info
package info

import (
	"fmt"
	"strings"
	"testing"

	"gotor/torrent/filesd"
)

func vPieceCase(lens []int64, P int64) {
	desc := func() string { return fmt.Sprintf("file lengths %v, piece length %d", lens, P) }
	vrun(desc, func() string {
		var es []filesd.EntryBase
		total := int64(0)
		begs := []int64{0}
		for i, l := range lens {
			es = append(es, filesd.MakeFileEntry(fmt.Sprintf("f%d", i), l))
			total += l
			begs = append(begs, total)
		}
		n := (total + P - 1) / P
		// PieceInfo of every file and piece against the intersection
		fl := filesd.MakeFileList(es, P)
		for i := range fl {
			for p := int64(0); p <= n; p++ {
				lo, hi := p*P, (p+1)*P
				if begs[i] > lo {
					lo = begs[i]
				}
				if begs[i+1] < hi {
					hi = begs[i+1]
				}
				pi, err := fl[i].PieceInfo(p, P)
				if lo < hi {
					if err != nil {
						return fmt.Sprintf("PieceInfo(%d) of file %d fails: %v", p, i, err)
					}
					if pi.SeekAmnt != lo-begs[i] || pi.ReadAmnt != hi-lo {
						return fmt.Sprintf("PieceInfo(%d) of file %d is %+v, should be {%d %d}", p, i, pi, lo-begs[i], hi-lo)
					}
				} else if lens[i] > 0 && err == nil {
					return fmt.Sprintf("PieceInfo(%d) of file %d is %+v, should be an error", p, i, pi)
				}
			}
		}
		ti, err := NewTorInfo("t", P, strings.Repeat("abcdefghijklmnopqrst", int(n)), es)
		if err != nil {
			return fmt.Sprintf("NewTorInfo fails: %v", err)
		}
		fl = ti.Files()
		for p := int64(0); p < n; p++ {
			locs, err := ti.PieceLookup(p)
			if err != nil {
				return fmt.Sprintf("PieceLookup(%d) fails: %v", p, err)
			}
			pos, end := p*P, (p+1)*P
			if end > total {
				end = total
			}
			for k, l := range locs {
				f := -1
				for i := range fl {
					if l.Entry == &fl[i] {
						f = i
					}
				}
				if f < 0 {
					return fmt.Sprintf("location %d of piece %d is in no file of the list", k, p)
				}
				if l.SeekAmnt() < 0 || l.ReadAmnt() < 0 || l.SeekAmnt()+l.ReadAmnt() > lens[f] {
					return fmt.Sprintf("location %d of piece %d is outside its file: %+v", k, p, l.Loc)
				}
				if begs[f]+l.SeekAmnt() != pos {
					return fmt.Sprintf("location %d of piece %d is byte %d of the stream, should be %d", k, p, begs[f]+l.SeekAmnt(), pos)
				}
				pos += l.ReadAmnt()
			}
			if pos != end {
				return fmt.Sprintf("the locations of piece %d end at byte %d of the stream, should be %d", p, pos, end)
			}
		}
		for _, p := range []int64{-1, n, n + 1, -1 << 62, 1 << 62} {
			if l, err := ti.PieceLookup(p); err == nil {
				return fmt.Sprintf("PieceLookup(%d) of %d pieces gives %v and no error", p, n, l)
			}
		}
		return ""
	})
}

func TestVerifPieceMap(t *testing.T) {
	r := vrand(10)
	for P := int64(1); P <= 4; P++ {
		for a := int64(0); a <= 5; a++ {
			for b := int64(0); b <= 5; b++ {
				for c := int64(0); c <= 5; c++ {
					vPieceCase([]int64{a, b, c}, P)
				}
			}
		}
	}
	for it := 0; it < 4000; it++ {
		n := 1 + r.Intn(9)
		P := int64(1 + r.Intn(12))
		lens := make([]int64, n)
		for i := range lens {
			switch r.Intn(5) {
			case 0:
			case 1:
				lens[i] = P * int64(r.Intn(4))
			case 2:
				lens[i] = P*int64(r.Intn(3)) + int64(r.Intn(2))
			case 3:
				lens[i] = int64(r.Intn(40))
			default:
				lens[i] = int64(r.Intn(int(2*P) + 1))
			}
		}
		vPieceCase(lens, P)
	}
	// large offsets
	for it := 0; it < 300; it++ {
		n := 1 + r.Intn(4)
		P := int64(1) << uint(26+r.Intn(6))
		lens := make([]int64, n)
		for i := range lens {
			lens[i] = r.Int63n(8*P) + int64(r.Intn(2))
		}
		vPieceCase(lens, P)
	}
	// many files
	for it := 0; it < 40; it++ {
		n := 100 + r.Intn(300)
		P := int64(1 + r.Intn(40))
		lens := make([]int64, n)
		for i := range lens {
			lens[i] = int64(r.Intn(30))
		}
		vPieceCase(lens, P)
	}
}
