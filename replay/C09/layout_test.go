//package-dir: torrent/filesd
package filesd

import (
	"fmt"
	"testing"
)

func vLayoutCase(lens []int64, P int64) {
	desc := func() string { return fmt.Sprintf("file lengths %v, piece length %d", lens, P) }
	vrun(desc, func() string {
		var es []EntryBase
		total := int64(0)
		for i, l := range lens {
			es = append(es, MakeFileEntry(fmt.Sprintf("f%d", i), l))
			total += l
		}
		fl := MakeFileList(es, P)
		if len(fl) != len(lens) {
			return fmt.Sprintf("the layout has %d files", len(fl))
		}
		pos := int64(0)
		for i := range fl {
			f := &fl[i]
			if f.EntryBase != es[i] {
				return fmt.Sprintf("file %d is %+v", i, f.EntryBase)
			}
			if f.StartPiece() != pos/P || f.StartPieceOff() != pos%P {
				return fmt.Sprintf("file %d starts at piece %d offset %d, should start at byte %d", i, f.StartPiece(), f.StartPieceOff(), pos)
			}
			e := pos + lens[i] - 1
			if lens[i] > 0 && (f.EndPiece() != e/P || f.EndPieceOff() != e%P) {
				return fmt.Sprintf("file %d ends at piece %d offset %d, its last byte is byte %d", i, f.EndPiece(), f.EndPieceOff(), e)
			}
			if lens[i] == 0 && f.EndPiece()*P+f.EndPieceOff() != e {
				return fmt.Sprintf("empty file %d at byte %d ends at piece %d offset %d", i, pos, f.EndPiece(), f.EndPieceOff())
			}
			pos += lens[i]
		}
		if total > 1<<20 {
			return ""
		}
		n := (total + P - 1) / P
		step := n/200 + 1
		for p := int64(0); p <= n+1; p += step {
			got := fl.GetFiles(p)
			k := 0
			pos := int64(0)
			for i := range fl {
				a, b := pos, pos+lens[i]
				pos = b
				in := a < b && a/P <= p && (b-1)/P >= p
				opt := a == b
				if k < len(got) && got[k] == fl[i] && (in || opt) {
					k++
					continue
				}
				if in {
					return fmt.Sprintf("GetFiles(%d) = %+v lacks file %d, or has it out of order", p, got, i)
				}
			}
			if k != len(got) {
				return fmt.Sprintf("GetFiles(%d) = %+v has files that do not touch the piece", p, got)
			}
		}
		return ""
	})
}

func TestVerifLayout(t *testing.T) {
	r := vrand(9)
	for P := int64(1); P <= 4; P++ {
		for a := int64(0); a <= 5; a++ {
			for b := int64(0); b <= 5; b++ {
				for c := int64(0); c <= 5; c++ {
					vLayoutCase([]int64{a, b, c}, P)
				}
			}
		}
	}
	for it := 0; it < 4000; it++ {
		n := r.Intn(9)
		P := int64(1 + r.Intn(12))
		if r.Intn(10) == 0 {
			P = 1 << uint(r.Intn(22))
		}
		lens := make([]int64, n)
		for i := range lens {
			switch r.Intn(6) {
			case 0:
			case 1:
				lens[i] = P * int64(r.Intn(4))
			case 2:
				lens[i] = P*int64(r.Intn(3)) + int64(r.Intn(2))
			case 3:
				lens[i] = int64(r.Intn(100))
			default:
				lens[i] = int64(r.Intn(int(2*P) + 1))
			}
			if it%50 == 7 {
				lens[i] = int64(r.Uint64() >> uint(5+r.Intn(30)))
				P = 1 << uint(10+r.Intn(12))
			}
		}
		vLayoutCase(lens, P)
	}
	for it := 0; it < 300; it++ {
		n := 100 + r.Intn(400)
		P := int64(1 + r.Intn(40))
		lens := make([]int64, n)
		for i := range lens {
			lens[i] = int64(r.Intn(30))
		}
		vLayoutCase(lens, P)
	}
}
