//package-dir: torrent/info
package info

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"gotor/bencode"
)

func vOkPart(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.Contains(s, "/")
}

func vPaths(d bencode.Dict, wd string) {
	vrun(func() string { return fmt.Sprintf("FromDict(%#v, %q)", d, wd) }, func() string {
		ti, err := FromDict(d, wd)
		name, ok := d["name"].(string)
		good := ok && vOkPart(name)
		var want, torps []string
		if _, single := d["length"].(int64); single {
			want = []string{filepath.Join(wd, name)}
			torps = []string{name}
		} else {
			files, ok := d["files"].(bencode.List)
			good = good && ok
			for _, f := range files {
				fd, _ := f.(bencode.Dict)
				path, _ := fd["path"].(bencode.List)
				good = good && len(path) > 0
				parts := []string{wd, name}
				var tp []string
				for _, p := range path {
					s, ok := p.(string)
					good = good && ok && vOkPart(s)
					parts = append(parts, s)
					tp = append(tp, s)
				}
				want = append(want, filepath.Join(parts...))
				torps = append(torps, strings.Join(tp, "/"))
			}
		}
		if !good {
			if err == nil {
				var got []string
				for i := range ti.Files() {
					got = append(got, ti.Files()[i].LocalPath())
				}
				return fmt.Sprintf("accepted, with files at %q", got)
			}
			return ""
		}
		if err != nil {
			return "refused: " + err.Error()
		}
		if len(ti.Files()) != len(want) {
			return fmt.Sprintf("%d files, should be %d", len(ti.Files()), len(want))
		}
		for i := range want {
			if g := ti.Files()[i].LocalPath(); g != want[i] {
				return fmt.Sprintf("file %d is at %q, should be %q", i, g, want[i])
			}
			if g := ti.Files()[i].TorPath(); g != torps[i] {
				return fmt.Sprintf("file %d has the path %q in the torrent, should be %q", i, g, torps[i])
			}
		}
		return ""
	})
}

func TestVerifPaths(t *testing.T) {
	r := vrand(12)
	base := []string{"a", "b.txt", "..a", "a..", "...", " ", "a b", "\\", "a\\b", "~", "*", "\x00", "é", "\xff", "..", ".", "", "/", "a/b", "../x", "/etc", "a/", "/..", "..\\..", ". ", " ..", "C:", "-", "a\nb", strings.Repeat("x", 300), "a/../b", "./a", ".a", "_", "....", "x/..", "..;", "\\..", "con"}
	part := func(bad int) interface{} {
		switch {
		case r.Intn(200) == 0:
			return int64(3)
		case r.Intn(bad) == 0:
			return base[r.Intn(len(base))]
		case r.Intn(3) == 0:
			b := make([]byte, r.Intn(5))
			for i := range b {
				b[i] = "./ab\\"[r.Intn(5)]
			}
			if r.Intn(bad) > 0 {
				for i := range b {
					if b[i] == '/' {
						b[i] = 'c'
					}
				}
			}
			return string(b) + "x"
		}
		return base[r.Intn(13)]
	}
	wds := []string{"/wd", "", ".", "rel/dir", "/", "/a/../b", "..", "/wd/"}
	for c := 0; c < 60000; c++ {
		bad := []int{1, 4, 20, 1000000}[r.Intn(4)]
		d := bencode.Dict{"name": part(bad), "piece length": int64(8)}
		total := int64(0)
		if r.Intn(4) == 0 {
			total = int64(r.Intn(30))
			d["length"] = total
		} else {
			files := bencode.List{}
			for i := r.Intn(5); i > 0; i-- {
				l := int64(r.Intn(20))
				total += l
				path := bencode.List{}
				for k := r.Intn(5); k > 0; k-- {
					path = append(path, part(bad*4))
				}
				if len(path) == 0 && r.Intn(10) > 0 {
					path = append(path, "f")
				}
				files = append(files, bencode.Dict{"length": l, "path": path})
			}
			d["files"] = files
		}
		d["pieces"] = strings.Repeat("h", 20*int((total+7)/8))
		vPaths(d, wds[r.Intn(len(wds))])
	}
	for _, n := range base {
		vPaths(bencode.Dict{"name": n, "piece length": int64(8), "pieces": strings.Repeat("h", 20), "length": int64(5)}, "/wd")
		for _, p := range base {
			for _, q := range []string{"", "z"} {
				path := bencode.List{p}
				if q != "" {
					path = bencode.List{"a", p, q}
				}
				vPaths(bencode.Dict{"name": n, "piece length": int64(8), "pieces": strings.Repeat("h", 20), "files": bencode.List{bencode.Dict{"length": int64(5), "path": path}}}, "/wd")
			}
		}
	}
}
