//package-dir: torrent
package torrent

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"gotor/bencode"
)

// vEnc is an independent canonical encoder; ok is false for a value that has no encoding.
func vEnc(v interface{}, sorted bool) (string, bool) {
	switch x := v.(type) {
	case string:
		return strconv.Itoa(len(x)) + ":" + x, x != ""
	case int64:
		return "i" + strconv.FormatInt(x, 10) + "e", true
	case bencode.List:
		s, ok := "l", true
		for _, y := range x {
			e, k := vEnc(y, sorted)
			s, ok = s+e, ok && k
		}
		return s + "e", ok
	case bencode.Dict:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if !sorted {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		s, ok := "d", true
		for _, k := range ks {
			e, good := vEnc(x[k], sorted)
			s, ok = s+strconv.Itoa(len(k))+":"+k+e, ok && good && k != ""
		}
		return s + "e", ok
	}
	return "", false
}

func vHash(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		h := sha1.Sum([]byte{byte(i), byte(n)})
		s += string(h[:])
	}
	return s
}

// vCheckFile loads one torrent file; whether it is acceptable apart from the encoding is known to the caller.
func vCheckFile(t *testing.T, dir string, top interface{}, sorted, good bool, tail string) {
	raw, _ := vEnc(top, sorted)
	raw += tail
	fn := filepath.Join(dir, "x.torrent")
	if err := os.WriteFile(fn, []byte(raw), 0600); err != nil {
		t.Fatal(err)
	}
	wd := filepath.Join(dir, "wd")
	vrun(func() string { return "FromTorrentFile of a file with " + vq([]byte(raw)) }, func() string {
		tor, err := FromTorrentFile(fn, wd)
		if err != nil {
			if tor != nil {
				return "an error and a torrent"
			}
			if good {
				return fmt.Sprintf("error %v for a valid torrent", err)
			}
			return ""
		}
		if tor == nil || tor.info == nil {
			return "neither an error nor a torrent"
		}
		d, _ := top.(bencode.Dict)
		inf, _ := d["info"].(bencode.Dict)
		want, ok := vEnc(inf, true)
		if !ok {
			return fmt.Sprintf("loaded with infohash %x, but the info dictionary cannot be encoded", tor.Infohash())
		}
		h := sha1.Sum([]byte(want))
		if tor.Infohash() != string(h[:]) {
			return fmt.Sprintf("infohash %x, want %x", tor.Infohash(), h)
		}
		if a, _ := d["announce"].(string); tor.Announce() != a {
			return fmt.Sprintf("announce %q, want %q", tor.Announce(), a)
		}
		if n, _ := inf["name"].(string); tor.Info().Name() != n {
			return fmt.Sprintf("name %q, want %q", tor.Info().Name(), n)
		}
		if n, _ := inf["piece length"].(int64); tor.Info().PieceLen() != n {
			return fmt.Sprintf("piece length %d, want %d", tor.Info().PieceLen(), n)
		}
		if n, _ := inf["pieces"].(string); tor.Info().Hashes() != n {
			return "wrong piece hashes"
		}
		fl := tor.Info().Files()
		if n, ok := inf["length"].(int64); ok {
			if len(fl) != 1 || fl[0].Length() != n || fl[0].TorPath() != inf["name"] || fl[0].LocalPath() != filepath.Join(wd, inf["name"].(string)) {
				return "wrong single file"
			}
			return ""
		}
		l, _ := inf["files"].(bencode.List)
		if len(fl) != len(l) {
			return fmt.Sprintf("%d files, want %d", len(fl), len(l))
		}
		for i, x := range l {
			fd, _ := x.(bencode.Dict)
			var ps []string
			pl, _ := fd["path"].(bencode.List)
			for _, p := range pl {
				s, _ := p.(string)
				ps = append(ps, s)
			}
			path := strings.Join(ps, "/")
			if fl[i].Length() != fd["length"] || fl[i].TorPath() != path || fl[i].LocalPath() != filepath.Join(wd, inf["name"].(string), path) {
				return fmt.Sprintf("file %d: %d bytes at %q (%q), want %v bytes at %q", i, fl[i].Length(), fl[i].TorPath(), fl[i].LocalPath(), fd["length"], path)
			}
		}
		return ""
	})
}

func vInfo(r *rand.Rand) bencode.Dict {
	pl := int64(1 + r.Intn(40))
	total := int64(r.Intn(200))
	d := bencode.Dict{"name": "n\xc3\xa4me", "piece length": pl, "pieces": vHash(int((total + pl - 1) / pl))}
	if total == 0 {
		total = 1
		d["pieces"] = vHash(1)
	}
	if r.Intn(2) == 0 {
		d["length"] = total
		return d
	}
	l := bencode.List{}
	for left := total; ; {
		n := int64(r.Intn(int(left) + 1))
		if len(l) > 4 {
			n = left
		}
		left -= n
		p := bencode.List{}
		for i := r.Intn(3); i >= 0; i-- {
			p = append(p, fmt.Sprintf("p%d", r.Intn(9)))
		}
		l = append(l, bencode.Dict{"length": n, "path": p, "md5sum": "x\xff\x00"})
		if left == 0 {
			break
		}
	}
	d["files"] = l
	return d
}

func TestVerifTorrentFile(t *testing.T) {
	dir := t.TempDir()
	extras := []interface{}{int64(0), "a", "\xff\xfe\x00", bencode.List{}, bencode.Dict{}, bencode.List{bencode.List{"x"}, int64(-5)}, bencode.Dict{"b": "1", "a": "2", "Z": bencode.List{"q"}}}
	for s := int64(0); s < 1500; s++ {
		r := vrand(s)
		inf := vInfo(r)
		for i := r.Intn(4); i > 0; i-- {
			inf[[]string{"private", "source", "Z", "a", "nam", "names", "piece", "\xff", "\x00", "similar"}[r.Intn(10)]] = extras[r.Intn(len(extras))]
		}
		if r.Intn(4) == 0 { // keys of the other kind of torrent
			if _, single := inf["files"]; !single {
				inf["files"] = []interface{}{bencode.List{}, bencode.List{bencode.Dict{"length": int64(1), "path": bencode.List{"f"}}}, "x", bencode.List{"x"}}[r.Intn(4)]
			} else {
				inf["length"] = []interface{}{"x", bencode.List{}, bencode.Dict{}}[r.Intn(3)]
			}
		}
		for _, k := range []string{"announce", "info", "private", "md5sum", "name.utf-8", "publisher", "meta version", "profiles", "root hash", "file-duration"} {
			if r.Intn(12) == 0 {
				inf[k] = extras[r.Intn(len(extras))]
			}
		}
		top := bencode.Dict{"announce": "http://tracker/announce", "info": inf}
		for _, k := range []string{"encoding", "created by", "nodes", "url-list", "httpseeds", "publisher", "name", "announce ", "Announce"} {
			if r.Intn(12) == 0 {
				top[k] = extras[r.Intn(len(extras))]
			}
		}
		if r.Intn(2) == 0 {
			top["comment"] = extras[r.Intn(len(extras))]
			top["creation date"] = r.Int63()
			top["announce-list"] = bencode.List{bencode.List{"http://a", "http://b"}, bencode.List{"udp://c"}}
		}
		vCheckFile(t, dir, top, r.Intn(2) == 0, true, []string{"", "", "\n", "garbage", "d1:ai1ee"}[r.Intn(5)])
	}
}

func TestVerifTorrentFileBad(t *testing.T) {
	dir := t.TempDir()
	// no encoding: an empty string or an empty key anywhere in the info dictionary
	for s := int64(0); s < 300; s++ {
		r := vrand(s)
		inf := vInfo(r)
		switch r.Intn(6) {
		case 0:
			inf["source"] = ""
		case 1:
			inf[""] = "x"
		case 2:
			inf["x"] = bencode.List{"a", bencode.Dict{"k": ""}, "b"}
		case 3:
			inf["a"] = bencode.Dict{"": int64(1), "z": "y"}
		case 4:
			inf["zz"] = bencode.List{""}
		case 5:
			inf["a"] = ""
			inf["b"] = ""
		}
		top := bencode.Dict{"announce": "http://t", "info": inf}
		vCheckFile(t, dir, top, true, false, "")
		// outside the info dictionary it does not matter
		top = bencode.Dict{"announce": "http://t", "info": vInfo(r), "comment": "", "x": bencode.List{""}}
		vCheckFile(t, dir, top, true, true, "")
	}
	inf := vInfo(vrand(1))
	for _, top := range []interface{}{bencode.Dict{}, bencode.List{}, "x", int64(1), bencode.Dict{"announce": "x"}, bencode.Dict{"info": inf}, bencode.Dict{"announce": int64(1), "info": inf}, bencode.Dict{"announce": "x", "info": bencode.List{inf}}, bencode.Dict{"announce": "x", "info": bencode.Dict{}}} {
		vCheckFile(t, dir, top, true, false, "")
	}
	for _, raw := range []string{"", "d", "d8:announce", "i5", "x"} {
		fn := filepath.Join(dir, "bad")
		os.WriteFile(fn, []byte(raw), 0600)
		vrun(func() string { return "FromTorrentFile of a file with " + vq([]byte(raw)) }, func() string {
			if tor, err := FromTorrentFile(fn, "wd"); err == nil || tor != nil {
				return "no error"
			}
			return ""
		})
	}
	vrun(func() string { return "FromTorrentFile of a missing file" }, func() string {
		if tor, err := FromTorrentFile(filepath.Join(dir, "missing"), "wd"); err == nil || tor != nil {
			return "no error"
		}
		return ""
	})
}
