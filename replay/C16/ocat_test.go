//package-dir: torrent/fileio
package fileio

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/utils"
)

// vOcat prepares files (had[i] < 0: there is none yet) for lengths want[i].
func vOcat(t *testing.T, had, want []int64) {
	desc := func() string { return fmt.Sprintf("existing files of sizes %v (-1: none), requested sizes %v", had, want) }
	vrun(desc, func() string {
		dir := t.TempDir()
		other := bytes.Repeat([]byte("other"), 100)
		if os.WriteFile(filepath.Join(dir, "other"), other, 0o644) != nil {
			return ""
		}
		es := []filesd.EntryBase{}
		olds := [][]byte{}
		total := int64(0)
		for i := range had {
			p := filepath.Join(dir, "d", fmt.Sprint(i%2), fmt.Sprintf("f%d", i))
			e := filesd.MakeFileEntry(fmt.Sprintf("f%d", i), want[i])
			e.SetLocalPath(p)
			es = append(es, e)
			total += want[i]
			var old []byte
			if had[i] >= 0 {
				old = make([]byte, had[i])
				for j := range old {
					old[j] = byte(j%251 + 1)
				}
				if os.MkdirAll(filepath.Dir(p), 0o755) != nil || os.WriteFile(p, old, 0o644) != nil {
					return ""
				}
			}
			olds = append(olds, old)
		}
		n := int((total + 16383) / 16384)
		ti, err := info.NewTorInfo("t", 16384, string(make([]byte, 20*n)), es)
		if err != nil {
			return fmt.Sprintf("NewTorInfo fails: %v", err)
		}
		fio := NewFileIO(ti)
		if err := fio.OCATAll(ti.Files()); err != nil {
			return fmt.Sprintf("OCATAll fails: %v", err)
		}
		defer fio.CloseAll()
		for i := range es {
			b, err := os.ReadFile(es[i].LocalPath())
			if err != nil {
				return fmt.Sprintf("file %d: %v", i, err)
			}
			if int64(len(b)) != want[i] {
				return fmt.Sprintf("file %d has %d bytes", i, len(b))
			}
			for j := range b {
				w := byte(0)
				if j < len(olds[i]) {
					w = olds[i][j]
				}
				if b[j] != w {
					return fmt.Sprintf("byte %d of file %d is %d, should be %d", j, i, b[j], w)
				}
			}
			if k, err := fio.read(es[i].LocalPath(), 0, make([]byte, want[i])); err != nil || k != want[i] {
				return fmt.Sprintf("reading file %d gives %d, %v", i, k, err)
			}
		}
		if b, err := os.ReadFile(filepath.Join(dir, "other")); err != nil || !bytes.Equal(b, other) {
			return "another file changed"
		}
		return ""
	})
}

func TestVerifOcat(t *testing.T) {
	r := vrand(16)
	sizes := []int64{0, 1, 5, 1000, 1048575, 1048576, 1048577, 2097152, 2097153, 3 << 20}
	for _, w := range sizes {
		vOcat(t, []int64{-1}, []int64{w})
		vOcat(t, []int64{w}, []int64{w})
		for _, h := range []int64{0, 1, 7, 1048576, 1048583, 2097160} {
			vOcat(t, []int64{h}, []int64{w})
		}
	}
	for i := 0; i < 60; i++ {
		var h, w []int64
		for j := 1 + r.Intn(4); j > 0; j-- {
			h = append(h, int64(r.Intn(40)-1))
			w = append(w, int64(r.Intn(40)))
		}
		vOcat(t, h, w)
	}
}

// A file that cannot be opened for lack of file descriptors keeps its contents,
// also when a descriptor becomes free right after.
func TestVerifOcatBusy(t *testing.T) {
	desc := func() string { return "an existing file of 1000 bytes, opened while file descriptors run out" }
	vrun(desc, func() string {
		p := filepath.Join(t.TempDir(), "f")
		old := bytes.Repeat([]byte{7}, 1000)
		if os.WriteFile(p, old, 0o644) != nil {
			return ""
		}
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) != nil {
			return ""
		}
		small := lim
		small.Cur = 64
		if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &small) != nil {
			return ""
		}
		var fds []int
		for {
			fd, err := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
			if err != nil {
				break
			}
			fds = append(fds, fd)
		}
		if len(fds) == 0 {
			return ""
		}
		// another goroutine frees and takes the last descriptor all the time
		stop, done := make(chan bool), make(chan bool)
		last := fds[len(fds)-1]
		fds = fds[:len(fds)-1]
		go func() {
			defer close(done)
			have := true
			for {
				select {
				case <-stop:
					if have {
						syscall.Close(last)
					}
					return
				default:
				}
				if have {
					syscall.Close(last)
					have = false
				}
				if fd, err := syscall.Open("/dev/null", syscall.O_RDONLY, 0); err == nil {
					last, have = fd, true
				}
			}
		}()
		res := ""
		for end := time.Now().Add(3 * time.Second); res == "" && time.Now().Before(end); {
			f, err := utils.OCAT(p, 1000)
			if err == nil {
				b := make([]byte, 1000)
				if _, e := f.ReadAt(b, 0); e == nil && !bytes.Equal(b, old) {
					res = "the file's contents were erased"
				}
				f.Close()
			}
		}
		close(stop)
		<-done
		for _, fd := range fds {
			syscall.Close(fd)
		}
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
		if b, err := os.ReadFile(p); res == "" && err == nil && !bytes.Equal(b, old) {
			res = "the file's contents were erased"
		}
		return res
	})
}
