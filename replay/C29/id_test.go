//package-dir: utils
package utils

import "testing"

func TestVerifId(t *testing.T) {
	for i := 0; i < 20000; i++ {
		vrun(func() string { return "NewPeerId()" }, func() string {
			id := NewPeerId()
			if len(id) != 20 || id[:8] != "-GT0000-" {
				return "gives " + vq([]byte(id))
			}
			for _, c := range []byte(id[8:]) {
				if !('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') {
					return "gives " + vq([]byte(id))
				}
			}
			return ""
		})
	}
}
