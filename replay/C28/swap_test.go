//package-dir: utils
package utils

import (
	"fmt"
	"testing"
)

func TestVerifRemoveSwap(t *testing.T) {
	for n := 1; n <= 300; n++ {
		for i := 0; i < n; i++ {
			if n > 20 && i > 4 && i < n-4 && i%37 != 0 {
				continue
			}
			vrun(func() string { return fmt.Sprintf("RemoveSwap of element %d of %d", i, n) }, func() string {
				s := make([]int, n, n+i%3)
				for k := range s {
					s[k] = k * 10
				}
				got := RemoveSwap(s, int64(i))
				if len(got) != n-1 {
					return fmt.Sprintf("%d elements left", len(got))
				}
				seen := map[int]bool{}
				for k, x := range got {
					if x == i*10 || seen[x] || x%10 != 0 || x < 0 || x >= 10*n {
						return fmt.Sprintf("left with %v", got)
					}
					seen[x] = true
					if k != i && x != k*10 {
						return fmt.Sprintf("element %d moved: %v", k, got)
					}
				}
				return ""
			})
		}
	}
}
