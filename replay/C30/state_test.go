//package-dir: peer
package peer

import (
	"fmt"
	"testing"
)

func TestVerifState(t *testing.T) {
	r := vrand(31)
	for it := 0; it < 3000; it++ {
		s := MakeState()
		want := [4]bool{true, true, false, false}
		hist := "MakeState"
		for k := 0; k < 20; k++ {
			vrun(func() string { return hist }, func() string {
				if k > 0 {
					i, v := r.Intn(4), r.Intn(2) == 0
					hist += fmt.Sprintf(" %s(%v)", []string{"SetChokingUs", "SetWeChoking", "SetInterestedUs", "SetWeInterested"}[i], v)
					[]func(bool){s.SetChokingUs, s.SetWeChoking, s.SetInterestedUs, s.SetWeInterested}[i](v)
					want[i] = v
				}
				got := [4]bool{s.ChokingUs(), s.WeChoking(), s.InterestedUs(), s.WeInterested()}
				if got != want {
					return fmt.Sprintf("flags are %v, want %v", got, want)
				}
				return ""
			})
		}
	}
}
