//go:build cgo

// Package cgocall makes calls into C, so that the runtime's count of them moves.
package cgocall

// static int verif_nop(int x) { return x + 1; }
import "C"

const Available = true

func Do(n int) {
	for i := 0; i < n; i++ {
		C.verif_nop(C.int(i))
	}
}
