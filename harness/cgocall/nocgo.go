//go:build !cgo

package cgocall

const Available = false

func Do(n int) {}
