//go:build !race

package tcp

const raceOn = false
