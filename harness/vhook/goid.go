package vhook

import (
	"runtime"
	"strconv"
)

// GetG is the address of the current goroutine, where there is a fast way to
// find it.
var GetG func() uintptr

// Goid identifies the current goroutine.
func Goid() int64 {
	if GetG != nil {
		return int64(GetG())
	}
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	for i, c := range s {
		if c == ' ' {
			s = s[:i]
			break
		}
	}
	v, _ := strconv.ParseInt(string(s), 10, 64)
	return v
}
