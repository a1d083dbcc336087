//go:build !amd64

package main

import "runtime"

// goid gives the number of the current goroutine.
func goid() int64 {
	var b [64]byte
	var n int64
	for _, c := range b[len("goroutine "):runtime.Stack(b[:], false)] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int64(c-'0')
	}
	return n
}
