package simrt

import (
	"runtime"
	"sync/atomic"
)

// Gosched lets other goroutines run.
func Gosched() { runtime.Gosched() }

var bigAlloc atomic.Int64

// AllocLen stands between the serialization library and the allocation of a byte slice whose length a message gives. A
// slice of more than 1 MB, more than any message has, is not really allocated, but remembered.
func AllocLen(n int) int {
	if n > 1<<20 {
		if int64(n) > bigAlloc.Load() {
			bigAlloc.Store(int64(n))
		}
		return 1 << 20
	}
	return n
}

// BigAlloc gives and forgets the largest allocation of this kind.
func BigAlloc() int64 { return bigAlloc.Swap(0) }
