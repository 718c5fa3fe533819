package rt

import (
	"runtime"
	"time"
)

// SleepD is time.Sleep.
//
//go:norace
func SleepD(d time.Duration) { Sleep(int64(d)) }

// GOMAXPROCS is runtime.GOMAXPROCS.
//
//go:norace
func GOMAXPROCS(n int) int { return runtime.NumCPU() }
