// Package fx injects delays between the steps of concurrent code: the code under
// test is built with vp/fx/atomic and vp/fx/sync in the place of sync/atomic and
// sync, which pause at random before and after every operation. Nothing here orders
// memory, so the race detector sees the order the code itself establishes.
package fx

import (
	"math/rand/v2"
	"runtime"
	"syscall"
)

var mode, count, victim int

var sink uint64

// Set chooses how to pause: 0 never, 1 often and briefly, 2 rarely and long,
// 3 keeping the processor, 4 only the victim, long and every time. Only while no goroutine runs code under test.
//
//go:norace
func Set(m int) { mode, victim = m, 0 }

// Victim makes the calling goroutine, for the rest of its life, the one that mode 4
// holds up, so that the others overtake it again and again.
//
//go:norace
func Victim() {
	runtime.LockOSThread()
	victim = syscall.Gettid()
}

// Pauses is roughly how often a pause was taken.
//
//go:norace
func Pauses() int { return count }

//go:norace
func Pause() {
	switch mode {
	case 0:
		return
	case 1:
		if x := rand.Uint32(); x&3 == 0 {
			count++
			runtime.Gosched()
		}
	case 2:
		if x := rand.Uint32(); x&31 == 0 {
			count++
			for n := x >> 8 & 31; n > 0; n-- {
				runtime.Gosched()
			}
		}
	case 4:
		if victim != 0 && victim == syscall.Gettid() {
			count++
			s := uint64(count)
			for n := 0; n < 6000; n++ {
				s = s*6364136223846793005 + 1442695040888963407
			}
			if s == 0 {
				sink = s
			}
		}
	default:
		if x := rand.Uint32(); x&7 == 0 {
			count++
			s := uint64(x)
			for n := x >> 8 & 2047; n > 0; n-- {
				s = s*6364136223846793005 + 1442695040888963407
			}
			if s == 0 {
				sink = s
			}
		}
	}
}
