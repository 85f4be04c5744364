// Package fclk stands in for the C library's clock(): the CPU time of the process
// plus an offset, so that a process can look as if it had run for years.
package fclk

/*
#include <time.h>
static long long off, calls;
clock_t clock(void) {
	struct timespec t;
	__atomic_add_fetch(&calls, 1, __ATOMIC_SEQ_CST);
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return (clock_t)(t.tv_sec * 1000000LL + t.tv_nsec / 1000 + __atomic_load_n(&off, __ATOMIC_SEQ_CST));
}
static void setOff(long long o) { __atomic_store_n(&off, o, __ATOMIC_SEQ_CST); }
static long long getCalls(void) { return __atomic_load_n(&calls, __ATOMIC_SEQ_CST); }
*/
import "C"

// Set makes clock() run ahead by us microseconds.
func Set(us int64) { C.setOff(C.longlong(us)) }

// Calls is how often clock() was called.
func Calls() int64 { return int64(C.getCalls()) }
