package main

import (
	"errors"
	"os"
	"runtime/debug"
	"syscall"

	"github.com/vipally/gx/fs"
)

// child makes one call that may not return.
func child() {
	debug.SetMaxStack(4 << 20)
	// few descriptors: a call that opens the file again and again runs out
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 100, Max: 100})
	if err := fs.Create(os.Getenv("VP_ARG")); err != nil {
		if errors.Is(err, syscall.EMFILE) {
			os.Exit(8)
		}
		os.Exit(7)
	}
	os.Exit(0)
}
