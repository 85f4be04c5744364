// Harness of package fs. It runs as an unprivileged user whose only files are
// in the scratch directory of the run.
package main

import (
	"os"

	"vp/mon"
)

func main() {
	if os.Getenv("VP_CHILD") != "" {
		child()
		return
	}
	mon.Main()
}
