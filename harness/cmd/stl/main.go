// Harness of the stl containers: C01..C10 and C42.
package main

import "vp/mon"

func main() { mon.Main() }
