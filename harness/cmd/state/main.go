// Harness of the process-wide registries: errors and regable.
package main

import "vp/mon"

func main() { mon.Main() }
