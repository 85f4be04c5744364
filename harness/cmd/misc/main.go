// Harness of the small packages: debug, reflect, factory and time.
package main

import "vp/mon"

func main() { mon.Main() }
