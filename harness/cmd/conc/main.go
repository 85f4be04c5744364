package main

import "vp/mon"

func main() { mon.Main() }
