// Harness of the crypto packages: paddings, AES, 3DES and rsa.
package main

import "vp/mon"

func main() { mon.Main() }
