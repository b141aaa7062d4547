//go:build go1.24

// c29arm is only built, for arm64, and run by the interpreter in c29.
package main

import "github.com/sencha-dev/powkit/internal/common/bitutil"

var f = bitutil.XORBytes

func main() {
	var a, b, c [64]byte
	println(f(a[:], b[:], c[:]))
}
