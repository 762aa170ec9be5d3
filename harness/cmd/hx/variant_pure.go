//go:build !clibs

package main

// pureGo says that the library is built without the C libraries, which it
// needs for zstd.
const pureGo = true
