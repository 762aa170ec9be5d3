//go:build clibs

package main

const pureGo = false
