//go:build !goexperiment.synctest

package main

func main() { targets["Smoke"]() }
