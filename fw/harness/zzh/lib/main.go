//go:build go1.22

package main

import "github.com/companyzero/zkc/zz/mc"

func main() { mc.Main() }
