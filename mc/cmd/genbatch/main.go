// Command genbatch is built with an overlay that replaces this file and adds
// generated parsers; see cmd/mc/genbatch.go.
package main

func main() {}
