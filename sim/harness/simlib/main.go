// Command simlib simulates the library: parsing, recognition, generation,
// regex, transition graphs, under seeded map-iteration orders, call histories,
// budgets, random streams and (in its -race build) task interleavings.
package main

import "github.com/pandatix/go-abnf/zsim/harness/h"

func main() {
	h.Main(props)
}

var props []*h.Prop

func reg(p *h.Prop) { props = append(props, p) }

var (
	realLib = []string{"every .go file of package goabnf, compiled from /repo's working tree (statement-level instrumented copy)"}
	stubLib = []string{"Go map iterator (order chosen by the simulator)", "crypto/rand.Reader and global math/rand (seeded)", "clock", "sync primitives and goroutine scheduling (cooperative scheduler)"}
)
