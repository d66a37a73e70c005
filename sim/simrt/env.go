package simrt

import (
	crand "crypto/rand"
	"io"
	"time"
)

// Environment seams: entropy and clock.

type simReader struct{ r *Rand }

//go:norace
func (s *simReader) Read(p []byte) (int, error) {
	EntropyReads++
	for i := range p {
		p[i] = byte(s.r.Uint64() >> 17)
	}
	return len(p), nil
}

var (
	EntropyReads int64
	globalRand   = NewRand(1)
	realReader   io.Reader
	clock        time.Time
)

//go:norace
func resetEnv(c Config) {
	if realReader == nil {
		realReader = crand.Reader
	}
	crand.Reader = &simReader{NewRand(Mix(c.Entropy, 5))}
	globalRand = NewRand(Mix(c.Entropy, 9))
	clock = time.Unix(1700000000+int64(c.Entropy%1000000), int64(c.Entropy%999999937))
}

// GlobalRand is the source behind the top-level functions of math/rand.
//
//go:norace
func GlobalRand() *Rand { return globalRand }

// Now is the simulated wall clock: it advances with executed statements.
//
//go:norace
func Now() time.Time { return clock.Add(time.Duration(Steps()) * time.Microsecond) }

// Sleep advances the simulated clock and is a scheduling point.
func Sleep(d time.Duration) {
	clock = clock.Add(d)
	Y()
}
