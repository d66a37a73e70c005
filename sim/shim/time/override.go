package time

import (
	real "time"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

func Now() real.Time                  { return simrt.Now() }
func Since(t real.Time) real.Duration { return simrt.Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(simrt.Now()) }
func Sleep(d real.Duration)           { simrt.Sleep(d) }
