// Package simrt is the runtime of the deterministic simulator. The instrumented
// copy of the code under test calls into it at every seam: each statement is a
// scheduling point (Y), each map iteration asks it for an order (Range), each
// goroutine, channel and lock operation goes through its cooperative scheduler.
//
// All decisions are a pure function of the Config installed by Do/Run, so one
// Config is one exactly repeatable execution.
package simrt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
)

// ---------------------------------------------------------------------------
// PRNG (splitmix64; identical on every Go version)
// ---------------------------------------------------------------------------

type Rand struct{ s uint64 }

//go:norace
func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

//go:norace
func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

//go:norace
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

//go:norace
func (r *Rand) Chance(p float64) bool { return r.Float() < p }

// ---------------------------------------------------------------------------
// Configuration of one simulated execution
// ---------------------------------------------------------------------------

// Map order modes. The default (0) is the canonical sorted order, i.e. "no
// fault"; everything else is an adversarial schedule of the map iterators.
const (
	OrderSorted  = 0
	OrderShuffle = 1
	OrderReverse = 2
	OrderRotate  = 3
)

// Span is a half-open interval of map-iteration indices.
type Span struct{ Lo, Hi int }

// Preempt is one explicit scheduling decision: at simulated step Step (counted
// over all tasks), task To is made to run.
type Preempt struct {
	Step int64 `json:"step"`
	To   int   `json:"to"`
}

// Config decides one execution completely.
type Config struct {
	Order    int       `json:"order"`          // map iteration mode
	Seed     uint64    `json:"seed"`           // seed of map orders, rand, clock
	Spans    []Span    `json:"spans"`          // iterations actually permuted (nil: all)
	Entropy  uint64    `json:"entropy"`        // seed of crypto/rand and global math/rand
	Budget   int64     `json:"budget"`         // step budget, 0 = none
	Gap      int       `json:"gap,omitempty"`  // mean preemption gap when recording
	Fair     bool      `json:"fair,omitempty"` // round-robin instead of random task choice
	Explicit bool      `json:"explicit"`       // replay Preempts instead of drawing
	Preempts []Preempt `json:"preempts,omitempty"`
}

// Outcome describes how an execution ended.
type Outcome struct {
	Panic    string // non-empty if a task panicked
	Stack    string
	OverRun  bool // step budget exhausted
	Deadlock bool
	Steps    int64
	Ranges   int       // map iterations with >= 2 keys
	Permuted int       // of those, given a non-canonical order
	Switches int       // context switches performed at a preemption point
	Hash     uint64    // hash of the decision log
	Preempts []Preempt // decisions taken (for replay)
	Tasks    int
}

type budgetExceeded struct{}
type deadlocked struct{}

var (
	active   bool
	cfg      Config
	cnt      int64 // countdown to the next slow path
	quantum  int64 // value cnt was loaded with
	steps    int64 // steps accounted before the current quantum
	rangeIdx int
	permuted int
	switches int
	hash     uint64
	rng      *Rand
	prLog    []Preempt // fixed capacity: append must not reallocate under the race detector
	prNext   int

	// SiteHits counts, per instrumented map-iteration site, how often an
	// iteration over at least two keys was permuted.
	SiteHits [8192]int64
	// Totals over the process.
	TotalSteps, TotalRanges, TotalPermuted, TotalSwitches int64
)

const idleQuantum = math.MaxInt64 / 4

//go:norace
func init() { cnt = idleQuantum; quantum = idleQuantum }

// Y is inserted before every statement of the code under test.
//
//go:norace
func Y() {
	cnt--
	if cnt < 0 {
		slow()
	}
}

//go:norace
func reload(n int64) {
	if n < 0 {
		n = 0
	}
	quantum = n
	cnt = n
}

//go:norace
func now() int64 {
	return steps + (quantum - cnt)
}

// Steps returns the simulated clock (statements executed) of the current run.
//
//go:norace
func Steps() int64 {
	if cnt < 0 {
		return steps + quantum
	}
	return now()
}

//go:norace
func fold(v uint64) { hash = Mix(hash^v, v) }

//go:norace
func slow() {
	steps += quantum
	reload(0)
	if !active {
		reload(idleQuantum)
		return
	}
	if cfg.Budget > 0 && steps >= cfg.Budget {
		// Again before long: fmt swallows what is thrown inside a String method.
		reload(997)
		panic(budgetExceeded{})
	}
	if len(events) > 0 {
		fireEvents()
	}
	if sched != nil {
		sched.tick()
	}
	reload(nextGap())
}

//go:norace
func nextGap() int64 {
	rem := int64(idleQuantum)
	if cfg.Budget > 0 {
		rem = cfg.Budget - steps
		if rem < 1 {
			rem = 1
		}
	}
	if len(events) > 0 {
		if g := nextEvent(); g < rem {
			rem = g
		}
	}
	if sched != nil {
		if g := sched.gap(); g < rem {
			rem = g
		}
	}
	return rem
}

//go:norace
func begin(c Config) {
	active = true
	sched, chans = nil, nil
	cfg = c
	steps, rangeIdx, permuted, switches, hash = 0, 0, 0, 0, 0
	rng = NewRand(Mix(c.Seed, 77))
	prLog, prNext = make([]Preempt, 0, 1<<14), 0
	ptrReset()
	resetEnv(c)
	reload(nextGap())
}

//go:norace
func finish(o *Outcome) {
	if cnt >= 0 {
		steps = now()
	} else {
		steps += quantum
	}
	o.Steps, o.Ranges, o.Permuted, o.Switches, o.Hash = steps, rangeIdx, permuted, switches, Mix(hash, uint64(steps))
	o.Preempts = append([]Preempt(nil), prLog...)
	TotalSteps += steps
	TotalRanges += int64(rangeIdx)
	TotalPermuted += int64(permuted)
	TotalSwitches += int64(switches)
	active = false
	events = nil
	sched = nil
	steps = 0
	reload(idleQuantum)
}

// Snapshot describes the running simulation; it is called by the running task
// when the simulated process ends before its tasks do.
//
//go:norace
func Snapshot() (o Outcome) {
	if sched != nil {
		o.Tasks = len(sched.tasks)
	}
	o.Steps, o.Ranges, o.Permuted, o.Switches = Steps(), rangeIdx, permuted, switches
	o.Hash = Mix(hash, uint64(o.Steps))
	o.Preempts = append([]Preempt(nil), prLog...)
	return o
}

//go:norace
func record(o *Outcome, r any) {
	switch v := r.(type) {
	case nil:
	case budgetExceeded:
		o.OverRun = true
	case deadlocked:
		o.Deadlock = true
	default:
		if o.Panic == "" {
			o.Panic = fmt.Sprint(v)
			if re, ok := v.(runtime.Error); ok {
				o.Panic = "runtime error: " + strings.TrimPrefix(re.Error(), "runtime error: ")
			}
			o.Stack = string(debug.Stack())
		}
	}
}

// Do runs fn alone under c on the calling goroutine.
func Do(c Config, fn func()) (o Outcome) {
	begin(c)
	o.Tasks = 1
	soloOut = &o
	func() {
		defer func() { record(&o, recover()) }()
		fn()
	}()
	soloOut = nil
	if sched != nil {
		sched.join(&o)
	}
	finish(&o)
	return o
}
