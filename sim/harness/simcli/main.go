// Command simcli simulates whole processes: the real pap and abnf-gen programs
// run over a simulated file system, standard streams, signals and entropy. Every
// simulated process is a process of its own.
package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	genmain "github.com/pandatix/go-abnf/cmd/abnf-gen"
	papmain "github.com/pandatix/go-abnf/cmd/pap"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	shimos "github.com/pandatix/go-abnf/zsim/shim/os"
	"github.com/pandatix/go-abnf/zsim/simrt"
	"github.com/pandatix/go-abnf/zsim/simrt/world"
)

var props []*h.Prop

func main() { h.Main(props) }

// proc is how a simulated process ended.
type proc struct {
	Code      int
	Stdout    string
	Stderr    string
	Files     map[string]string
	Counts    map[string]int
	Injected  []world.Fault
	Delivered int
	At        int64 // step of the last signal
	Steps     int64
	Panic     string
	Hang      bool
	Preempts  []simrt.Preempt
}

const processBudget = 30_000_000

// runProcess runs one program to its end. It does not return when the program
// exits by itself.
func runProcess(program string, sc *h.Scenario, pl h.Plan, c *h.Ctx) []string {
	files := map[string][]byte{"/g.abnf": []byte(sc.Grammars[0]), "/old.go": []byte("package old\n")}
	w := world.New(sc.Args, []byte(sc.Grammars[0]), files, pl.Faults)
	shimos.Args = sc.Args
	pack := func(p proc) []string {
		p.Stdout, p.Stderr = w.Stdout.String(), w.Stderr.String()
		p.Files = map[string]string{}
		for _, n := range w.Names() {
			b, _ := w.File(n)
			p.Files[n] = string(b)
		}
		p.Counts, p.Injected, p.Delivered, p.At = w.Counts(), w.Injected, w.Delivered, w.DeliveredAt
		for _, f := range w.Injected {
			c.Fault(f.Op + " " + f.Target + " " + f.Kind)
		}
		if w.Delivered > 0 {
			c.Fault("signal")
		}
		b, _ := json.Marshal(p)
		return []string{string(b)}
	}
	w.Exit = func(code int) {
		s := simrt.Snapshot()
		c.ExitChild(pack(proc{Code: code, Steps: s.Steps, Preempts: s.Preempts}), nil)
	}
	for _, s := range pl.Signals {
		term := s.Term
		simrt.At(s.Step, func() { world.Deliver(term) })
	}
	cfg := pl.Sched
	cfg.Budget = processBudget
	o := c.Par(cfg, func() {
		if program == "pap" {
			papmain.Main()
		} else {
			genmain.Main()
		}
		w.Exit(0)
	})
	return pack(proc{Code: 2, Steps: o.Steps, Panic: o.Panic, Hang: o.OverRun || o.Deadlock, Preempts: o.Preempts})
}

func spawn(c *h.Ctx, prop string, sc *h.Scenario, pl h.Plan) (*proc, *h.Violation) {
	s := sc.Clone()
	s.Plans = []h.Plan{pl}
	co, v := c.Spawn(prop, "run", s)
	if v != nil {
		return nil, v
	}
	var p proc
	if json.Unmarshal([]byte(co.Out[0]), &p) != nil {
		panic("harness: bad child output")
	}
	return &p, nil
}

func planText(pl h.Plan) string {
	var out []string
	for _, f := range pl.Faults {
		out = append(out, fmt.Sprintf("%s of %s number %d: %s after %d bytes", f.Op, f.Target, f.K, f.Kind, f.N))
	}
	for _, s := range pl.Signals {
		out = append(out, fmt.Sprintf("signal (term=%v) at step %d", s.Term, s.Step))
	}
	return strings.Join(out, "; ")
}

var errKinds = map[string][]string{
	"read": {"EIO", "EBADF"}, "write": {"EIO", "ENOSPC", "EPIPE", "EBADF", "EDQUOT"}, "open": {"ENOENT", "EACCES", "EIO"},
	"create": {"EACCES", "ENOSPC", "EROFS"}, "close": {"EIO", "ENOSPC", "EDQUOT"}, "sync": {"EIO"}, "rename": {"EIO", "EACCES"}, "remove": {"EIO"},
}

// plans enumerates the fault points of a process from what it did without
// faults: every call, with an error (and a number of bytes that still went
// through), and for reads a legal short read; then seeded combinations and
// signals.
func plans(r *simrt.Rand, base *proc, signals int, gap bool) []h.Plan {
	var out []h.Plan
	sched := func() simrt.Config {
		c := simrt.Config{Seed: r.Uint64()}
		if gap {
			c.Gap = []int{5, 20, 60, 300}[r.Intn(4)]
			c.Fair = r.Chance(.5)
			c.Gap = max(c.Gap, int(base.Steps/8000)) // the schedule log is bounded
		}
		return c
	}
	var keys []string
	for k := range base.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	part := func(target, op string) int {
		size := 1 + len(base.Stdout)
		if target == "stdin" || (target == "file" && op == "read") {
			size = 700
		}
		if target == "file" && op != "read" {
			size = 4000
		}
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return 1 + r.Intn(3)
		}
		return r.Intn(size)
	}
	var points []world.Fault
	for _, key := range keys {
		op, target, _ := strings.Cut(key, ":")
		n := base.Counts[key]
		for k := 0; k < n; k++ {
			if n > 6 && k > 2 && k < n-2 && r.Chance(.7) {
				continue
			}
			ks := errKinds[op]
			if len(ks) == 0 {
				continue
			}
			points = append(points, world.Fault{Op: op, Target: target, K: k, Kind: ks[r.Intn(len(ks))], N: part(target, op)})
			if op == "read" {
				points = append(points, world.Fault{Op: op, Target: target, K: k, Kind: "short", N: 1 + r.Intn(40)})
			}
		}
	}
	for _, f := range points {
		out = append(out, h.Plan{Faults: []world.Fault{f}, Sched: sched()})
	}
	// many short reads
	var short []world.Fault
	for k := 0; k < 40; k++ {
		for _, t := range []string{"stdin", "file"} {
			short = append(short, world.Fault{Op: "read", Target: t, K: k, Kind: "short", N: 1 + r.Intn(30)})
		}
	}
	out = append(out, h.Plan{Faults: short, Sched: sched()})
	// pairs
	for i := 0; i < 2 && len(points) > 1; i++ {
		a, b := points[r.Intn(len(points))], points[r.Intn(len(points))]
		out = append(out, h.Plan{Faults: []world.Fault{a, b}, Sched: sched()})
	}
	for i := 0; i < signals; i++ {
		p := h.Plan{Sched: sched()}
		for k := 0; k < 1+r.Intn(2); k++ {
			at := int64(r.Uint64() % uint64(base.Steps+40))
			if r.Chance(.3) {
				at = base.Steps - int64(r.Intn(60)) // around the last write
			}
			if at < 0 {
				at = 0
			}
			p.Signals = append(p.Signals, world.Signal{Step: at, Term: r.Chance(.5)})
		}
		if r.Chance(.3) && len(points) > 0 {
			p.Faults = []world.Fault{points[r.Intn(len(points))]}
		}
		out = append(out, p)
	}
	return out
}

// expectation is what the library answers for the command line.
type expectation struct {
	OK   bool
	Out  []string // any of these (normalised)
	Free bool     // the command line itself is at fault: no expectation
}

var uuid = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)

// norm names node identities by first appearance.
func norm(s string) string {
	m := map[string]string{}
	return uuid.ReplaceAllStringFunc(s, func(x string) string {
		if m[x] == "" {
			m[x] = fmt.Sprintf("node%d", len(m))
		}
		return m[x]
	})
}

func abnfOpts(sc *h.Scenario) []goabnf.ABNFOption {
	var o []goabnf.ABNFOption
	if v, ok := sc.Par["semval"]; ok {
		o = append(o, goabnf.WithValidation(v == 1))
	}
	return o
}

// judge compares a process under a plan with the fault-free one. out is the
// delivered output of a process.
func judge(base, p *proc, pl h.Plan, out func(*proc) string) *h.Violation {
	switch {
	case p.Panic != "":
		return h.Viol("panic", "the process panicked: %s", p.Panic)
	case p.Hang:
		return h.Viol("hang", "the process did not end within %d steps", processBudget)
	}
	hard, stderr := 0, false
	for _, f := range p.Injected {
		if f.Kind != "short" && f.Target != "stderr" {
			hard++
		}
		if f.Target == "stderr" {
			stderr = true
		}
	}
	if p.Code == 0 {
		if base.Code != 0 {
			return h.Viol("verdict", "exit status 0, but %d without faults", base.Code)
		}
		if a, b := out(base), out(p); a != b {
			return h.Viol("incomplete-output", "exit status 0 with %d bytes of output %q instead of %d bytes", len(b), tailOf(b), len(a))
		}
		return nil
	}
	if p.Delivered == 0 && strings.TrimSpace(p.Stderr) == "" && !stderr {
		return h.Viol("no-diagnostic", "exit status %d without a diagnostic on standard error", p.Code)
	}
	if hard == 0 && p.Delivered == 0 && p.Code != base.Code {
		return h.Viol("spurious-failure", "exit status %d (%q), but %d without faults", p.Code, p.Stderr, base.Code)
	}
	// An interrupt ends the process without waiting for the work to finish.
	return nil
}

func tailOf(s string) string {
	if len(s) > 60 {
		return "..." + s[len(s)-60:]
	}
	return s
}
