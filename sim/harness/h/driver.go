package h

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/pandatix/go-abnf/zsim/simrt"
	"github.com/pandatix/go-abnf/zsim/simrt/world"
)

// Bytes is a byte string that is readable in JSON.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}
func (b *Bytes) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*b = Bytes(u)
	return err
}

// Op is one step of a multi-step history.
type Op struct {
	Kind string `json:"kind"`
	G    int    `json:"g"`           // index of a grammar slot
	In   int    `json:"in"`          // index of an input
	N    int64  `json:"n,omitempty"` // seed, budget, ...
	Tape Bytes  `json:"tape,omitempty"`
	Rule string `json:"rule,omitempty"`
}

// Scenario is the explicit, self-contained description of one simulated run:
// workload, schedules and faults. Together with the code it determines the run.
type Scenario struct {
	Prop     string            `json:"prop"`
	Grammars []string          `json:"grammars"`
	Rule     string            `json:"rule"`
	Inputs   []Bytes           `json:"inputs"`
	Scheds   []simrt.Config    `json:"scheds"`
	Ops      []Op              `json:"ops,omitempty"`
	Tasks    [][]Op            `json:"tasks,omitempty"`
	Args     []string          `json:"args,omitempty"`
	Plans    []Plan            `json:"plans,omitempty"`
	Par      map[string]int64  `json:"par,omitempty"`
	Str      map[string]string `json:"str,omitempty"`
	Note     string            `json:"note,omitempty"`
}

// Plan is what the environment does to one simulated process.
type Plan struct {
	Faults  []world.Fault  `json:"faults,omitempty"`
	Signals []world.Signal `json:"signals,omitempty"`
	Sched   simrt.Config   `json:"sched"`
}

func (s *Scenario) Clone() *Scenario {
	b, _ := json.Marshal(s)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func Viol(class, f string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...)}
}

// Ctx accumulates what a run covered.
type Ctx struct {
	Stats
	hashes  map[uint64]bool
	hash    uint64
	nontriv bool
	quiet   bool
}

type Stats struct {
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Ranges   int64            `json:"ranges"`
	Permuted int64            `json:"permuted"`
	Switches int64            `json:"switches"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Sites    map[int]int64    `json:"sites"`
	Samples  []string         `json:"samples"`
	MaxTasks int              `json:"max_tasks"`
	MaxSteps int64            `json:"max_steps"` // longest single simulation
}

func NewCtx() *Ctx {
	return &Ctx{Stats: Stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Sites: map[int]int64{}}, hashes: map[uint64]bool{}}
}

func (c *Ctx) Probe(n string) { c.Probes[n]++ }
func (c *Ctx) Fault(n string) { c.Faults[n]++; c.nontriv = true }
func (c *Ctx) Hash(v uint64)  { c.hash = simrt.Mix(c.hash^v, v) }
func (c *Ctx) HashS(s string) {
	for i := 0; i < len(s); i++ {
		c.hash = c.hash*1099511628211 ^ uint64(s[i])
	}
}

const defaultBudget = 300_000_000

// Do runs fn as the only task under cfg.
func (c *Ctx) Do(cfg simrt.Config, fn func()) simrt.Outcome {
	if cfg.Budget == 0 {
		cfg.Budget = defaultBudget
	}
	o := simrt.Do(cfg, fn)
	c.account(o)
	return o
}

// Par runs the tasks concurrently under cfg.
func (c *Ctx) Par(cfg simrt.Config, fns ...func()) simrt.Outcome {
	if cfg.Budget == 0 {
		cfg.Budget = defaultBudget
	}
	o := simrt.Run(cfg, fns...)
	c.account(o)
	return o
}

func (c *Ctx) account(o simrt.Outcome) {
	c.Steps += o.Steps
	if o.Steps > c.MaxSteps {
		c.MaxSteps = o.Steps
	}
	c.Ranges += int64(o.Ranges)
	c.Permuted += int64(o.Permuted)
	c.Switches += int64(o.Switches)
	if o.Tasks > c.MaxTasks {
		c.MaxTasks = o.Tasks
	}
	if o.Permuted > 0 {
		c.Faults["map-order-permutation"] += int64(o.Permuted)
		c.nontriv = true
	}
	if o.Switches > 0 {
		c.Faults["preemption"] += int64(o.Switches)
		c.nontriv = true
	}
	c.Hash(o.Hash)
}

// Bad turns an abnormal outcome into a violation.
func Bad(o simrt.Outcome, what string) *Violation {
	switch {
	case o.Panic != "":
		return Viol("panic", "%s panicked: %s\n%s", what, o.Panic, trimStack(o.Stack))
	case o.OverRun:
		return Viol("no-progress", "%s did not finish within %d simulated steps", what, o.Steps)
	case o.Deadlock:
		return Viol("deadlock", "%s deadlocked", what)
	}
	return nil
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-abnf") && !strings.Contains(l, "zsim") && strings.HasPrefix(l, "github.com") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// Prop is one property under simulation.
type Prop struct {
	ID       string
	Gen      func(r *simrt.Rand, idx int, thorough bool) *Scenario
	Exec     func(sc *Scenario, c *Ctx) *Violation
	Quick    int // runs in the quick tier
	Thorough int
	Rule     string // evidence: how evaluations and distinct are counted
	Real     []string
	Stub     []string
	Level    string
	// Child runs one simulated process of a scenario in a process of its own.
	Child func(mode string, sc *Scenario, c *Ctx) ([]string, *Violation)
	// Pin turns the random schedule of a failing scenario into explicit decisions.
	Pin func(sc *Scenario) *Scenario
}

type childIn struct {
	Prop string
	Mode string
	Sc   *Scenario
}

// ChildOut is what a simulated process reported.
type ChildOut struct {
	Out   []string
	Viol  *Violation
	Stats Stats
	Hash  uint64
	Non   bool
}

// Spawn runs the scenario as one process: nothing survives from other runs.
// The second result is the crash, if the process died.
func (c *Ctx) Spawn(prop, mode string, sc *Scenario) (*ChildOut, *Violation) {
	exe, _ := os.Executable()
	in, _ := json.Marshal(childIn{prop, mode, sc})
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-child")
	cmd.Env = append(raceEnv(), "GOMAXPROCS=2")
	cmd.Stdin = bytes.NewReader(in)
	var ob bytes.Buffer
	var eb tail
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	var out ChildOut
	if i := bytes.LastIndex(ob.Bytes(), []byte("\nCHILD ")); i >= 0 && json.Unmarshal(ob.Bytes()[i+7:], &out) == nil {
		merge(&c.Stats, &out.Stats)
		c.Hash(out.Hash)
		c.nontriv = c.nontriv || out.Non
		if out.Viol != nil && out.Viol.Class == "data-race" {
			out.Viol.Detail += "\n" + raceReport(eb.String())
		}
		return &out, nil
	}
	if ctx.Err() != nil {
		// Real time ran out, not simulated time: no verdict.
		c.Probe("skipped: a simulated process took too long in real time")
		return nil, &Violation{Class: Abandoned}
	}
	cls := crashClass(eb.String())
	if cls == "" {
		panic(fmt.Sprintf("harness: child %s/%s failed: %v\n%s\n%s", prop, mode, err, ob.String(), eb.String()))
	}
	return nil, Viol("child-"+cls, "a process running the scenario died: %s", firstLine(eb.String()))
}

// raceReport keeps the functions of the code under test in a race report.
func raceReport(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, " by goroutine") || strings.Contains(t, " by main goroutine") || (strings.HasPrefix(t, "github.com/pandatix/go-abnf") && !strings.Contains(t, "zsim")) {
			if i := strings.Index(t, " at 0x"); i > 0 {
				t = t[:i]
			}
			out = append(out, t)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Abandoned is the class of a run without a verdict.
const Abandoned = "abandoned"

func doChild(props []*Prop) int {
	b, _ := io.ReadAll(os.Stdin)
	var in childIn
	if err := json.Unmarshal(b, &in); err != nil {
		return 3
	}
	p := findProp(props, in.Prop)
	c := NewCtx()
	o := ChildOut{}
	o.Out, o.Viol = p.Child(in.Mode, in.Sc, c)
	for i, k := range simrt.SiteHits {
		if k > 0 {
			c.Sites[i] = k
		}
	}
	o.report(c)
	return 0
}

func (o *ChildOut) report(c *Ctx) {
	o.Stats, o.Hash, o.Non = c.Stats, c.hash, c.nontriv
	w, _ := json.Marshal(o)
	fmt.Printf("\nCHILD %s\n", w)
}

// ExitChild ends a simulated process from inside its simulation.
func (c *Ctx) ExitChild(out []string, v *Violation) {
	c.account(simrt.Snapshot())
	for i, k := range simrt.SiteHits {
		if k > 0 {
			c.Sites[i] = k
		}
	}
	o := ChildOut{Out: out, Viol: v}
	o.report(c)
	os.Exit(0)
}

func Schedules(r *simrt.Rand, n int) []simrt.Config {
	var out []simrt.Config
	for i := 0; i < n; i++ {
		c := simrt.Config{Seed: r.Uint64(), Entropy: r.Uint64()}
		if i > 0 || r.Chance(.5) {
			c.Order = []int{simrt.OrderShuffle, simrt.OrderShuffle, simrt.OrderReverse, simrt.OrderRotate}[r.Intn(4)]
		}
		out = append(out, c)
	}
	return out
}

// RunSeed derives the seed of run idx; it is the only entropy of the run.
func RunSeed(seed uint64, prop string, idx int) uint64 {
	h := seed
	for _, c := range prop {
		h = simrt.Mix(h, uint64(c))
	}
	return simrt.Mix(h, uint64(idx))
}

func genScenario(p *Prop, seed uint64, idx int, thorough bool) *Scenario {
	r := simrt.NewRand(RunSeed(seed, p.ID, idx))
	sc := p.Gen(r, idx, thorough)
	if sc != nil {
		sc.Prop = p.ID
		// The run executes the JSON form, so a replay executes the same bytes.
		sc = sc.Clone()
	}
	return sc
}

type workerOut struct {
	Stats    Stats
	Viol     *Violation
	ViolIdx  int
	LogHash  uint64
	TimedOut bool
	Skipped  int64
}

type replayFile struct {
	Property  string     `json:"property"`
	Seed      uint64     `json:"verif_seed"`
	Index     int        `json:"run_index"`
	Violation *Violation `json:"violation"`
	Minimised bool       `json:"minimised"`
	Shrinks   int        `json:"shrink_steps"`
	Scenario  *Scenario  `json:"scenario"`
	// History: the violation needs earlier runs in the same process; they are
	// re-executed from their seeds (runs From, From+Stride, ... Index).
	History *history `json:"history,omitempty"`
}

type history struct {
	From     int  `json:"from"`
	Stride   int  `json:"stride"`
	Thorough bool `json:"thorough"`
}

// execute runs the scenario of a replay file, with its history if it has one.
func (rf *replayFile) execute(p *Prop) *Violation {
	if h := rf.History; h != nil {
		for i := h.From; i < rf.Index; i += h.Stride {
			if sc := genScenario(p, rf.Seed, i, h.Thorough); sc != nil {
				p.Exec(sc, NewCtx())
			}
		}
	}
	return p.exec(rf.Scenario, NewCtx())
}

func (p *Prop) exec(sc *Scenario, c *Ctx) *Violation {
	v := p.Exec(sc, c)
	if v != nil && v.Class == Abandoned {
		return nil
	}
	return v
}

// Main is the entry point of every harness binary.
func Main(props []*Prop) {
	var (
		prop     = flag.String("prop", "", "property id")
		seed     = flag.Uint64("seed", 1, "seed")
		tier     = flag.String("tier", "quick", "quick|thorough")
		workers  = flag.Int("workers", runtime.NumCPU(), "worker processes")
		wall     = flag.Duration("wall", 10*time.Minute, "wall-clock cap")
		runs     = flag.Int("runs", 0, "override the number of runs")
		worker   = flag.Int("worker", -1, "internal: worker number")
		from     = flag.Int("from", 0, "internal: first run")
		evidence = flag.String("evidence", "", "evidence file to write")
		replays  = flag.String("replays", "", "directory for replay files")
		known    = flag.String("known", "", "known findings file")
		replay   = flag.String("replay", "", "replay a file")
		minimize = flag.String("minimize", "", "internal: minimise a replay file")
		show     = flag.Int("show", -1, "print the scenario of a run")
		hashes   = flag.String("hashes", "", "internal: file for distinct hashes")
		sitesF   = flag.String("sites", "", "instrumented map iteration sites")
		child    = flag.Bool("child", false, "internal: run one simulated process")
		det      = flag.Bool("det", false, "print only the log hash of the batch (determinism check)")
	)
	flag.Parse()
	debug.SetMaxStack(1 << 29)
	var p *Prop
	if *child {
		os.Exit(doChild(props))
	}
	if *replay != "" {
		os.Exit(doReplay(props, *replay))
	}
	if *minimize != "" {
		os.Exit(doMinimize(props, *minimize))
	}
	for _, q := range props {
		if q.ID == *prop {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	thorough := *tier == "thorough"
	n := p.Quick
	if thorough {
		n = p.Thorough
	}
	if *runs > 0 {
		n = *runs
	}
	if *show >= 0 {
		b, _ := json.MarshalIndent(genScenario(p, *seed, *show, thorough), "", " ")
		fmt.Println(string(b))
		return
	}
	if *worker >= 0 {
		runWorker(p, *seed, thorough, *from, *worker, *workers, n, *wall, *hashes)
		return
	}
	os.Exit(master(p, *seed, *tier, *workers, n, *wall, *evidence, *replays, *known, *sitesF, *det))
}

func runWorker(p *Prop, seed uint64, thorough bool, from, w, stride, n int, wall time.Duration, hashFile string) {
	start := time.Now()
	c := NewCtx()
	out := workerOut{ViolIdx: -1}
	prog := bufio.NewWriter(os.Stdout)
	for idx := from; idx < n; idx += stride {
		if time.Since(start) > wall {
			out.TimedOut = true
			break
		}
		if stopBefore(hashFile, idx) {
			break
		}
		fmt.Fprintf(prog, "S %d\n", idx)
		prog.Flush()
		sc := genScenario(p, seed, idx, thorough)
		if sc == nil {
			out.Skipped++
			continue
		}
		c.hash, c.nontriv = uint64(idx), false
		b, _ := json.Marshal(sc)
		c.HashS(string(b))
		v := p.exec(sc, c)
		c.Runs++
		if v != nil {
			c.HashS(v.Class + v.Detail)
		}
		out.LogHash ^= simrt.Mix(c.hash, uint64(idx))
		if c.nontriv {
			c.hashes[c.hash] = true
		}
		if len(c.Samples) < 4 && c.nontriv && idx < 64*stride {
			s := string(b)
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			c.Samples = append(c.Samples, fmt.Sprintf("run %d: %s", idx, s))
		}
		if v != nil {
			out.Viol, out.ViolIdx = v, idx
			if hashFile != "" {
				os.WriteFile(filepath.Join(filepath.Dir(hashFile), fmt.Sprintf("stop%d", idx)), nil, 0o644)
			}
			break
		}
	}
	for i, k := range simrt.SiteHits {
		if k > 0 {
			c.Sites[i] += k
		}
	}
	out.Stats = c.Stats
	if hashFile != "" {
		var b bytes.Buffer
		for h := range c.hashes {
			binary.Write(&b, binary.LittleEndian, h)
		}
		os.WriteFile(hashFile, b.Bytes(), 0o644)
	}
	b, _ := json.Marshal(out)
	fmt.Fprintf(prog, "E %s\n", b)
	prog.Flush()
}

// stopBefore reports whether some worker found a violation in a run before idx;
// later runs cannot change the outcome of the batch.
func stopBefore(hashFile string, idx int) bool {
	if hashFile == "" {
		return false
	}
	es, _ := filepath.Glob(filepath.Join(filepath.Dir(hashFile), "stop*"))
	for _, e := range es {
		if k, err := strconv.Atoi(strings.TrimPrefix(filepath.Base(e), "stop")); err == nil && k < idx {
			return true
		}
	}
	return false
}

func raceEnv() []string {
	env := os.Environ()
	return append(env, "GOGC=400", "GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0 history_size=5")
}

func master(p *Prop, seed uint64, tier string, workers, n int, wall time.Duration, evidence, replays, known, sitesF string, det bool) int {
	start := time.Now()
	fmt.Printf("sim: property=%s seed=%d tier=%s runs=%d workers=%d\n", p.ID, seed, tier, n, workers)
	tmp, err := os.MkdirTemp("", "simw")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	var mu sync.Mutex
	total := NewCtx()
	var firstViol *Violation
	firstIdx := -1
	timedOut := false
	var logHash uint64
	var skipped int64
	var hashFiles []string
	fatal := ""
	// Once a run has failed, the runs below it that are still going have a limited
	// time to fail too: a change that makes the code loop must not use up the
	// time the answer has to be given in.
	running := map[int]*os.Process{}
	var given bool
	failed := func() { // with mu held
		if given {
			return
		}
		given = true
		time.AfterFunc(60*time.Second, func() {
			mu.Lock()
			defer mu.Unlock()
			for _, pr := range running {
				pr.Kill()
			}
		})
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := w
			for part := 0; ; part++ {
				hf := filepath.Join(tmp, fmt.Sprintf("h%d.%d", w, part))
				args := []string{"-prop", p.ID, "-seed", fmt.Sprint(seed), "-tier", tier, "-worker", fmt.Sprint(w), "-workers", fmt.Sprint(workers), "-from", fmt.Sprint(from), "-runs", fmt.Sprint(n), "-wall", (wall - time.Since(start)).String(), "-hashes", hf}
				cmd := exec.Command(exe, args...)
				cmd.Env = raceEnv()
				var errb tail
				cmd.Stderr = &errb
				pipe, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					mu.Lock()
					fatal = err.Error()
					mu.Unlock()
					return
				}
				mu.Lock()
				running[w] = cmd.Process
				mu.Unlock()
				last := -1
				var res *workerOut
				rd := bufio.NewReaderSize(pipe, 1<<20)
				for {
					l, err := rd.ReadString('\n')
					if strings.HasPrefix(l, "S ") {
						last, _ = strconv.Atoi(strings.TrimSpace(l[2:]))
					} else if strings.HasPrefix(l, "E ") {
						res = &workerOut{}
						if e := json.Unmarshal([]byte(l[2:]), res); e != nil {
							res = nil
						}
					}
					if err != nil {
						break
					}
				}
				mu.Lock()
				delete(running, w)
				mu.Unlock()
				werr := cmd.Wait()
				mu.Lock()
				if res == nil {
					// The process died inside run `last`: a fatal error of the code
					// under test (stack overflow, concurrent map access) or of the
					// harness. Decide by the crash message.
					msg := errb.String()
					cls := crashClass(msg)
					if cls == "" {
						if fatal == "" {
							fatal = fmt.Sprintf("worker %d died in run %d: %v\n%s", w, last, werr, msg)
						}
						mu.Unlock()
						return
					}
					os.WriteFile(filepath.Join(tmp, fmt.Sprintf("stop%d", last)), nil, 0o644)
					if firstIdx < 0 || last < firstIdx {
						firstIdx, firstViol = last, Viol(cls, "the process died: %s", firstLine(msg))
					}
					failed()
					mu.Unlock()
					return
				}
				merge(&total.Stats, &res.Stats)
				logHash ^= res.LogHash
				skipped += res.Skipped
				hashFiles = append(hashFiles, hf)
				if res.TimedOut {
					timedOut = true
				}
				if res.Viol != nil && (firstIdx < 0 || res.ViolIdx < firstIdx) {
					firstIdx, firstViol = res.ViolIdx, res.Viol
				}
				if res.Viol != nil {
					failed()
				}
				mu.Unlock()
				return
			}
		}(w)
	}
	wg.Wait()
	if det {
		fmt.Printf("LOGHASH %016x runs=%d\n", logHash, total.Runs)
		return 0
	}
	distinct := map[uint64]bool{}
	for _, f := range hashFiles {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			distinct[binary.LittleEndian.Uint64(b[i:])] = true
		}
	}
	code := 0
	var knownHit []string
	if fatal != "" && firstViol == nil {
		fmt.Fprintln(os.Stderr, "sim: harness failure:", fatal)
		return 3
	}
	var replayPath string
	if firstViol != nil {
		sc := genScenario(p, seed, firstIdx, tier == "thorough")
		rf := &replayFile{Property: p.ID, Seed: seed, Index: firstIdx, Violation: firstViol, Scenario: sc}
		os.MkdirAll(replays, 0o755)
		replayPath = filepath.Join(replays, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, seed, firstIdx))
		writeReplay(replayPath, rf)
		// Minimise in a process of its own, then confirm in a fresh one.
		mc := exec.Command(exe, "-minimize", replayPath)
		mc.Env = raceEnv()
		mc.Stderr = io.Discard
		if mc.Start() == nil { // it saves every step, so that it can be stopped at any time
			t := time.AfterFunc(150*time.Second, func() { mc.Process.Kill() })
			mc.Wait()
			t.Stop()
		}
		rc := exec.Command(exe, "-replay", replayPath)
		rc.Env = raceEnv()
		ro, _ := rc.CombinedOutput()
		if !strings.Contains(string(ro), "REPRODUCED") {
			// fall back to the unminimised scenario
			writeReplay(replayPath, rf)
			tryFile := func() bool {
				rc := exec.Command(exe, "-replay", replayPath)
				rc.Env = raceEnv()
				ro, _ = rc.CombinedOutput()
				return strings.Contains(string(ro), "REPRODUCED")
			}
			if !tryFile() {
				// The run depends on what earlier runs left behind in its process:
				// replay that process, from the latest start that still fails.
				first := firstIdx % workers
				rf.History = &history{From: first, Stride: workers, Thorough: tier == "thorough"}
				writeReplay(replayPath, rf)
				if !tryFile() {
					fmt.Fprintf(os.Stderr, "sim: run %d failed but does not replay (harness nondeterminism): %s: %s\n%s", firstIdx, firstViol.Class, firstViol.Detail, ro)
					return 3
				}
				good := first
				for step := 1; good+step*workers < firstIdx; step *= 2 {
					rf.History.From = firstIdx - step*workers
					writeReplay(replayPath, rf)
					if tryFile() {
						good = rf.History.From
						break
					}
				}
				rf.History.From = good
				rf.Violation.Detail += fmt.Sprintf(" (after the %d runs before it in the same process)", (firstIdx-good)/workers)
				writeReplay(replayPath, rf)
			}
		}
		b, _ := os.ReadFile(replayPath)
		json.Unmarshal(b, rf)
		fmt.Printf("sim: run %d violates %s (%s): %s\n", firstIdx, p.ID, rf.Violation.Class, rf.Violation.Detail)
		code = 1
	}
	wallS := time.Since(start).Seconds()
	if evidence != "" {
		writeEvidence(p, seed, tier, total, len(distinct), wallS, evidence, sitesF, timedOut, skipped, firstViol, knownHit, workers)
	}
	fmt.Printf("sim: %d runs, %d simulated steps, %d permuted map iterations, %d preemptions, %d distinct schedules, longest simulation %d steps, in %.1fs (%.0f runs/h)%s\n",
		total.Runs, total.Steps, total.Permuted, total.Switches, len(distinct), total.MaxSteps, wallS, float64(total.Runs)/wallS*3600, map[bool]string{true: " [wall cap reached]"}[timedOut])
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
	}
	return code
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 8192 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "stack") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}

func crashClass(msg string) string {
	switch {
	case strings.Contains(msg, "stack overflow") || strings.Contains(msg, "goroutine stack exceeds"):
		return "stack-overflow"
	case strings.Contains(msg, "concurrent map"):
		return "concurrent-map-access"
	case strings.Contains(msg, "out of memory"):
		return "out-of-memory"
	}
	return ""
}

func merge(a, b *Stats) {
	a.Runs += b.Runs
	a.Steps += b.Steps
	a.Ranges += b.Ranges
	a.Permuted += b.Permuted
	a.Switches += b.Switches
	a.MaxTasks = max(a.MaxTasks, b.MaxTasks)
	a.MaxSteps = max(a.MaxSteps, b.MaxSteps)
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
	for k, v := range b.Sites {
		a.Sites[k] += v
	}
	if len(a.Samples) < 6 {
		a.Samples = append(a.Samples, b.Samples...)
	}
}

func writeReplay(path string, rf *replayFile) {
	b, _ := json.MarshalIndent(rf, "", " ")
	if os.WriteFile(path+".new", b, 0o644) == nil {
		os.Rename(path+".new", path)
	}
}

func findProp(props []*Prop, id string) *Prop {
	for _, q := range props {
		if q.ID == id {
			return q
		}
	}
	return nil
}

func doReplay(props []*Prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := findProp(props, rf.Property)
	if p == nil {
		return 3
	}
	if strings.HasPrefix(rf.Violation.Class, "stack") || strings.HasPrefix(rf.Violation.Class, "concurrent-map") || strings.HasPrefix(rf.Violation.Class, "out-of") {
		if os.Getenv("SIM_REPLAY_CHILD") == "" {
			exe, _ := os.Executable()
			c := exec.Command(exe, "-replay", file)
			c.Env = append(raceEnv(), "SIM_REPLAY_CHILD=1")
			var eb tail
			c.Stderr = &eb
			c.Run()
			if crashClass(eb.String()) == rf.Violation.Class {
				fmt.Printf("REPRODUCED %s: %s\nVIOLATION property=%s replay=%s\n", rf.Violation.Class, firstLine(eb.String()), p.ID, file)
				return 1
			}
			fmt.Println("not reproduced")
			return 0
		}
	}
	v := rf.execute(p)
	if v == nil {
		fmt.Println("not reproduced: the property holds on this scenario")
		return 0
	}
	if v.Class == rf.Violation.Class {
		fmt.Printf("REPRODUCED %s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Detail, p.ID, file)
	} else {
		fmt.Printf("different violation %s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Detail, p.ID, file)
	}
	return 1
}

type evid struct {
	Property string         `json:"property"`
	Tier     string         `json:"tier"`
	Seed     uint64         `json:"seed"`
	Level    string         `json:"level"`
	Coverage map[string]any `json:"coverage"`
	WallS    float64        `json:"wall_s"`
	Notes    string         `json:"notes,omitempty"`
}

func writeEvidence(p *Prop, seed uint64, tier string, c *Ctx, distinct int, wallS float64, file, sitesF string, timedOut bool, skipped int64, v *Violation, known []string, workers int) {
	siteNames := map[int]string{}
	if b, err := os.ReadFile(sitesF); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) == 2 {
				id, _ := strconv.Atoi(f[0])
				siteNames[id] = f[1]
			}
		}
	}
	sites := map[string]int64{}
	for id, k := range c.Sites {
		n := siteNames[id]
		if n == "" {
			n = fmt.Sprintf("site %d", id)
		}
		sites[n] += k
	}
	var silent []string
	for id, n := range siteNames {
		if c.Sites[id] == 0 {
			silent = append(silent, n)
		}
	}
	sort.Strings(silent)
	cov := map[string]any{
		"evaluations":                        c.Runs,
		"distinct_nontrivial":                distinct,
		"rule":                               p.Rule,
		"samples":                            c.Samples,
		"runs_per_hour":                      int64(float64(c.Runs) / wallS * 3600),
		"simulated_steps":                    c.Steps,
		"simulated_time":                     "the simulated clock is the number of executed statements of the code under test",
		"faults_injected":                    c.Faults,
		"map_iterations_seen":                c.Ranges,
		"max_concurrent_tasks":               c.MaxTasks,
		"longest_simulation_steps":           c.MaxSteps,
		"reach_probes":                       c.Probes,
		"permuted_iterations_per_site":       sites,
		"map_sites_not_permuted_in_this_run": silent,
		"distinct_measure":                   "distinct hashes of (scenario, every map-order / preemption / fault decision, step counts) among runs in which at least one such decision differed from the default",
		"components_real":                    p.Real,
		"components_stubbed":                 p.Stub,
		"wall_cap_reached":                   timedOut,
		"scenarios_skipped":                  skipped,
		"workers":                            workers,
		"race_detector":                      simrt.RaceBuild,
		"violation":                          v,
		"known_findings_hit":                 known,
	}
	e := evid{Property: p.ID, Tier: tier, Seed: seed, Level: p.Level, Coverage: cov, WallS: wallS}
	if e.Level == "" {
		e.Level = "exploration"
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(file), 0o755)
	os.WriteFile(file, b, 0o644)
}
