package simrt

import (
	"reflect"
	"sync"
	"unsafe"
)

// The cooperative scheduler: every task is a real goroutine, but exactly one is
// ever runnable; which one is a seeded (or replayed) decision. Hand-offs are
// hidden from the race detector (raceDisable), so in a -race build the only
// happens-before edges are those the code under test creates itself: a data race
// is reported whenever two accesses are unordered by the code's own
// synchronisation, whatever the simulated schedule happened to be.

type task struct {
	id      int
	gate    chan struct{}
	done    bool
	waiting bool // blocked in a cooperative operation, polls when resumed
}

type scheduler struct {
	tasks         []*task
	cur           *task
	out           *Outcome
	end           chan struct{}
	wg            sync.WaitGroup
	aborted       any
	blockedRounds int
	roots         int // the tasks the simulation was started with
}

// soloOut is the outcome of the simulation run by Do.
var soloOut *Outcome

var sched *scheduler

//go:norace
func logPreempt(step int64, to int) {
	if len(prLog) < cap(prLog) {
		prLog = append(prLog, Preempt{step, to})
	}
}

//go:norace
func (s *scheduler) gap() int64 {
	if len(s.tasks) < 2 {
		return idleQuantum
	}
	if cfg.Explicit {
		for prNext < len(cfg.Preempts) && cfg.Preempts[prNext].Step <= steps {
			prNext++
		}
		if prNext < len(cfg.Preempts) {
			return cfg.Preempts[prNext].Step - steps
		}
		return idleQuantum
	}
	if cfg.Gap <= 0 || len(prLog) >= cap(prLog)-64 {
		return idleQuantum // schedule log full: run the rest without preemption
	}
	// Geometric-ish: mostly short gaps, sometimes long ones.
	g := 1 + rng.Intn(2*cfg.Gap)
	if rng.Intn(8) == 0 {
		g *= 16
	}
	return int64(g)
}

//go:norace
func (s *scheduler) runnable() []*task {
	var r []*task
	for _, t := range s.tasks {
		if !t.done {
			r = append(r, t)
		}
	}
	return r
}

// tick is a preemption point reached by the running task.
//
//go:norace
func (s *scheduler) tick() {
	if s.aborted != nil {
		panic(s.aborted)
	}
	if len(s.tasks) < 2 {
		return
	}
	var to *task
	if cfg.Explicit {
		if prNext < len(cfg.Preempts) && cfg.Preempts[prNext].Step == steps {
			id := cfg.Preempts[prNext].To
			prNext++
			if id >= 0 && id < len(s.tasks) {
				to = s.tasks[id]
			}
		}
	} else {
		r := s.runnable()
		if len(r) > 0 {
			to = r[rng.Intn(len(r))]
			if cfg.Fair {
				to = r[0]
				for _, t := range r {
					if t.id > s.cur.id {
						to = t
						break
					}
				}
			}
		}
	}
	if to == nil || to.done || to == s.cur {
		return
	}
	logPreempt(steps, to.id)
	s.switchTo(to)
}

// switchTo hands the token to another task and parks the caller.
//
//go:norace
func (s *scheduler) switchTo(to *task) {
	me := s.cur
	switches++
	fold(uint64(steps)<<8 | uint64(to.id))
	s.cur = to
	reload(nextGap())
	raceDisable()
	to.gate <- struct{}{}
	<-me.gate
	raceEnable()
	if s.aborted != nil && !me.done {
		panic(s.aborted)
	}
}

// exit ends the running task and passes the token on.
//
//go:norace
func (s *scheduler) exit(t *task) {
	t.done = true
	steps = Steps()
	r := s.runnable()
	if len(r) == 0 {
		return
	}
	to := r[0]
	if !cfg.Explicit && cfg.Gap > 0 {
		to = r[rng.Intn(len(r))]
		logPreempt(-steps, to.id)
	} else if cfg.Explicit {
		for _, p := range cfg.Preempts {
			if p.Step == -steps && p.To < len(s.tasks) && !s.tasks[p.To].done {
				to = s.tasks[p.To]
				break
			}
		}
	}
	fold(uint64(steps)<<8 | uint64(to.id) | 1<<63)
	s.cur = to
	reload(nextGap())
	raceDisable()
	to.gate <- struct{}{}
	raceEnable()
}

//go:norace
func (s *scheduler) spawn(fn func()) {
	t := &task{id: len(s.tasks), gate: make(chan struct{}, 1)}
	s.tasks = append(s.tasks, t)
	s.wg.Add(1)
	go s.body(t, fn)
}

func (s *scheduler) body(t *task, fn func()) {
	defer s.wg.Done() // the join edge is real: results are read after it
	park(t)
	s.guarded(fn)
	s.exit(t)
}

//go:norace
func park(t *task) {
	raceDisable()
	<-t.gate
	raceEnable()
}

func (s *scheduler) guarded(fn func()) {
	defer s.caught()
	if !s.isAborted() {
		fn()
	}
}

//go:norace
func (s *scheduler) isAborted() bool { return s.aborted != nil }

//go:norace
func (s *scheduler) caught() {
	r := recover()
	if _, ok := r.(deadlocked); ok && s.orphaned() {
		s.aborted = r // goroutines left waiting when everybody has the answer
		return
	}
	record(s.out, r)
	if r != nil && s.aborted == nil {
		if _, ok := r.(budgetExceeded); ok {
			s.aborted = r
		}
		if _, ok := r.(deadlocked); ok {
			s.aborted = r
		}
	}
}

// Run executes the tasks concurrently (cooperatively) under c.
func Run(c Config, fns ...func()) (o Outcome) {
	s := &scheduler{out: &o, roots: len(fns), tasks: make([]*task, 0, 256)}
	begin(c)
	sched = s
	for _, f := range fns {
		s.spawn(f)
	}
	startTasks(s)
	s.wg.Wait()
	o.Tasks = len(s.tasks)
	finish(&o)
	return o
}

//go:norace
func startTasks(s *scheduler) {
	first := s.tasks[0]
	if !cfg.Explicit && cfg.Gap > 0 {
		first = s.tasks[rng.Intn(len(s.tasks))]
		logPreempt(0, first.id)
	} else if cfg.Explicit && len(cfg.Preempts) > 0 && cfg.Preempts[0].Step == 0 && cfg.Preempts[0].To < len(s.tasks) {
		first = s.tasks[cfg.Preempts[0].To]
	}
	s.cur = first
	reload(nextGap())
	raceDisable()
	first.gate <- struct{}{}
	raceEnable()
}

// Block is called by a cooperative primitive that cannot proceed: it lets
// another task run and returns when the caller should poll again.
//
//go:norace
func Block() {
	if sched == nil {
		panic("sim: blocking operation with no other task: " + "deadlock")
	}
	s := sched
	me := s.cur
	me.waiting = true
	steps = Steps()
	// Prefer tasks that are not waiting; in deterministic round-robin order.
	var to *task
	n := len(s.tasks)
	for k := 1; k <= n; k++ {
		t := s.tasks[(me.id+k)%n]
		if !t.done && !t.waiting && t != me {
			to = t
			break
		}
	}
	if to == nil {
		// Everybody is waiting: give each one poll; if nobody unblocks, deadlock.
		s.blockedRounds++
		if s.blockedRounds > 4*n+4 {
			s.aborted = deadlocked{}
			panic(deadlocked{})
		}
		for k := 1; k <= n; k++ {
			t := s.tasks[(me.id+k)%n]
			if !t.done {
				to = t
				break
			}
		}
	}
	reload(nextGap())
	if to != me && to != nil {
		s.switchTo(to)
	}
}

// Progress is called by a cooperative primitive that succeeded.
//
//go:norace
func Progress() {
	if sched == nil {
		return
	}
	sched.blockedRounds = 0
	for _, t := range sched.tasks {
		t.waiting = false
	}
}

// adopt makes the running goroutine the first task of a scheduler of its own: code
// that was started alone is about to start a goroutine.
//
//go:norace
func adopt() {
	s := &scheduler{out: soloOut, roots: 1, tasks: make([]*task, 0, 256)}
	if s.out == nil {
		s.out = new(Outcome)
	}
	s.cur = &task{gate: make(chan struct{}, 1)}
	s.tasks = append(s.tasks, s.cur)
	sched = s
}

// join lets the goroutines an adopted task leaves behind run until they end or
// wait for something that cannot happen any more.
func (s *scheduler) join(o *Outcome) {
	s.orphan(o)
	s.exit(s.tasks[0])
	s.wg.Wait()
	o.Tasks = len(s.tasks)
}

//go:norace
func (s *scheduler) orphaned() bool {
	for _, t := range s.tasks[:s.roots] {
		if !t.done {
			return false
		}
	}
	return true
}

//go:norace
func (s *scheduler) orphan(o *Outcome) {
	s.tasks[0].done = true
	if o.OverRun && s.aborted == nil {
		s.aborted = budgetExceeded{}
	}
}

// Go replaces a go statement.
//
//go:norace
func Go(fn func()) {
	if sched == nil {
		adopt()
	}
	sched.spawn(fn)
	if active {
		steps = Steps()
		reload(nextGap())
	}
}

// GoCall replaces `go f(args...)`.
func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(fv.Type().In(i))
			continue
		}
		v := reflect.ValueOf(a)
		if i < fv.Type().NumIn() && !(fv.Type().IsVariadic() && i >= fv.Type().NumIn()-1) && !v.Type().AssignableTo(fv.Type().In(i)) {
			v = v.Convert(fv.Type().In(i))
		}
		in[i] = v
	}
	Go(func() { fv.Call(in) })
}

// Case is one communication clause of a select.
type Case struct {
	Dir  reflect.SelectDir
	Chan reflect.Value
	Val  reflect.Value
}

func RecvCase(ch any) Case { return Case{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)} }
func SendCase(ch, v any) Case {
	c := Case{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch)}
	if v == nil {
		c.Val = reflect.Zero(c.Chan.Type().Elem())
	} else {
		c.Val = reflect.ValueOf(v)
		if !c.Val.Type().AssignableTo(c.Chan.Type().Elem()) {
			c.Val = c.Val.Convert(c.Chan.Type().Elem())
		}
	}
	return c
}

// unbuffered rendezvous: a sender parks its value in the channel's state; a receiver
// that is waiting is counted there. Lists, not maps or slices: the race detector sees
// those wherever they are used, and this bookkeeping is not the code's.
type pendSend struct {
	v     reflect.Value
	taken bool
	next  *pendSend
}

type chanState struct {
	p    uintptr
	want int
	n    int
	head *pendSend
	next *chanState
}

var chans *chanState

//go:norace
func stateOf(p uintptr) *chanState {
	for c := chans; c != nil; c = c.next {
		if c.p == p {
			return c
		}
	}
	chans = &chanState{p: p, next: chans}
	return chans
}

//go:norace
func (c *chanState) put(s *pendSend) {
	raceRelease(unsafe.Pointer(s))
	q := &c.head
	for *q != nil {
		q = &(*q).next
	}
	*q = s
	c.n++
}

//go:norace
func (c *chanState) take() *pendSend {
	s := c.head
	if s != nil {
		raceAcquire(unsafe.Pointer(s))
		raceRelease(unsafe.Pointer(s))
		c.head, c.n, s.taken = s.next, c.n-1, true
	}
	return s
}

//go:norace
func (c *chanState) wanted() bool { return c.want > c.n }

//go:norace
func (c *chanState) wait(d int) { c.want += d }

//go:norace
func (s *pendSend) done() bool {
	if s.taken {
		raceAcquire(unsafe.Pointer(s))
	}
	return s.taken
}

func try(c Case) (reflect.Value, bool, bool) {
	if !c.Chan.IsValid() || c.Chan.IsNil() {
		return reflect.Value{}, false, false
	}
	p := c.Chan.Pointer()
	if c.Dir == reflect.SelectRecv && c.Chan.Cap() == 0 {
		if s := stateOf(p).take(); s != nil {
			return s.v, true, true
		}
	}
	if c.Dir == reflect.SelectSend && c.Chan.Cap() == 0 && stateOf(p).wanted() {
		stateOf(p).put(&pendSend{v: c.Val})
		return reflect.Value{}, false, true
	}
	i, v, ok := reflect.Select([]reflect.SelectCase{{Dir: c.Dir, Chan: c.Chan, Send: c.Val}, {Dir: reflect.SelectDefault}})
	if i == 0 {
		return v, ok, true
	}
	return reflect.Value{}, false, false
}

// Select replaces a select statement; it returns the index of the chosen clause
// (-1 for default), tried in an order the simulator decides.
func Select(hasDefault bool, cases ...Case) (int, reflect.Value, bool) {
	off := pickRot(len(cases))
	for {
		for k := range cases {
			i := (k + off) % len(cases)
			if v, ok, hit := try(cases[i]); hit {
				Progress()
				return i, v, ok
			}
		}
		if hasDefault {
			return -1, reflect.Value{}, false
		}
		for _, c := range cases {
			if c.Dir == reflect.SelectRecv && c.Chan.IsValid() && !c.Chan.IsNil() {
				stateOf(c.Chan.Pointer()).wait(1)
			}
		}
		Block()
		for _, c := range cases {
			if c.Dir == reflect.SelectRecv && c.Chan.IsValid() && !c.Chan.IsNil() {
				stateOf(c.Chan.Pointer()).wait(-1)
			}
		}
	}
}

//go:norace
func pickRot(n int) int {
	if n < 2 || !active {
		return 0
	}
	return int(Mix(cfg.Seed, uint64(Steps())) % uint64(n))
}

// As converts a received value to its static type.
func As[T any](v reflect.Value) T {
	var z T
	if !v.IsValid() {
		return z
	}
	r, _ := v.Interface().(T)
	return r
}

// Recv / Recv2 / Send replace plain channel operations.
func Recv[T any, C ~chan T | ~<-chan T](ch C) T {
	_, v, _ := Select(false, RecvCase(ch))
	return As[T](v)
}
func Recv2[T any, C ~chan T | ~<-chan T](ch C) (T, bool) {
	_, v, ok := Select(false, RecvCase(ch))
	return As[T](v), ok
}
func Send[T any, C ~chan T | ~chan<- T](ch C, v T) {
	c := SendCase(ch, v)
	c.Val = reflect.ValueOf(&v).Elem()
	if c.Chan.Cap() == 0 && sched != nil {
		s := &pendSend{v: c.Val}
		stateOf(c.Chan.Pointer()).put(s)
		for !s.done() {
			Block()
		}
		Progress()
		return
	}
	Select(false, c)
}

// RangeChan replaces a range over a channel.
func RangeChan[T any, C ~chan T | ~<-chan T](ch C) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2[T](ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
