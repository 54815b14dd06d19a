// Package simrt is the deterministic scheduler that instrumented code runs
// under. Exactly one task holds the token at any time; every statement of the
// instrumented packages calls Y, and only there (or where a task blocks) can
// the token move. All choices come from one PRNG or from a recorded list.
//
// The hand-over itself is hidden from the race detector (raceDisable), so in
// a -race build the detector sees only the synchronisation the code under
// test performs: it is the happens-before oracle for the simulated schedule.
//
// Everything here that touches scheduler state is //go:norace and avoids
// maps and slice growth, which the runtime instruments on its own.
package simrt

import (
	"runtime"
	"sync"
	"time"
	"unsafe"
)

// MaxTasks bounds the number of tasks alive at one time.
const MaxTasks = 1 << 16

// MaxSwitches bounds the number of recorded scheduling decisions of one run.
const MaxSwitches = 1 << 15

const (
	stRunnable = iota
	stBlocked
	stStalled
	stSleeping
	stDone
)

// Task is one simulated thread.
type Task struct {
	ID     int
	root   int
	wake   chan struct{}
	state  int
	on     unsafe.Pointer
	wakeAt int64
	exit   bool
	// Panic holds the value of a panic that escaped the task's function.
	Panic    any
	Panicked bool
}

// Switch is one scheduling decision that differs from the default (stay with
// the current task; when it cannot go on, take the lowest-numbered runnable).
type Switch struct {
	Step int64 `json:"s"`
	To   int   `json:"t"`
}

// Policy says how decisions are made.
type Policy struct {
	Mode    string   `json:"mode"`              // "random", "pct", "replay", "serial"
	Seed    uint64   `json:"seed,omitempty"`    // random, pct
	PBase   float64  `json:"pbase,omitempty"`   // switch probability at ordinary sites
	PHot    float64  `json:"phot,omitempty"`    // ... at hot sites
	HotPct  int      `json:"hotpct,omitempty"`  // share of sites that are hot in this run
	Points  []int64  `json:"points,omitempty"`  // pct: change points
	Replay  []Switch `json:"replay,omitempty"`  // replay
	Budget  int64    `json:"budget,omitempty"`  // steps before "no progress"
	MapSeed uint64   `json:"mapseed,omitempty"` // map iteration order
}

// Result describes one finished run.
type Result struct {
	Steps       int64
	Switches    []Switch // decisions that differ from the default
	CtxSwitches int      // token moves between unfinished tasks
	Fingerprint uint64
	Verdict     string // "", "deadlock", "noprogress"
	Detail      string
	Heals       int   // times stalls were released because nothing else could run
	HeldByStall []int // tasks still blocked (not stalled) when only stalls remained
	SimNanos    int64
	Overflow    bool // decision log full
	Crash       any  // panic that escaped a goroutine started by the code under test
	Crashed     bool
	Leftover    int // goroutines of the code under test that wait for ever at the end
}

var (
	active      bool
	aborting    bool
	cur         *Task
	tasks       [MaxTasks]*Task
	ntasks      int
	leftover    int
	ninit       int // the first ninit tasks are the harness's
	free        [MaxTasks]int32
	nfree       int
	crash       any
	crashed     bool
	live        int
	step        int64
	budget      int64
	fp          uint64
	rng         uint64
	mode        int // 0 serial, 1 random, 2 pct, 3 replay
	pol         *Policy
	repIdx      int
	ptIdx       int
	nextAt      int64
	thresh      []uint32
	hits        []uint32
	switchLog   [MaxSwitches]Switch
	nswitch     int
	overflow    bool
	ctxSwitches int
	verdict     string
	detail      string
	heals       int
	held        [MaxTasks]int
	nheld       int
	clock       int64
	nsleeping   int
	limit       int64
	mapCtr      uint64
	wg          *sync.WaitGroup
)

// NumSites is set by the generated site table.
var NumSites = 64

// SiteName maps a site to file:line; filled by the generated table.
var SiteName = func(site int32) string { return "?" }

// SetSites installs the generated table.
func SetSites(n int, name func(int32) string) { NumSites, SiteName = n, name }

var resets []func()

// RegisterReset adds a package's reset function (called in init order).
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll restores the package-level state of all instrumented packages to
// what it is at process start.
func ResetAll() {
	resetChans()
	for _, f := range resets {
		f()
	}
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	x := rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Y is the yield point before every instrumented statement.
//
//go:norace
func Y(site int32) {
	if active {
		y(site)
	}
}

//go:norace
func y(site int32) {
	t := cur
	if aborting {
		if !t.exit {
			t.exit = true
			runtime.Goexit()
		}
		return
	}
	step++
	fp = (fp ^ (uint64(uint32(site)) | uint64(t.ID)<<32)) * 0x100000001b3
	if int(site) < len(hits) {
		hits[site]++
	}
	if step >= limit {
		atLimit()
	}
	switch mode {
	case 1:
		if live > 1 && uint32(next()) < thresh[site] {
			yieldTo(pickOther(t))
		}
	case 2:
		if step >= nextAt {
			if ptIdx < len(pol.Points) {
				nextAt = pol.Points[ptIdx]
				ptIdx++
			} else {
				nextAt = 1 << 62
			}
			yieldTo(pickOther(t))
		}
	case 3:
		if step == nextAt {
			to := pol.Replay[repIdx].To
			advanceReplay()
			if to >= 0 && to < ntasks && tasks[to].state == stRunnable {
				yieldTo(tasks[to])
			}
		}
	}
}

// Every fairEvery steps the next task in turn runs, whatever the policy, so
// that code which waits in a loop for another goroutine gets somewhere.
const fairEvery = 1 << 20

//go:norace
func atLimit() {
	if step > budget {
		abort("noprogress", "step budget exhausted")
	}
	setLimit()
	if live > 1 {
		inTurn()
	}
}

//go:norace
func setLimit() {
	limit = (step/fairEvery + 1) * fairEvery
	if limit > budget+1 {
		limit = budget + 1
	}
}

// inTurn lets the next runnable task run.
//
//go:norace
func inTurn() {
	me := cur
	for k := 1; k < ntasks; k++ {
		if t := tasks[(me.ID+k)%ntasks]; t.state == stRunnable && t != me {
			ctxSwitches++
			handOver(me, t)
			return
		}
	}
}

// Poll is called when the running task asked for something that is not ready
// and goes on: time passes and somebody else gets a chance.
//
//go:norace
func Poll() {
	if !active || aborting {
		return
	}
	if live > 1 {
		tick()
		inTurn()
	}
}

// tick lets a microsecond pass.
//
//go:norace
func tick() {
	if !active {
		return
	}
	clock += 1000
	if nsleeping == 0 {
		return
	}
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stSleeping && tasks[i].wakeAt <= clock {
			tasks[i].state = stRunnable
			nsleeping--
		}
	}
}

//go:norace
func advanceReplay() {
	for repIdx < len(pol.Replay) && pol.Replay[repIdx].Step <= step {
		repIdx++
	}
	if repIdx < len(pol.Replay) {
		nextAt = pol.Replay[repIdx].Step
	} else {
		nextAt = 1 << 62
	}
}

//go:norace
func pickOther(me *Task) *Task {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i] != me && tasks[i].state == stRunnable {
			n++
		}
	}
	if n == 0 {
		return me
	}
	k := int(next() % uint64(n))
	for i := 0; i < ntasks; i++ {
		if tasks[i] != me && tasks[i].state == stRunnable {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return me
}

//go:norace
func record(to int) {
	if nswitch >= MaxSwitches {
		overflow = true
		mode = 0
		return
	}
	switchLog[nswitch].Step = step
	switchLog[nswitch].To = to
	nswitch++
}

//go:norace
func yieldTo(t *Task) {
	me := cur
	if t == me {
		return
	}
	record(t.ID)
	if overflow {
		return
	}
	ctxSwitches++
	handOver(me, t)
}

//go:norace
func handOver(me, t *Task) {
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if aborting && !me.exit {
		me.exit = true
		runtime.Goexit()
	}
}

// forced chooses who runs when the current task cannot. nil: nobody can.
//
//go:norace
func forced() *Task {
	for {
		step++
		first := -1
		n := 0
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stRunnable {
				if first < 0 {
					first = i
				}
				n++
			}
		}
		if n > 0 {
			to := first
			switch mode {
			case 1, 2:
				k := int(next() % uint64(n))
				for i := 0; i < ntasks; i++ {
					if tasks[i].state == stRunnable {
						if k == 0 {
							to = i
							break
						}
						k--
					}
				}
				if to != first {
					record(to)
					if overflow {
						to = first
					}
				}
			case 3:
				if step >= nextAt {
					if pol.Replay[repIdx].Step == step {
						x := pol.Replay[repIdx].To
						if x >= 0 && x < ntasks && tasks[x].state == stRunnable {
							if x != first {
								record(x)
							}
							to = x
						}
					}
					advanceReplay()
				}
			}
			fp = (fp ^ (0xffff0000 | uint64(to))) * 0x100000001b3
			return tasks[to]
		}
		// Nobody is runnable: let simulated time pass, then end stalls.
		var at int64 = 1 << 62
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stSleeping && tasks[i].wakeAt < at {
				at = tasks[i].wakeAt
			}
		}
		if at < 1<<62 {
			clock = at
			for i := 0; i < ntasks; i++ {
				if tasks[i].state == stSleeping && tasks[i].wakeAt <= at {
					tasks[i].state = stRunnable
					nsleeping--
				}
			}
			continue
		}
		stalled := 0
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stStalled {
				stalled++
			}
		}
		if stalled == 0 {
			return nil
		}
		heals++
		if heals == 1 {
			for i := 0; i < ntasks; i++ {
				if i < ninit && tasks[i].state == stBlocked {
					held[nheld] = i
					nheld++
				}
			}
		}
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stStalled {
				tasks[i].state = stRunnable
			}
		}
	}
}

//go:norace
func abort(v, d string) {
	if verdict == "" {
		verdict, detail = v, d
	}
	aborting = true
	cur.exit = true
	runtime.Goexit()
}

// giveUp is called by a task that has set its own state to something other
// than runnable; it returns when the task is scheduled again.
//
//go:norace
func giveUp() {
	me := cur
	t := forced()
	if t == nil {
		me.state = stRunnable
		abort("deadlock", "no task can run")
	}
	if t == me {
		return
	}
	ctxSwitches++
	handOver(me, t)
}

// Block parks the current task until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer) {
	if !active {
		panic("simrt: blocking outside a run (a lock was left held)")
	}
	if aborting {
		return
	}
	cur.on = key
	cur.state = stBlocked
	giveUp()
}

// Wake makes all tasks blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].on == key {
			tasks[i].state = stRunnable
			tasks[i].on = nil
		}
	}
}

// Stall parks the current task until nothing else in the run can proceed.
//
//go:norace
func Stall() {
	if !active || aborting {
		return
	}
	cur.state = stStalled
	giveUp()
}

// Sleep parks the current task for d of simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	if !active || aborting {
		return
	}
	if d < 0 {
		d = 0
	}
	cur.state = stSleeping
	nsleeping++
	cur.wakeAt = clock + int64(d)
	giveUp()
}

// Now is the simulated clock.
//
//go:norace
func Now() time.Time {
	tick()
	return time.Unix(1700000000, clock)
}

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Active reports whether a run is in progress.
//
//go:norace
func Active() bool { return active }

// Aborting reports whether the run is being torn down.
//
//go:norace
func Aborting() bool { return aborting }

// Step is the current global event number.
//
//go:norace
func Step() int64 { return step }

// RootID is the id of the task the running task was started for: itself, or
// the one that started the goroutine that started it and so on.
//
//go:norace
func RootID() int {
	if cur == nil {
		return -1
	}
	return cur.root
}

// CurID is the id of the running task.
//
//go:norace
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Acquire and Release tell the happens-before oracle about a synchronisation
// performed by simulated primitives.
//
//go:norace
func Acquire(p unsafe.Pointer) { raceAcquire(p) }

// Release is the releasing half.
//
//go:norace
func Release(p unsafe.Pointer) { raceReleaseMerge(p) }

//go:norace
func park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func finish(t *Task) {
	t.state = stDone
	live--
	if t.ID >= ninit {
		free[nfree] = int32(t.ID)
		nfree++
	}
	if live == 0 {
		active = false
		return
	}
	var n *Task
	if aborting {
		for i := 0; i < ntasks; i++ {
			if tasks[i].state != stDone {
				n = tasks[i]
				break
			}
		}
	} else {
		n = forced()
		if n == nil {
			for i := 0; i < ninit; i++ {
				if tasks[i].state != stDone {
					verdict, detail = "deadlock", "remaining tasks are blocked"
				}
			}
			// (goroutines the code left waiting for work are ended quietly)
			for i := ninit; i < ntasks; i++ {
				if tasks[i].state != stDone {
					leftover++
				}
			}
			aborting = true
			for i := 0; i < ntasks; i++ {
				if tasks[i].state != stDone {
					n = tasks[i]
					break
				}
			}
		}
	}
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

func taskMain(t *Task, fn func(), first bool) {
	normal := false
	defer func() {
		r := recover()
		if normal || isExit(t) {
			w := wg
			finish(t)
			w.Done()
			return
		}
		if r != nil || !isInit(t) {
			if r != nil {
				setPanic(t, r)
			}
			w := wg
			finish(t)
			w.Done()
			return
		}
		// The goroutine was ended by a callback (runtime.Goexit). The task
		// goes on in a fresh goroutine, still holding the token.
		go taskMain(t, fn, false)
	}()
	if first {
		park(t)
		exitIfAborting(t)
	}
	fn()
	normal = true
}

//go:norace
func exitIfAborting(t *Task) {
	if aborting {
		t.exit = true
		runtime.Goexit()
	}
}

//go:norace
func isExit(t *Task) bool { return t.exit }

//go:norace
func isInit(t *Task) bool { return t.ID < ninit }

//go:norace
func setPanic(t *Task, r any) {
	t.Panicked, t.Panic = true, r
	if t.ID >= ninit && !crashed {
		crashed, crash = true, r
	}
}

//go:norace
func newTask() *Task {
	if nfree > 0 {
		nfree--
		i := free[nfree]
		t := &Task{ID: int(i), root: rootFor(int(i)), wake: make(chan struct{}, 1)}
		tasks[i] = t
		live++
		return t
	}
	if ntasks >= MaxTasks {
		panic("simrt: too many tasks")
	}
	t := &Task{ID: ntasks, root: rootFor(ntasks), wake: make(chan struct{}, 1)}
	tasks[ntasks] = t
	ntasks++
	live++
	return t
}

//go:norace
func rootFor(id int) int {
	if ninit == 0 || cur == nil {
		return id
	}
	return cur.root
}

// Go starts fn as a new task of the run in progress (a go statement in
// instrumented code).
func Go(fn func()) {
	if !Active() {
		go fn()
		return
	}
	if Aborting() {
		return
	}
	t := newTask()
	wg.Add(1)
	go taskMain(t, fn, true)
}

// Run executes fns as tasks 0..n-1 until all are done.
func Run(p *Policy, fns []func()) Result {
	begin(p)
	w := &sync.WaitGroup{}
	wg = w
	w.Add(len(fns))
	for range fns {
		newTask()
	}
	setInit(len(fns))
	for i, fn := range fns {
		go taskMain(tasks[i], fn, true)
	}
	if len(fns) > 0 {
		kick()
	}
	w.Wait()
	return end()
}

//go:norace
func setInit(n int) { ninit = n }

//go:norace
func begin(p *Policy) {
	pol = p
	aborting = false
	ntasks, live, ninit, nfree, leftover = 0, 0, 0, 0, 0
	crash, crashed = nil, false
	step = 0
	budget = p.Budget
	if budget <= 0 {
		budget = 1 << 40
	}
	setLimit()
	fp = 0xcbf29ce484222325
	rng = mix(p.Seed)
	repIdx, ptIdx, nextAt = 0, 0, 1<<62
	nswitch, overflow, ctxSwitches = 0, false, 0
	verdict, detail = "", ""
	heals, nheld = 0, 0
	clock, mapCtr, nsleeping = 0, 0, 0
	if len(thresh) < NumSites {
		thresh = make([]uint32, NumSites)
		hits = make([]uint32, NumSites)
	}
	switch p.Mode {
	case "random":
		mode = 1
		base := uint32(p.PBase * 4294967295)
		hot := uint32(p.PHot * 4294967295)
		for i := range thresh {
			if int(mix(p.Seed^uint64(i)*0x9e3779b97f4a7c15)%100) < p.HotPct {
				thresh[i] = hot
			} else {
				thresh[i] = base
			}
		}
	case "pct":
		mode = 2
		if len(p.Points) > 0 {
			nextAt = p.Points[0]
			ptIdx = 1
		}
	case "replay":
		mode = 3
		if len(p.Replay) > 0 {
			nextAt = p.Replay[0].Step
		}
	default:
		mode = 0
	}
	active = true
}

//go:norace
func kick() {
	t := forced()
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

// Spawned counts the goroutines of the code under test that have not ended.
//
//go:norace
func Spawned() int {
	n := 0
	for i := 0; i < ninit; i++ {
		if tasks[i].state != stDone {
			n++
		}
	}
	return live - n
}

//go:norace
func end() Result {
	active = false
	r := Result{Steps: step, CtxSwitches: ctxSwitches, Fingerprint: fp, Verdict: verdict, Detail: detail, Heals: heals, SimNanos: clock, Overflow: overflow, Crash: crash, Crashed: crashed, Leftover: leftover}
	r.Switches = make([]Switch, nswitch)
	for i := range r.Switches {
		r.Switches[i] = switchLog[i]
	}
	for i := 0; i < nheld; i++ {
		r.HeldByStall = append(r.HeldByStall, held[i])
	}
	return r
}

// Hits returns, per site, how often it was passed in this process.
func Hits() []uint32 { return hits }

// TaskPanic returns the panic that escaped task i, if any.
func TaskPanic(i int) (any, bool) { return tasks[i].Panic, tasks[i].Panicked }

// TaskState describes task i for reports.
//
//go:norace
func TaskState(i int) string {
	switch tasks[i].state {
	case stRunnable:
		return "runnable"
	case stBlocked:
		return "blocked"
	case stStalled:
		return "stalled"
	case stSleeping:
		return "sleeping"
	}
	return "done"
}

// CapKnob lets a run shrink cache capacities (0: leave alone).
var capKnob int

// SetCapKnob sets the capacity override used at the next ResetAll.
func SetCapKnob(n int) { capKnob = n }

// CapKnob is called by the instrumented cache with its configured capacity.
func CapKnob(configured int) int {
	if capKnob > 0 {
		return capKnob
	}
	return configured
}
