package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/sim/simrt"
)

type driver struct {
	pr       *prop
	seed     uint64
	tier     string
	bins     map[bool]string // race?
	verif    string
	scratch  string
	workers  int
	start    time.Time
	limit    time.Duration
	batches  []*batch
	rechecks int
	nondet   string
}

// batch is what one build's workers did.
type batch struct {
	race    bool
	planned int
	st      stats
	fps     map[uint64]bool
	sites   map[int]bool
	found   *found
	crashed int // index of a run that took its worker down, -1 none
	err     string
	wall    float64
}

func (d *driver) left() float64 { return (d.limit - time.Since(d.start)).Seconds() }

func (d *driver) runBatch(race bool, count int) *batch {
	b := &batch{race: race, planned: count, fps: map[uint64]bool{}, sites: map[int]bool{}, crashed: -1}
	b.st = stats{Ops: map[string]int64{}, Faults: map[string]int64{}, Probes: map[string]int64{}, Sample: map[int]uint64{}}
	t0 := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	stop := false
	killAll := func() {
		stop = true
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	for w := 0; w < d.workers; w++ {
		cur := filepath.Join(d.scratch, fmt.Sprintf("cur.%v.%d", race, w))
		c := sub(d.bins[race], filepath.Join(d.scratch, "race"), "work", "-prop", d.pr.id, "-seed", fmt.Sprint(d.seed),
			"-from", fmt.Sprint(w), "-stride", fmt.Sprint(d.workers), "-count", fmt.Sprint(count), "-secs", fmt.Sprint(d.left()), "-cur", cur)
		var errb bytes.Buffer
		c.Stderr = &errb
		pipe, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			b.err = err.Error()
			break
		}
		mu.Lock()
		cmds = append(cmds, c)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(pipe, 1<<20)
			dec := json.NewDecoder(rd)
			done := false
			for {
				var m workMsg
				if err := dec.Decode(&m); err != nil {
					break
				}
				mu.Lock()
				if m.Found != nil && b.found == nil {
					b.found = m.Found
					killAll()
				}
				if m.Stats != nil {
					done = true
					b.add(m.Stats)
				}
				mu.Unlock()
			}
			err := c.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !done && !stop {
				raw, _ := os.ReadFile(cur)
				n := -1
				fmt.Sscan(string(raw), &n)
				b.crashed = n
				b.err = fmt.Sprintf("worker ended early in run %d: %v\n%s", n, err, tail(errb.String(), 4000))
				killAll()
			}
		}()
	}
	// watchdog: a run that makes no progress in real time
	quit := make(chan struct{})
	go func() {
		last, lastAt := "", time.Now()
		for {
			select {
			case <-quit:
				return
			case <-time.After(2 * time.Second):
			}
			s := ""
			for w := 0; w < d.workers; w++ {
				raw, _ := os.ReadFile(filepath.Join(d.scratch, fmt.Sprintf("cur.%v.%d", race, w)))
				s += string(raw)
			}
			if s != last {
				last, lastAt = s, time.Now()
			} else if time.Since(lastAt) > 240*time.Second {
				mu.Lock()
				if b.err == "" {
					b.err = "watchdog: no run finished for 240 s"
				}
				killAll()
				mu.Unlock()
				return
			}
		}
	}()
	wg.Wait()
	close(quit)
	b.wall = time.Since(t0).Seconds()
	return b
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func (b *batch) add(s *stats) {
	t := &b.st
	t.Runs += s.Runs
	t.Nontrivial += s.Nontrivial
	t.Steps += s.Steps
	t.Ctx += s.Ctx
	if s.MaxSteps > t.MaxSteps {
		t.MaxSteps, t.MaxRun = s.MaxSteps, s.MaxRun
	}
	for k, v := range s.Ops {
		t.Ops[k] += v
	}
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Sample {
		t.Sample[k] = v
	}
	for _, f := range s.FPs {
		b.fps[f] = true
	}
	for _, x := range s.Sites {
		b.sites[x] = true
	}
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	t.Timeout = t.Timeout || s.Timeout
}

// recheck repeats sampled runs in a fresh process, in another order, and
// compares fingerprints.
func (d *driver) recheck(b *batch) string {
	var idx []int
	for i := range b.st.Sample {
		idx = append(idx, i)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(idx)))
	if len(idx) > 60 {
		idx = idx[:60]
	}
	if d.pr.heavy && len(idx) > 5 {
		idx = idx[:5]
	}
	if len(idx) == 0 {
		return ""
	}
	var ss []string
	for _, i := range idx {
		ss = append(ss, fmt.Sprint(i))
	}
	c := sub(d.bins[b.race], filepath.Join(d.scratch, "race"), "work", "-prop", d.pr.id, "-seed", fmt.Sprint(d.seed), "-list", strings.Join(ss, ","), "-count", "1", "-continue")
	out, err := c.Output()
	if err != nil {
		return "determinism check: " + err.Error()
	}
	got := map[int]uint64{}
	for _, l := range bytes.Split(out, []byte("\n")) {
		var m workMsg
		if json.Unmarshal(l, &m) == nil && m.Stats != nil {
			got = m.Stats.Sample
		}
	}
	for _, i := range idx {
		if got[i] != b.st.Sample[i] {
			return fmt.Sprintf("determinism check: run %d gave fingerprint %016x in a worker and %016x when repeated", i, b.st.Sample[i], got[i])
		}
		d.rechecks++
	}
	return ""
}

// confirm replays a file in fresh processes.
func (d *driver) confirm(race bool, path string, f *found) (int, string) {
	ok, last := 0, ""
	for i := 0; i < 3; i++ {
		r, err := runOne(d.bins[race], d.scratch, path)
		if err != nil {
			return ok, err.Error()
		}
		hit := false
		for _, v := range r.Viols {
			hit = hit || v.Cat == f.Class
		}
		if hit {
			ok++
		}
		if !hit || r.Fingerprint != f.Fingerprint {
			last = fmt.Sprintf("replay gave fingerprint %s, violations %v", r.Fingerprint, r.Viols)
		}
	}
	return ok, last
}

func runOne(bin, scratch, path string) (*oneResult, error) {
	c := sub(bin, filepath.Join(scratch, "race"), "one", "-file", path)
	var errb bytes.Buffer
	c.Stderr = &errb
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, tail(errb.String(), 2000))
	}
	var r oneResult
	if err := json.Unmarshal(out, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func isCrash(stderr string) bool {
	for _, s := range []string{"fatal error: stack overflow", "goroutine stack exceeds", "fatal error: concurrent map", "fatal error: sync:", "fatal error: all goroutines are asleep", "fatal error: unexpected signal", "out of memory", "cannot allocate memory", "unexpected fault address"} {
		if strings.Contains(stderr, s) {
			return true
		}
	}
	return false
}

// crashed: a run took the whole process down. Reproduce it on its own.
func (d *driver) crash(b *batch) *found {
	if b.crashed < 0 {
		return nil
	}
	args := []string{"one", "-prop", d.pr.id, "-seed", fmt.Sprint(d.seed), "-idx", fmt.Sprint(b.crashed)}
	for i := 0; i < 2; i++ {
		c := sub(d.bins[b.race], filepath.Join(d.scratch, "race"), args...)
		var errb bytes.Buffer
		c.Stderr = &errb
		if _, err := c.Output(); err == nil || !isCrash(errb.String()) {
			return nil
		} else if i == 1 {
			h := mix(d.seed)
			_ = h
			r := &rng{s: runSeed(d.seed, d.pr.id, b.race, b.crashed)}
			return &found{Property: d.pr.id, Class: "crash", Crash: true, Race: b.race, Seed: d.seed, Index: b.crashed,
				Messages: []string{tail(errb.String(), 600)}, Plan: d.pr.gen(r, b.race)}
		}
	}
	return nil
}

func (d *driver) report(b *batch) int {
	dir := filepath.Join(d.verif, "replays")
	os.MkdirAll(dir, 0o755)
	f := b.found
	raw := filepath.Join(d.scratch, "found.json")
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", d.pr.id, d.seed, f.Index))
	if f.Crash {
		if err := writeFound(path, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: the process crashed\n%s\n", d.pr.id, strings.Join(f.Messages, "\n"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.pr.id, path)
		return 1
	}
	if err := writeFound(raw, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	secs := 40.0
	if d.tier == "thorough" {
		secs = 120
	}
	c := sub(d.bins[b.race], filepath.Join(d.scratch, "race"), "min", "-in", raw, "-out", path, "-secs", fmt.Sprint(secs))
	c.Stderr = os.Stderr
	g := f
	if err := c.Run(); err == nil {
		if x, err := readFound(path); err == nil {
			g = x
		}
	}
	n, why := d.confirm(b.race, path, g)
	if n == 3 && why != "" {
		fmt.Fprintln(os.Stderr, "WARNING: the replay fails again but not step by step:", why)
	}
	if g == f || n < 3 {
		// fall back to the run as it was found
		g = f
		if err := writeFound(path, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		n, why = d.confirm(b.race, path, f)
	}
	if n == 0 {
		fmt.Fprintf(os.Stderr, "%s: run %d failed (%s) but its replay does not: %s\n", d.pr.id, f.Index, strings.Join(f.Messages, "; "), why)
		return 2
	}
	fmt.Printf("%s violated in run %d of seed %d (class %s; replayed %d/3 times in fresh processes)\n", d.pr.id, f.Index, d.seed, g.Class, n)
	if g.Minimised != "" {
		fmt.Printf("minimised %s\n", g.Minimised)
	}
	for _, l := range g.Program {
		fmt.Println("  " + l)
	}
	for _, m := range g.Messages {
		fmt.Println(m)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.pr.id, path)
	return 1
}

func drive(args []string) int {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	plain := fs.String("plain", "", "")
	race := fs.String("race", "", "")
	verif := fs.String("verif", "/verif", "")
	workers := fs.Int("workers", 8, "")
	limit := fs.Float64("limit", 0, "")
	started := fs.Float64("started", 0, "unix time the check began")
	scale := fs.Float64("scale", 1, "multiply run counts")
	fs.Parse(args)
	d := &driver{pr: propByID(*id), seed: *seed, tier: *tier, bins: map[bool]string{false: *plain, true: *race}, verif: *verif, workers: *workers, start: time.Now()}
	if d.pr == nil {
		fmt.Fprintln(os.Stderr, "dst: no property", *id)
		return 2
	}
	d.limit = 300 * time.Second
	np, nr := d.pr.qPlain, d.pr.qRace
	if *tier == "thorough" {
		d.limit = 700 * time.Second
		np, nr = d.pr.tPlain, d.pr.tRace
	}
	if *limit > 0 {
		d.limit = time.Duration(*limit * float64(time.Second))
	}
	np, nr = int(float64(np)**scale), int(float64(nr)**scale)
	var err error
	d.scratch, err = os.MkdirTemp("", "dst-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(d.scratch)
	fmt.Printf("%s %s: VERIF_SEED=%d, %d runs (%d of them under the happens-before oracle), %d workers\n", *id, *tier, *seed, np+nr, nr, *workers)
	rc := 0
	for _, x := range []struct {
		race bool
		n    int
	}{{true, nr}, {false, np}} {
		if x.n == 0 {
			continue
		}
		if x.race && np > 0 {
			// leave the plain batch its share of the time
			full := d.limit
			d.limit = time.Duration(float64(full) * 0.6)
			d.batches = append(d.batches, d.runBatch(x.race, x.n))
			d.limit = full
		} else {
			d.batches = append(d.batches, d.runBatch(x.race, x.n))
		}
		b := d.batches[len(d.batches)-1]
		if b.found == nil && b.crashed >= 0 {
			b.found = d.crash(b)
		}
		if b.found != nil {
			rc = d.report(b)
			break
		}
		if b.err != "" {
			fmt.Fprintln(os.Stderr, b.err)
			rc = 2
			break
		}
		if why := d.recheck(b); why != "" {
			// the code draws on something the simulator does not control
			fmt.Fprintln(os.Stderr, "WARNING:", why)
			d.nondet = why
		}
	}
	if rc != 2 {
		base := d.start
		if *started > 0 {
			base = time.Unix(0, int64(*started*1e9))
		}
		if err := d.evidence(rc, time.Since(base).Seconds()); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if rc == 0 {
		n, dist, st := 0, 0, int64(0)
		for _, b := range d.batches {
			n += b.st.Runs
			dist += len(b.fps)
			st += b.st.Steps
		}
		fmt.Printf("%s held in %d simulated runs (%d distinct executions, %d steps), %.1f s\n", *id, n, dist, st, time.Since(d.start).Seconds())
	}
	return rc
}

func (d *driver) evidence(rc int, wall float64) error {
	runs, nontriv := 0, 0
	var steps, ctx int64
	faults, ops, probes := map[string]int64{}, map[string]int64{}, map[string]int64{}
	sites := map[int]bool{}
	builds := []any{}
	samples := []any{}
	var simWall float64
	for _, b := range d.batches {
		runs += b.st.Runs
		nontriv += len(b.fps)
		steps += b.st.Steps
		ctx += b.st.Ctx
		simWall += b.wall
		for k, v := range b.st.Faults {
			faults[k] += v
		}
		for k, v := range b.st.Ops {
			ops[k] += v
		}
		for k, v := range b.st.Probes {
			probes[k] += v
		}
		for s := range b.sites {
			sites[s] = true
		}
		kind := "plain"
		if b.race {
			kind = "with happens-before oracle (race detector)"
		}
		builds = append(builds, map[string]any{"build": kind, "runs": b.st.Runs, "planned": b.planned, "distinct": len(b.fps), "steps": b.st.Steps, "longest_run_steps": b.st.MaxSteps, "longest_run": b.st.MaxRun,
			"wall_s": round(b.wall), "runs_per_hour": int(float64(b.st.Runs) / b.wall * 3600), "stopped_by_time": b.st.Timeout})
		samples = append(samples, b.st.Samples...)
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	// yield points passed, per file
	type fc struct{ hit, all int }
	files := map[string]*fc{}
	for s := 32; s < simrt.NumSites; s++ {
		n := simrt.SiteName(int32(s))
		if i := strings.LastIndex(n, ":"); i > 0 {
			n = n[:i]
		}
		if files[n] == nil {
			files[n] = &fc{}
		}
		files[n].all++
		if sites[s] {
			files[n].hit++
		}
	}
	reach := map[string]string{}
	for n, c := range files {
		if c.hit > 0 {
			reach[n] = fmt.Sprintf("%d/%d", c.hit, c.all)
		}
	}
	viol := 0
	if rc == 1 {
		viol = 1
	}
	ev := map[string]any{
		"property": d.pr.id, "tier": d.tier, "seed": d.seed, "level": "exploration", "wall_s": round(wall), "violations": viol,
		"coverage": map[string]any{
			"evaluations":         runs,
			"distinct_nontrivial": nontriv,
			"rule": "One evaluation is one simulated run: program, arguments, faults, cache capacity, map order and schedule all drawn from the run's seed (" + d.pr.rule + "). " +
				"Non-trivial: at least one preemption or injected fault happened, or the history has at least three library calls. Distinct: different execution fingerprint (hash over every yield point passed with its task, every forced hand-over, and every result).",
			"samples":                      samples,
			"runs_per_hour":                int(float64(runs) / simWall * 3600),
			"simulated_time_steps":         steps,
			"simulated_time_note":          "the code has no clock or timer; simulated time is the scheduler's global step count (one step per instrumented statement or seam call)",
			"context_switches":             ctx,
			"faults_fired":                 faults,
			"operations":                   ops,
			"probes":                       probes,
			"yield_points_reached":         fmt.Sprintf("%d/%d", len(sites), simrt.NumSites-32),
			"yield_points_reached_by_file": reach,
			"determinism_rechecks":         d.rechecks,
			"determinism_failures":         d.nondet,
			"builds":                       builds,
			"components_real":              "go-table root package, runewidth, runewidth/uniseg, go-lru dependency (all instrumented from current source)",
			"components_stubbed":           "io.Writer, FormattedItemList, Getter, Alignment callbacks (simulated, fault-injecting); sync primitives, goroutine starts, channels and map iteration order (simulated); go-lru capacity (knob)",
		},
		"assumptions": []string{
			"preemption happens between statements of the instrumented packages and at seam calls; finer interleavings are covered only by the happens-before oracle",
			"standard library code runs atomically and is trusted",
			"cells are composed of tokens whose visible width is known by construction",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(d.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, d.pr.id+".json"), append(b, '\n'), 0o644)
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

// replayCmd repeats a recorded run: exit 1 and a VIOLATION line when it fails
// again.
func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	plain := fs.String("plain", "", "")
	race := fs.String("race", "", "")
	fs.Parse(args)
	path := fs.Arg(0)
	f, err := readFound(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin := *plain
	if f.Race {
		bin = *race
	}
	scratch, err := os.MkdirTemp("", "dst-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(scratch)
	r, err := runOne(bin, scratch, path)
	if err != nil {
		if f.Crash && isCrash(err.Error()) {
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range f.Program {
		fmt.Println("  " + l)
	}
	for _, v := range r.Viols {
		fmt.Printf("[%s] task %d op %d: %s\n", v.Cat, v.Task, v.Op, v.Msg)
	}
	same := r.Fingerprint == f.Fingerprint
	fmt.Printf("fingerprint %s (recorded %s)\n", r.Fingerprint, f.Fingerprint)
	if len(r.Viols) > 0 {
		if !same {
			fmt.Println("note: the execution differs from the recorded one (the code has changed since)")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return 0
}
