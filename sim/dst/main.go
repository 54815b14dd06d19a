// dst is the simulation driver: "dst drive" decides one property by running
// many seeded simulated executions in worker processes, "dst replay" repeats
// a recorded failing one.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"verif.local/sim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dst drive|work|min|replay|one ...")
		os.Exit(2)
	}
	debug.SetMaxStack(2 << 30)
	if !simrt.RaceBuild && os.Args[1] != "drive" {
		// A runaway allocation ends this process with a message instead of
		// having the machine run out of memory.
		lim := syscall.Rlimit{Cur: 14 << 30, Max: 14 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	switch os.Args[1] {
	case "drive":
		os.Exit(drive(os.Args[2:]))
	case "work":
		os.Exit(work(os.Args[2:]))
	case "min":
		os.Exit(minimiseCmd(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "tokens":
		os.Exit(tokensCmd())
	case "one":
		os.Exit(oneCmd(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "dst: unknown command", os.Args[1])
	os.Exit(2)
}

// runSeed derives the seed of run idx of a property.
func runSeed(seed uint64, prop string, race bool, idx int) uint64 {
	h := mix(seed ^ hashStr(prop))
	if race {
		h = mix(h ^ 0x5ace)
	}
	return mix(h + uint64(idx)*0x9e3779b97f4a7c15)
}

func makePlan(pr *prop, seed uint64, idx int) *plan {
	r := &rng{s: runSeed(seed, pr.id, simrt.RaceBuild, idx)}
	return pr.gen(r, simrt.RaceBuild)
}

// found is what a worker reports about a failing run, and the replay file.
type found struct {
	Property    string   `json:"property"`
	Class       string   `json:"class"`
	Messages    []string `json:"messages"`
	Seed        uint64   `json:"seed"`
	Index       int      `json:"run"`
	Race        bool     `json:"race_build"`
	Crash       bool     `json:"crash,omitempty"`
	Fingerprint string   `json:"fingerprint"`
	Minimised   string   `json:"minimised,omitempty"`
	Schedule    []string `json:"schedule,omitempty"`
	Program     []string `json:"program,omitempty"`
	Plan        *plan    `json:"plan"`
}

type stats struct {
	Runs       int              `json:"runs"`
	Nontrivial int              `json:"nontrivial"`
	Steps      int64            `json:"steps"`
	MaxSteps   int64            `json:"max_steps"`
	MaxRun     int              `json:"max_run"`
	Ctx        int64            `json:"ctx"`
	Ops        map[string]int64 `json:"ops"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	FPs        []uint64         `json:"fps"` // of nontrivial runs
	Sample     map[int]uint64   `json:"sample"`
	Sites      []int            `json:"sites"`
	Samples    []any            `json:"samples"`
	Timeout    bool             `json:"timeout"`
}

type workMsg struct {
	Found *found `json:"found,omitempty"`
	Stats *stats `json:"stats,omitempty"`
}

func firedTotal() int64 {
	n := int64(0)
	for i := range faultKinds {
		n += faultFired[i]
	}
	return n
}

func countOps(p *plan, m map[string]int64) int {
	n := 0
	each := func(ops []op) {
		for i := range ops {
			k := ops[i].K
			if k == "merge" {
				if ops[i].Vert {
					k += "V"
				} else {
					k += "H"
				}
				if ops[i].Compact {
					k += "compact"
				}
			}
			m[k]++
			n++
		}
	}
	each(p.Setup)
	each(p.Round)
	each(p.Final)
	for _, t := range p.Tasks {
		each(t)
	}
	return n
}

func toFound(pr *prop, p *plan, o *outcome, vs []viol, seed uint64, idx int) *found {
	f := &found{Property: pr.id, Class: vs[0].Cat, Seed: seed, Index: idx, Race: simrt.RaceBuild, Fingerprint: fmt.Sprintf("%016x", o.fp)}
	for i, v := range vs {
		if i == 5 {
			break
		}
		f.Messages = append(f.Messages, fmt.Sprintf("[%s] task %d op %d: %s", v.Cat, v.Task, v.Op, v.Msg))
	}
	q := p.clone()
	q.Pol.Mode = "replay"
	q.Replays = o.switches
	f.Plan = q
	return f
}

func work(args []string) int {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 1, "total number of runs over all workers")
	secs := fs.Float64("secs", 0, "wall-clock limit")
	cur := fs.String("cur", "", "file holding the index being run")
	list := fs.String("list", "", "run exactly these indices")
	cont := fs.Bool("continue", false, "report every failing run")
	fs.Parse(args)
	pr := propByID(*id)
	if pr == nil {
		return 2
	}
	runtime.GOMAXPROCS(2)
	enc := json.NewEncoder(os.Stdout)
	st := &stats{Ops: map[string]int64{}, Faults: map[string]int64{}, Probes: map[string]int64{}, Sample: map[int]uint64{}}
	var curF *os.File
	if *cur != "" {
		curF, _ = os.Create(*cur)
	}
	dl := newDeadline(*secs)
	seen := map[uint64]bool{}
	one := func(i int) *found {
		p := makePlan(pr, *seed, i)
		before := firedTotal()
		o, vs := check(pr, p)
		st.Runs++
		st.Steps += o.steps
		if o.steps > st.MaxSteps && o.res.Verdict == "" {
			st.MaxSteps, st.MaxRun = o.steps, i
		}
		st.Ctx += int64(o.ctx)
		n := countOps(p, st.Ops)
		fired := firedTotal() - before
		if o.ctx > 0 || fired > 0 || n >= 3 || pr.heavy {
			st.Nontrivial++
			if !seen[o.fp] {
				seen[o.fp] = true
				st.FPs = append(st.FPs, o.fp)
			}
			if len(st.Samples) < 2 && i > 3 && n < 14 {
				st.Samples = append(st.Samples, map[string]any{"run": i, "seed": fmt.Sprintf("%x", runSeed(*seed, pr.id, simrt.RaceBuild, i)),
					"program": describePlan(p), "decisions": len(flat(o.switches)), "context_switches": o.ctx, "faults_fired": fired, "steps": o.steps, "fingerprint": fmt.Sprintf("%016x", o.fp)})
			}
		}
		if i%sampleEvery(*count) == 0 {
			st.Sample[i] = o.fp
		}
		for k, v := range o.probes {
			st.Probes[k] += v
		}
		if len(vs) > 0 {
			return toFound(pr, p, o, vs, *seed, i)
		}
		return nil
	}
	var idxs []int
	if *list != "" {
		for _, s := range strings.Split(*list, ",") {
			n := 0
			fmt.Sscan(s, &n)
			idxs = append(idxs, n)
		}
	} else {
		for i := *from; i < *count; i += *stride {
			idxs = append(idxs, i)
		}
	}
	for _, i := range idxs {
		if dl.passed() {
			st.Timeout = true
			break
		}
		if curF != nil {
			curF.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		if f := one(i); f != nil {
			enc.Encode(workMsg{Found: f})
			if !*cont {
				break
			}
		}
	}
	for i, k := range faultKinds {
		if faultFired[i] > 0 {
			st.Faults[k] = faultFired[i]
		}
	}
	for i, h := range simrt.Hits() {
		if h > 0 && i >= 32 {
			st.Sites = append(st.Sites, i)
		}
	}
	enc.Encode(workMsg{Stats: st})
	return 0
}

func sampleEvery(count int) int {
	n := count / 60
	if n < 1 {
		n = 1
	}
	return n
}

func flat(x [][]simrt.Switch) (out []simrt.Switch) {
	for _, s := range x {
		out = append(out, s...)
	}
	return
}

// oneCmd runs a plan file (or one index) and prints what happened; used for
// replays, crash confirmation and debugging.
func oneCmd(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("idx", -1, "")
	file := fs.String("file", "", "")
	show := fs.Bool("show", false, "")
	fs.Parse(args)
	var pr *prop
	var p *plan
	if *file != "" {
		f, err := readFound(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		pr, p = propByID(f.Property), f.Plan
	} else {
		pr = propByID(*id)
		p = makePlan(pr, *seed, *idx)
	}
	if *show {
		for _, l := range describePlan(p) {
			fmt.Fprintln(os.Stderr, l)
		}
	}
	o, vs := check(pr, p)
	r := oneResult{Fingerprint: fmt.Sprintf("%016x", o.fp), Steps: o.steps, Viols: vs}
	if len(vs) > 0 {
		r.Found = toFound(pr, p, o, vs, *seed, *idx)
	}
	json.NewEncoder(os.Stdout).Encode(r)
	return 0
}

type oneResult struct {
	Fingerprint string `json:"fingerprint"`
	Steps       int64  `json:"steps"`
	Viols       []viol `json:"viols"`
	Found       *found `json:"found,omitempty"`
}

func readFound(path string) (*found, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f found
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	if f.Plan == nil || propByID(f.Property) == nil {
		return nil, fmt.Errorf("%s: not a replay file", path)
	}
	return &f, nil
}

func writeFound(path string, f *found) error {
	f.Program = describePlan(f.Plan)
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

const goRace = "suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 exitcode=0 halt_on_error=0"

// sub prepares a subprocess of one of the two builds.
func sub(bin, raceLog string, args ...string) *exec.Cmd {
	c := exec.Command(bin, args...)
	c.Env = append(os.Environ(), "GORACE="+goRace+" log_path="+raceLog)
	return c
}
