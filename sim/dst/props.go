package main

import (
	"fmt"
)

type prop struct {
	id    string
	cats  map[string]bool
	diff  bool // compare every task with running alone
	heavy bool
	gen   func(r *rng, race bool) *plan
	// runs per tier: plain build, and build with the happens-before oracle
	qPlain, qRace, tPlain, tRace int
	rule                         string
}

func cats(xs ...string) map[string]bool {
	m := map[string]bool{"panic": true, "noprogress": true, "deadlock": true}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// check executes a plan and returns the violations of its property.
func check(pr *prop, p *plan) (*outcome, []viol) {
	o := execPlan(p, -1)
	var vs []viol
	for _, v := range o.viols {
		if pr.cats[v.Cat] {
			vs = append(vs, v)
		}
	}
	if pr.diff && len(p.Round) == 0 && o.res.Verdict == "" {
		for i := range p.Tasks {
			a := execPlan(p, i)
			o.steps += a.steps
			o.fp = mix(o.fp ^ a.fp)
			for _, v := range a.viols {
				if v.Cat == "panic" || v.Cat == "noprogress" || v.Cat == "deadlock" {
					vs = append(vs, viol{v.Cat, "running alone: " + v.Msg, i, v.Op})
				}
			}
			if i >= len(o.digests) || len(a.digests) == 0 {
				continue
			}
			x, y := o.digests[i], a.digests[0]
			for k := 0; k < len(x) || k < len(y); k++ {
				gx, gy := "(nothing)", "(nothing)"
				if k < len(x) {
					gx = x[k]
				}
				if k < len(y) {
					gy = y[k]
				}
				if gx != gy {
					vs = append(vs, viol{"diff", fmt.Sprintf("task %d result %d: together %s, alone %s", i, k, clip([]byte(gx)), clip([]byte(gy))), i, k})
					break
				}
			}
		}
	}
	if pr.id == "C14" && o.res.Verdict == "" {
		vs = append(vs, ownCheck(p, o)...)
	}
	if pr.id == "C16" && o.res.Verdict == "" {
		vs = append(vs, handCheck(p, o)...)
	}
	if pr.id == "C11" && len(vs) == 0 {
		vs = append(vs, historyCheck(p, o)...)
	}
	return o, vs
}

// historyCheck: every measurement made in the run must equal the one made in
// a process that has measured nothing else.
func historyCheck(p *plan, o *outcome) []viol {
	seen := map[string]string{}
	for ti, t := range p.Tasks {
		k := 0
		for oi, x := range t {
			d := o.digests[ti]
			if k >= len(d) {
				break
			}
			got := d[k]
			k++
			if x.K != "measure" {
				continue
			}
			key := fmt.Sprintf("%d %q %d", x.Fn, x.Cell.str(), x.W)
			want, ok := seen[key]
			if !ok {
				q := &plan{Prop: "C11", EA: p.EA, Tasks: [][]op{{x}}}
				q.Pol.Budget = bigBudget
				f := execPlan(q, 0)
				o.steps += f.steps
				if len(f.digests) == 0 || len(f.digests[0]) == 0 {
					continue
				}
				want = f.digests[0][0]
				seen[key] = want
			}
			if got != want {
				return []viol{{"hist", fmt.Sprintf("after this history %s; with no history %s", got, want), ti, oi}}
			}
		}
	}
	return nil
}

var props = []*prop{
	{id: "C01", diff: true, cats: cats("race", "reent"), gen: genC01, qPlain: 200000, qRace: 60000, tPlain: 5000000, tRace: 1500000, rule: "2-4 tasks with tables of their own over shared specs, callbacks failing in some"},
	{id: "C02", diff: true, cats: cats("race", "render-trace", "width", "reent"), gen: genC02, qPlain: 120000, qRace: 40000, tPlain: 3000000, tRace: 1000000, rule: "2-4 tasks rendering and querying one filled table, writers failing in some"},
	{id: "C03", cats: cats("w-err", "w-after", "w-prefix", "w-healthy"), gen: genC03, qPlain: 150000, tPlain: 3750000, rule: "merge renderings with a write failing at a drawn position after a drawn number of bytes"},
	{id: "C04", cats: cats("render-trace", "rerender", "w-healthy", "reent"), gen: genC04, qPlain: 100000, tPlain: 3000000, rule: "merge renderings interrupted at a drawn callback by error, panic or goroutine exit, then repeated"},
	{id: "C05", cats: cats("fmt-error", "fmt-atomic", "fmt-row", "fmt-value", "basic", "width", "reent"), gen: genC05, qPlain: 500000, tPlain: 12500000, rule: "histories of rows with a getter failing at a drawn column"},
	{id: "C06", cats: cats("width", "align", "header", "tablewidth"), gen: genC06, qPlain: 300000, tPlain: 7500000, rule: "histories of table operations with getter and alignment faults, checked against a reference table after every call"},
	{id: "C07", cats: cats("conv"), gen: genC07, qPlain: 250000, tPlain: 6250000, rule: "1-4 workers reporting widths over a reordering, duplicating, losing and delaying network"},
	{id: "C08", cats: cats("order"), gen: genC08, qPlain: 180000, tPlain: 4500000, rule: "merge renderings of tagged rows after drawn histories, writers failing in some"},
	{id: "C09", cats: cats("layout", "fit", "fill", "lines"), gen: genC09, qPlain: 180000, tPlain: 4500000, rule: "merge renderings of tagged rows with maximum widths drawn around multiples of the group width"},
	{id: "C10", cats: cats(), gen: genC10, qPlain: 200000, tPlain: 5000000, rule: "merge renderings at the edges: no columns, zero and huge widths, empty separator, extreme maximum widths"},
	{id: "C11", cats: cats("measure"), gen: genC11, qPlain: 120000, tPlain: 3000000, rule: "1-3 tasks measuring drawn strings under drawn cache capacities"},
	{id: "C12", diff: true, cats: cats("held", "reent", "width"), gen: genC12, qPlain: 180000, tPlain: 4500000, rule: "2-4 tasks, some stalled inside a drawn callback until nothing else can run, some re-entering the package"},
	{id: "C14", cats: cats("owner", "race"), gen: genC14, qPlain: 120000, qRace: 24000, tPlain: 3000000, tRace: 600000, rule: "histories of calls by a caller that uses its items, rows, lists and width maps again and scribbles on them and on returned rows"},
	{id: "C15", heavy: true, cats: cats("retain"), gen: genC15, qPlain: 160, tPlain: 4000, rule: "90000-120000 strings, rows, items, lists, writers and tables used once and dropped, callbacks failing in some; what is alive after two stages"},
	{id: "C16", cats: cats("race", "width", "align", "header", "tablewidth", "fmt-error", "fmt-atomic", "fmt-row", "fmt-value", "basic", "render-trace", "reent"), gen: genC16, qPlain: 120000, qRace: 30000, tPlain: 3000000, tRace: 750000, rule: "2-4 tasks taking turns on 1-4 tables over 1-2 specifications under the callers' lock, callbacks failing in some"},
	{id: "C13", heavy: true, cats: cats("lut", "race"), gen: genC13, qPlain: 200, qRace: 80, tPlain: 5000, tRace: 2000, rule: "histories of setting changes and table rebuilds with 1-3 concurrent readers, all runes scanned at the end"},
}

func propByID(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}
