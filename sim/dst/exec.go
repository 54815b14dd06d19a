package main

import (
	"fmt"
	"strings"

	"verif.local/sim/simrt"
)

type outcome struct {
	viols    []viol
	digests  [][]string
	res      simrt.Result // main phase
	steps    int64
	fp       uint64
	switches [][]simrt.Switch
	ctx      int
	probes   map[string]int64
	hand     []handDigest
}

const bigBudget = 1 << 33

// execPlan runs a plan in a fresh world. only >= 0 runs just that task, alone and
// unscheduled.
func execPlan(p *plan, only int) *outcome {
	races := simrt.RaceErrors()
	simrt.SetCapKnob(p.Cap)
	if p.Cap > 0 {
		countFault("cache:smallcap")
	}
	simrt.ResetAll()
	for _, x := range p.Round {
		refWidths(x.EA, x.Strict)
	}
	w := newWorld(p)
	for _, t := range p.Tasks {
		for _, x := range t {
			if x.K == "round" {
				refWidths(x.EA, x.Strict)
				w.conds[x.T] = &condSlot{} // that task's own
			}
		}
	}
	o := &outcome{}
	serial := &simrt.Policy{Mode: "serial", Budget: p.Pol.Budget, MapSeed: p.Pol.MapSeed}
	add := func(ts []*taskState, r simrt.Result, base int) {
		o.steps += r.Steps
		o.fp = mix(o.fp ^ r.Fingerprint)
		for _, t := range ts {
			for _, v := range t.viols {
				v.Task += base
				o.viols = append(o.viols, v)
			}
			for _, d := range t.digests {
				o.fp = mix(o.fp ^ hashStr(d))
			}
		}
		if r.Verdict != "" {
			st := make([]string, len(ts))
			for i, t := range ts {
				st[i] = fmt.Sprintf("task %d: %s in op %d", i, simrt.TaskState(i), t.pc-1)
			}
			o.viols = append(o.viols, viol{r.Verdict, r.Detail + " (" + strings.Join(st, ", ") + ")", base, 0})
		}
	}
	if len(p.Setup) > 0 {
		ts, r := w.phase(serial, [][]op{p.Setup})
		add(ts, r, -1)
		if r.Verdict != "" {
			return o.finish(races)
		}
	}
	rounds := p.Round
	if len(rounds) == 0 {
		rounds = []op{{}}
	}
	for ri := range rounds {
		if len(p.Round) > 0 {
			pol := *serial
			pol.Budget = bigBudget
			ts, r := w.phase(&pol, [][]op{rounds[ri : ri+1]})
			add(ts, r, -1)
			if r.Verdict != "" {
				return o.finish(races)
			}
		}
		progs := p.Tasks
		pol := &p.Pol
		if only >= 0 {
			progs = [][]op{p.Tasks[only]}
			pol = serial
		} else {
			q := p.Pol
			if q.Mode == "replay" {
				q.Replay = nil
				if ri < len(p.Replays) {
					q.Replay = p.Replays[ri]
				}
			} else {
				q.Seed = mix(q.Seed + uint64(ri))
			}
			pol = &q
		}
		w.net = &network{}
		for _, t := range progs {
			for _, x := range t {
				if x.K == "flush" {
					w.net.workers++
				}
			}
		}
		ts, r := w.phase(pol, progs)
		add(ts, r, 0)
		o.res = r
		o.switches = append(o.switches, r.Switches)
		o.ctx += r.CtxSwitches
		for _, t := range ts {
			o.digests = append(o.digests, t.digests)
		}
		if p.Prop == "C16" {
			o.hand = handOrder(ts)
		}
		if r.Heals > 0 {
			countFaultN("stall:healed", int64(r.Heals))
		}
		if len(r.HeldByStall) > 0 {
			o.viols = append(o.viols, viol{"held", fmt.Sprintf("with a callback stalled in one task, task(s) %v could not proceed", r.HeldByStall), r.HeldByStall[0], 0})
		}
		if r.Verdict != "" {
			return o.finish(races)
		}
		if only < 0 && p.Prop == "C07" {
			convCheck(o, w, p, ts)
		}
	}
	if len(p.Scan) > 0 && only < 0 {
		pol := *serial
		pol.Budget = bigBudget
		ts, r := w.phase(&pol, [][]op{p.Scan})
		add(ts, r, -2)
	}
	if len(p.Final) > 0 && only < 0 {
		pol := *serial
		pol.Budget = bigBudget
		ts, r := w.phase(&pol, [][]op{p.Final})
		add(ts, r, -2)
		o.digests = append(o.digests, ts[0].digests)
	}
	return o.finish(races)
}

func (o *outcome) finish(races int) *outcome {
	if n := simrt.RaceErrors() - races; n > 0 {
		o.viols = append(o.viols, viol{"race", fmt.Sprintf("data race: %d conflicting unsynchronised accesses in this schedule", n), 0, 0})
	}
	return o
}

// convCheck compares the merged table with one table that formats every row.
func convCheck(o *outcome, w *world, p *plan, ts []*taskState) {
	var all []op
	all = append(all, op{K: "new", T: 1, Spec: 0})
	var co *slot
	for i, t := range p.Tasks {
		for _, x := range t {
			switch x.K {
			case "fmt":
				y := x
				if len(x.Faults) > 0 && x.Faults[0].Kind != "slow" {
					continue // the row failed
				}
				y.T, y.Faults = 1, nil
				all = append(all, y)
			case "coord":
				co = ts[i].slot(x.T)
			}
		}
	}
	if co == nil {
		return
	}
	ref, r := w.phase(&simrt.Policy{Mode: "serial", Budget: bigBudget}, [][]op{all})
	if r.Verdict != "" || ref[0].slots[1] == nil {
		return
	}
	one := ref[0].slots[1]
	for _, c := range one.m.cols {
		if a, b := co.tb.Width(c.Name), one.tb.Width(c.Name); a != b {
			o.viols = append(o.viols, viol{"conv", fmt.Sprintf("merged width of column %q is %d, formatting all rows on one table gives %d", c.Name, a, b), 0, 0})
			return
		}
		if a, b := int(co.tb.Width(c.Name)), one.m.cw[c.Name]; a != b {
			o.viols = append(o.viols, viol{"conv", fmt.Sprintf("merged width of column %q is %d, the widest cell of all rows is %d", c.Name, a, b), 0, 0})
			return
		}
	}
}
