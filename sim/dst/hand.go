package main

import (
	"fmt"
	"sort"

	"verif.local/sim/simsync"
)

// Hand-over (C16). Several tasks use the same tables and specifications, the
// way callers that share a table do: under a lock of their own, exclusive for
// calls that change the table, shared or exclusive for the others. The calls
// are executed a second time by one task in the order in which the lock was
// taken, and must give the same results.

type handMark struct {
	seq   int // when the lock was taken
	op    int
	start int // first digest of the op
}

// handLock is the lock of a table: tables over one specification share it,
// because adding a column changes the specification.
func handLock(slot int) int { return (slot - 100) / 10 }

var handSeq int

//go:norace
func nextSeq() int {
	handSeq++
	return handSeq
}

func changes(k string) bool {
	switch k {
	case "fmt", "update", "addcol", "editcol", "new", "bulk":
		return true
	}
	return false
}

func (t *taskState) handStep(o *op) {
	mark := func() {
		t.marks = append(t.marks, handMark{nextSeq(), t.pc - 1, len(t.digests)})
	}
	if o.T < 100 {
		mark()
		t.step(o)
		return
	}
	l := &t.w.locks[handLock(o.T)%len(t.w.locks)]
	if t.w.p.RW && !changes(o.K) {
		l.RLock()
		defer l.RUnlock()
	} else {
		l.Lock()
		defer l.Unlock()
	}
	mark()
	t.step(o)
}

type handDigest struct {
	handMark
	task int
	d    []string
}

// handOrder gives every executed op with its results, in the order of turns.
func handOrder(ts []*taskState) (all []handDigest) {
	for i, t := range ts {
		for k, m := range t.marks {
			end := len(t.digests)
			if k+1 < len(t.marks) {
				end = t.marks[k+1].start
			}
			all = append(all, handDigest{m, i, t.digests[m.start:end]})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].seq < all[j].seq })
	return
}

// handCheck repeats the run in one task.
func handCheck(p *plan, o *outcome) []viol {
	q := p.clone()
	q.Tasks = [][]op{nil}
	q.Final = nil
	for _, h := range o.hand {
		q.Tasks[0] = append(q.Tasks[0], p.Tasks[h.task][h.op])
	}
	a := execPlan(q, 0)
	o.steps += a.steps
	o.fp = mix(o.fp ^ a.fp)
	for _, v := range a.viols {
		if v.Cat == "panic" || v.Cat == "noprogress" || v.Cat == "deadlock" {
			return []viol{{v.Cat, "by one goroutine: " + v.Msg, 0, v.Op}}
		}
	}
	for i, h := range o.hand {
		if i >= len(a.hand) {
			break
		}
		x, y := fmt.Sprintf("%q", h.d), fmt.Sprintf("%q", a.hand[i].d)
		if x != y {
			return []viol{{"hand", fmt.Sprintf("turn %d, op %d of task %d: %s; made by one goroutine in the same order: %s", i, h.op, h.task, clip([]byte(x)), clip([]byte(y))), h.task, h.op}}
		}
	}
	return nil
}

func genC16(r *rng, race bool) *plan {
	p := base("C16", r)
	pool := r.pool(r.in(1, 6), 5)
	p.RW = r.p(1, 2)
	nspec := r.in(1, 2)
	var ids []int
	for i := 0; i < nspec; i++ {
		p.Specs = append(p.Specs, r.cols(0, 4, r.p(1, 3)))
		for j := r.in(1, 2); j > 0; j-- {
			id := 100 + 10*i + j
			ids = append(ids, id)
			p.Setup = append(p.Setup, op{K: "new", T: id, Spec: i})
			for k := r.in(0, 3); k > 0; k-- {
				p.Setup = append(p.Setup, op{K: "fmt", T: id, Row: r.row(len(p.Specs[i]), pool), V: r.n(valueKinds)})
			}
		}
	}
	nt := r.tasks()
	lo, hi := 1, 6
	if r.p(1, 60) {
		hi = 60
	}
	for i := 0; i < nt; i++ {
		var ops []op
		for k := r.in(lo, hi); k > 0; k-- {
			T := ids[r.n(len(ids))]
			cs := p.Specs[handLock(T)]
			nc := len(cs) + r.n(5)/4 // a column may have been added
			var o op
			switch r.n(12) {
			case 0, 1, 2:
				o = op{K: "fmt", T: T, Row: r.row(nc, pool), V: r.n(valueKinds), Item: r.item()}
				if r.p(1, 6) {
					o.Faults = append(o.Faults, r.getterFault(nc, "err", "panic", "goexit", "slow", "reent"))
				}
			case 3:
				o = op{K: "update", T: T, Widths: r.widthsFor(cs, 40), N: r.n(12) / 11}
			case 4:
				if len(cs) > 0 && r.p(1, 4) {
					o = r.editcol(T, len(cs))
				} else if r.p(1, 2) {
					c := col{Name: r.name(r.n(6)), Title: r.cell(4), Short: r.cell(2), Align: r.n(8)}
					o = op{K: "addcol", T: T, Col: &c, Fn: r.n(2)}
				} else {
					o = op{K: "query", T: T, Margin: uint16(r.n(4))}
				}
			case 5:
				o = op{K: "align", T: T, Row: r.row(nc, pool)}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, fault{Seam: "align", At: r.n(nc + 1), Kind: pick(r, "panic", "goexit", "slow", "reent"), N: 4, E: r.n(panicKinds)})
				}
			case 6:
				o = op{K: "header", T: T, Sep: r.sep(false)}
			case 7, 8:
				o = r.mergeOp(T, false)
				if r.p(1, 5) {
					o.Faults = append(o.Faults, r.renderFault(3, nc))
				}
			case 9:
				o = op{K: "query", T: T, Margin: uint16(r.n(4))}
			case 10:
				o = op{K: "basic", T: T, Row: r.row(nc, pool), Sep: r.sep(false), Item: r.item()}
				if r.p(1, 6) {
					o.Faults = append(o.Faults, fault{Seam: "vstr", At: r.n(nc + 1), Kind: pick(r, "err", "panic", "goexit", "slow", "reent"), N: r.n(5), E: r.errKind()})
				}
			case 11:
				o = r.measureOp(pool[r.n(len(pool))], p.EA)
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for _, id := range ids {
		p.Final = append(p.Final, op{K: "query", T: id, Margin: 1}, op{K: "header", T: id, Sep: "|"})
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

type handLocks = [4]simsync.RWMutex
