package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verif.local/sim/simrt"
)

type deadline struct{ at time.Time }

func newDeadline(secs float64) *deadline {
	if secs <= 0 {
		return &deadline{}
	}
	return &deadline{time.Now().Add(time.Duration(secs * float64(time.Second)))}
}

func (d *deadline) passed() bool { return !d.at.IsZero() && time.Now().After(d.at) }

// minimiser shrinks a failing plan while a violation of the same class
// remains.
type minimiser struct {
	pr    *prop
	class string
	dl    *deadline
	best  *plan
	o     *outcome
	vs    []viol
	tries int
}

// try runs q; if it fails in the same class it becomes the best, with its
// decisions recorded.
func (m *minimiser) try(q *plan) bool {
	if m.dl.passed() {
		return false
	}
	m.tries++
	if m.class == "noprogress" {
		q.Pol.Budget = stdBudget / 8
	}
	o, vs := check(m.pr, q)
	for i, v := range vs {
		if v.Cat == m.class {
			vs[0], vs[i] = vs[i], vs[0]
			r := q.clone()
			r.Pol.Mode = "replay"
			r.Pol.Points = nil
			r.Replays = o.switches
			m.best, m.o, m.vs = r, o, vs
			return true
		}
	}
	return false
}

// attempt tries q under the recorded decisions, then (when the shape of the
// program changed) under a few fresh schedules.
func (m *minimiser) attempt(q *plan, fresh int) bool {
	if m.try(q) {
		return true
	}
	if len(q.Tasks) < 2 {
		return false
	}
	for i := 0; i < fresh; i++ {
		r := &rng{s: mix(q.Run + uint64(i))}
		x := q.clone()
		x.Replays = nil
		b, ms := x.Pol.Budget, x.Pol.MapSeed
		x.Pol = r.policy(len(x.Tasks), b)
		x.Pol.MapSeed = ms
		if m.try(x) {
			return true
		}
	}
	return false
}

func (m *minimiser) opLists(p *plan) []*[]op {
	l := []*[]op{&p.Setup, &p.Round, &p.Final, &p.Scan}
	for i := range p.Tasks {
		l = append(l, &p.Tasks[i])
	}
	return l
}

func (m *minimiser) pass() bool {
	changed := false
	// no switches at all?
	n := len(flat(m.best.Replays))
	if n > 0 {
		q := m.best.clone()
		q.Replays = nil
		if m.try(q) && len(flat(m.best.Replays)) < n {
			changed = true
		}
	}
	// whole tasks
	for i := len(m.best.Tasks) - 1; i >= 0 && len(m.best.Tasks) > 1; i-- {
		q := m.best.clone()
		q.Tasks = append(q.Tasks[:i:i], q.Tasks[i+1:]...)
		if m.attempt(q, 6) {
			changed = true
		}
	}
	// chunks of ops
	for li := range m.opLists(m.best) {
		for size := 8; size >= 1; size /= 2 {
			for i := 0; ; {
				l := m.opLists(m.best)
				if li >= len(l) || i+size > len(*l[li]) {
					break
				}
				q := m.best.clone()
				ql := m.opLists(q)[li]
				*ql = append((*ql)[:i:i], (*ql)[i+size:]...)
				if m.attempt(q, 4) {
					changed = true
				} else {
					i += size
				}
			}
		}
	}
	// faults
	for li := range m.opLists(m.best) {
		for i := 0; ; i++ {
			l := m.opLists(m.best)
			if li >= len(l) || i >= len(*l[li]) {
				break
			}
			for k := len((*l[li])[i].Faults) - 1; k >= 0; k-- {
				q := m.best.clone()
				o := &(*m.opLists(q)[li])[i]
				o.Faults = append(o.Faults[:k:k], o.Faults[k+1:]...)
				if m.attempt(q, 2) {
					changed = true
				}
			}
		}
	}
	// configuration
	for _, f := range []func(q *plan) bool{
		func(q *plan) bool { c := q.EA; q.EA = false; return c },
		func(q *plan) bool { c := q.Cap != 0; q.Cap = 0; return c },
		func(q *plan) bool { c := q.Pol.MapSeed != 0; q.Pol.MapSeed = 0; return c },
	} {
		q := m.best.clone()
		if f(q) && m.attempt(q, 0) {
			changed = true
		}
	}
	// columns without callbacks, columns dropped from the end
	for si := range m.best.Specs {
		for ci := range m.best.Specs[si] {
			q := m.best.clone()
			if q.Specs[si][ci].Align != 0 {
				q.Specs[si][ci].Align = 0
				if m.attempt(q, 2) {
					changed = true
				}
			}
			q = m.best.clone()
			if len(q.Specs[si][ci].Title.T)+len(q.Specs[si][ci].Short.T) > 0 {
				q.Specs[si][ci].Title, q.Specs[si][ci].Short = cell{}, cell{}
				if m.attempt(q, 0) {
					changed = true
				}
			}
		}
		for len(m.best.Specs[si]) > 1 {
			q := m.best.clone()
			q.Specs[si] = q.Specs[si][:len(q.Specs[si])-1]
			nc := len(q.Specs[si])
			for _, l := range m.opLists(q) {
				for i := range *l {
					if o := &(*l)[i]; (o.K == "fmt" || o.K == "basic" || o.K == "align") && len(o.Row) == nc+1 {
						o.Row = o.Row[:nc]
					}
				}
			}
			if !m.attempt(q, 4) {
				break
			}
			changed = true
		}
	}
	// arguments
	for li := range m.opLists(m.best) {
		for i := 0; ; i++ {
			l := m.opLists(m.best)
			if li >= len(l) || i >= len(*l[li]) {
				break
			}
			o := (*l[li])[i]
			edit := func(f func(o *op)) {
				q := m.best.clone()
				f(&(*m.opLists(q)[li])[i])
				if m.attempt(q, 0) {
					changed = true
				}
			}
			for c := range o.Row {
				if len(o.Row[c].T) > 0 || o.Row[c].Rep > 1 {
					edit(func(o *op) { o.Row[c].T, o.Row[c].Rep = nil, 0 })
				}
				if cur := (*m.opLists(m.best)[li])[i]; len(cur.Row[c].T) > 1 {
					edit(func(o *op) { o.Row[c].T = append([]int(nil), o.Row[c].T[:len(o.Row[c].T)/2]...) })
				}
			}
			if o.K == "measure" && len(o.Cell.T) > 1 {
				edit(func(o *op) { o.Cell.T = append([]int(nil), o.Cell.T[1:]...) })
			}
			if o.K == "merge" {
				if o.Compact {
					edit(func(o *op) { o.Compact = false })
				}
				if o.Sep != " " {
					edit(func(o *op) { o.Sep = " " })
				}
				if o.Max != 80 {
					edit(func(o *op) { o.Max = 80 })
				}
			}
			if (o.K == "flood" || o.K == "bulk") && o.N > 1 {
				edit(func(o *op) { o.N /= 2 })
			}
		}
	}
	// scheduling decisions, in chunks
	for ri := 0; ri < len(m.best.Replays); ri++ {
		for size := len(m.best.Replays[ri]); size >= 1; size /= 2 {
			for i := 0; ri < len(m.best.Replays) && i+size <= len(m.best.Replays[ri]); {
				q := m.best.clone()
				x := q.Replays[ri]
				q.Replays[ri] = append(x[:i:i], x[i+size:]...)
				was := len(m.best.Replays[ri])
				if m.try(q) {
					if ri < len(m.best.Replays) && len(m.best.Replays[ri]) < was {
						changed = true
					} else {
						i += size
					}
				} else {
					i += size
				}
				if m.dl.passed() {
					return false
				}
			}
		}
	}
	return changed && !m.dl.passed()
}

func planSize(p *plan) string {
	ops, faults := 0, 0
	for _, l := range append([][]op{p.Setup, p.Round, p.Final, p.Scan}, p.Tasks...) {
		ops += len(l)
		for _, o := range l {
			faults += len(o.Faults)
		}
	}
	return fmt.Sprintf("%d tasks, %d ops, %d faults, %d decisions", len(p.Tasks), ops, faults, len(flat(p.Replays)))
}

func minimiseCmd(args []string) int {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 40, "")
	fs.Parse(args)
	f, err := readFound(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pr := propByID(f.Property)
	m := &minimiser{pr: pr, class: f.Class, dl: newDeadline(*secs), best: f.Plan}
	from := planSize(f.Plan)
	if !m.try(f.Plan.clone()) {
		fmt.Fprintln(os.Stderr, "the run did not fail again when replayed")
		return 3
	}
	for i := 0; i < 8 && m.pass(); i++ {
	}
	m.best.Pol.Budget = f.Plan.Pol.Budget
	// run the best once more so that fingerprint and messages are its own
	o, vs := check(pr, m.best)
	if len(vs) == 0 && simrt.RaceBuild {
		o, vs = m.o, m.vs
	}
	if len(vs) == 0 {
		fmt.Fprintln(os.Stderr, "minimised run did not fail again")
		return 3
	}
	g := toFound(pr, m.best, o, vs, f.Seed, f.Index)
	g.Class = f.Class
	g.Minimised = fmt.Sprintf("from %s to %s in %d attempts", from, planSize(m.best), m.tries)
	if err := writeFound(*out, g); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	json.NewEncoder(os.Stdout).Encode(g.Minimised)
	return 0
}
