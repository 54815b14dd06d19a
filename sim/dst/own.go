package main

import (
	"fmt"
	"strings"

	"verif.local/sim/simrt"
)

// Ownership (C14). The operations below are executed twice: by a caller that
// makes everything anew for each call and leaves it alone afterwards, and by
// one that uses one item, row, list and map over and over and scribbles on
// them, and on what it got back, as soon as a call has returned. Both must see
// the same results.

type ownState struct {
	item *item
	m    map[string]uint16
	row  []string
	list *ownList
	kept []keptRow
}

type keptRow struct {
	row, want []string
	what      string
}

type ownList struct {
	c    *opctx
	rows [][]string
}

func (l *ownList) Len() int { l.c.hit("len"); return len(l.rows) }
func (l *ownList) Get(i int) []string {
	l.c.hit("get")
	return l.rows[i]
}

func (t *taskState) ownOp(o *op, c *opctx) bool {
	if !strings.HasPrefix(o.K, "own-") {
		return false
	}
	s := t.slot(o.T)
	if s == nil {
		return true
	}
	st := t.own
	if st == nil {
		st = &ownState{m: map[string]uint16{}}
		t.own = st
	}
	polite := t.w.p.Polite
	keep := func(row []string, what string) {
		if len(row) > 0 && len(st.kept) < 60 {
			st.kept = append(st.kept, keptRow{row, append([]string(nil), row...), what})
		}
	}
	scribble := func(row []string, what string) {
		for i := range row {
			row[i] = fmt.Sprintf("scribbled %d on %s", t.pc, what)
		}
		keep(row, what+" (since scribbled on)")
	}
	newItem := func() any {
		if polite || st.item == nil {
			st.item = &item{}
		}
		*st.item = item{c, o.Row, o.V}
		c.x, c.it = st.item, st.item
		return st.item
	}
	doneItem := func() {
		if !polite {
			// the item is gone; whoever asks it now gets something else
			*st.item = item{c, []cell{{Tag: "stale"}, {Tag: "stale"}, {Tag: "stale"}}, o.V}
		}
	}
	switch o.K {
	case "own-fmt":
		var row []string
		var err error
		t.call(c, func() { row, err = s.tb.FormatItem(newItem()) }, func(r callResult) {
			doneItem()
			t.digest("FormatItem %q %v %s", row, err, endName(r))
			if row != nil {
				s.rows = append(s.rows, append([]string(nil), row...))
			}
			switch {
			case polite || o.N == 1:
				keep(row, "a row FormatItem returned")
			case o.N == 2:
				// the caller's to extend, too
				keep(append(row, "one more"), "a row FormatItem returned (since extended)")
			default:
				scribble(row, "a row FormatItem returned")
			}
		})
	case "own-basic":
		var str string
		var err error
		t.call(c, func() { str, err = s.tb.FormatItemBasic(newItem(), o.Sep) }, func(r callResult) {
			doneItem()
			t.digest("FormatItemBasic %q %v %s", str, err, endName(r))
		})
	case "own-update":
		arg := st.m
		if polite {
			arg = map[string]uint16{}
		}
		for k := range arg {
			delete(arg, k)
		}
		for k, v := range o.Widths {
			arg[k] = v
		}
		t.call(c, func() { s.tb.UpdateWidth(arg) }, func(r callResult) { t.digest("UpdateWidth %s", endName(r)) })
		if !polite {
			for _, cc := range s.m.cols {
				arg[cc.Name] = 50000
			}
			arg["another"] = 1
		}
	case "own-align":
		n := len(o.Row)
		in := make([]string, n, n+2)
		if !polite {
			if cap(st.row) < n {
				st.row = make([]string, n+40)
			}
			in = st.row[:n]
		}
		for i, x := range o.Row {
			in[i] = x.str()
		}
		var out []string
		var err error
		t.call(c, func() { out, err = s.tb.AlignFormattedItem(in) }, func(r callResult) {
			e := ""
			if err != nil {
				e = "error"
			}
			t.digest("AlignFormattedItem %q %s %s", out, e, endName(r))
			if polite {
				keep(out, "a row AlignFormattedItem returned")
			} else {
				for i := range out {
					out[i] = "scribbled"
				}
				for i := range in {
					in[i] = "scribbled"
				}
			}
		})
	case "own-merge":
		src := s.rows
		if o.N > 0 && o.N < len(src) {
			src = src[len(src)-o.N:]
		}
		if o.Rev {
			src = reversed(src)
		}
		l := &ownList{}
		if !polite && st.list != nil {
			l = st.list
		}
		st.list = l
		l.c = c
		if len(l.rows) > len(src) {
			l.rows = l.rows[:len(src)]
		}
		for i, row := range src {
			if i < len(l.rows) {
				l.rows[i] = append(l.rows[i][:0], row...)
			} else {
				l.rows = append(l.rows, append([]string(nil), row...))
			}
		}
		w := &simWriter{c: c}
		t.call(c, func() {
			if o.Vert {
				s.tb.MergeRowsVertical(w, l, o.Max, o.Sep, o.Compact)
			} else {
				s.tb.MergeRowsHorizontal(w, l, o.Max, o.Sep, o.Compact)
			}
		}, func(r callResult) {
			t.digest("merge %q %s", w.buf, endName(r))
			if !polite {
				for i := range l.rows {
					for j := range l.rows[i] {
						l.rows[i][j] = strings.Repeat("scribbled", 1+j)
					}
				}
			}
		})
	case "own-late":
		// a row kept for a while is overwritten or extended now
		if n := len(st.kept); n > 0 && !polite {
			k := &st.kept[o.N%n]
			if o.Rev {
				k.row = append(k.row, fmt.Sprintf("extended %d", t.pc))
			}
			for i := range k.row {
				k.row[i] = fmt.Sprintf("scribbled %d later", t.pc)
			}
			k.want = append([]string(nil), k.row...)
		}
	case "own-look":
		d := ""
		t.call(c, func() {
			d = fmt.Sprintf("%q %d", s.tb.FormatHeader(o.Sep), s.tb.TableWidth(o.Margin))
			for _, cc := range s.m.cols {
				d += fmt.Sprintf(" %d", s.tb.Width(cc.Name))
			}
			d += fmt.Sprintf(" %d", s.tb.Width("another"))
		}, func(r callResult) { t.digest("look %s %s", d, endName(r)) })
	}
	if simrt.Aborting() {
		return true
	}
	for _, k := range st.kept {
		if !sameRow(k.row, k.want) {
			t.add("owner", "%s changed later: %s is now %s", k.what, clip([]byte(fmt.Sprintf("%q", k.want))), clip([]byte(fmt.Sprintf("%q", k.row))))
			break
		}
	}
	return true
}

// ownCheck compares with a caller that leaves everything alone.
func ownCheck(p *plan, o *outcome) (vs []viol) {
	q := p.clone()
	q.Polite = true
	f := execPlan(q, -1)
	o.steps += f.steps
	for _, v := range f.viols {
		if v.Cat == "owner" || v.Cat == "race" {
			vs = append(vs, v)
		}
	}
	for i := range o.digests {
		if i >= len(f.digests) {
			break
		}
		x, y := o.digests[i], f.digests[i]
		for k := 0; k < len(x) || k < len(y); k++ {
			gx, gy := "(nothing)", "(nothing)"
			if k < len(x) {
				gx = x[k]
			}
			if k < len(y) {
				gy = y[k]
			}
			if gx != gy {
				vs = append(vs, viol{"owner", fmt.Sprintf("task %d result %d: a caller that uses its items, rows, lists and maps again sees %s, one that never does sees %s", i, k, clip([]byte(gx)), clip([]byte(gy))), i, k})
				break
			}
		}
	}
	return vs
}

func genC14(r *rng, race bool) *plan {
	p := base("C14", r)
	p.Specs = [][]col{r.cols(1, 4, r.p(1, 4))}
	cs := p.Specs[0]
	nc := len(cs)
	nt := pick(r, 1, 1, 2)
	if race {
		nt = r.in(2, 3)
	}
	pool := r.pool(6, 4)
	for i := 0; i < nt; i++ {
		tabs := r.in(1, 2)
		ops := []op{{K: "new", T: 1, Spec: 0}}
		if tabs > 1 {
			ops = append(ops, op{K: "new", T: 2, Spec: 0})
		}
		n := r.in(3, 14)
		if !race && r.p(1, 100) {
			n = r.in(15, 120)
		}
		var last []cell
		lastV := 0
		for k := n; k > 0; k-- {
			T := r.in(1, tabs)
			var o op
			switch r.n(11) {
			case 10:
				o = op{K: "own-late", T: T, N: r.n(60), Rev: r.p(1, 2)}
			case 0, 1, 2:
				o = op{K: "own-fmt", T: T, Row: r.row(nc, pool), V: r.n(valueKinds), N: r.n(3)}
				if len(last) > 0 && r.p(1, 4) {
					o.Row, o.V = last, lastV // an equal row
				}
				last, lastV = o.Row, o.V
				if r.p(1, 8) {
					o.Faults = append(o.Faults, r.getterFault(nc, "err", "panic", "goexit", "reent"))
				}
			case 3:
				o = op{K: "own-basic", T: T, Row: r.row(nc, pool), Sep: r.sep(false)}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, fault{Seam: "vstr", At: r.n(nc), Kind: pick(r, "err", "panic", "goexit"), N: r.in(1, 4), E: r.errKind()})
				}
			case 4:
				o = op{K: "own-update", T: T, Widths: r.widthsFor(cs, 30)}
			case 5:
				cells := nc
				if r.p(1, 10) {
					cells++
				}
				o = op{K: "own-align", T: T, Row: r.row(cells, pool)}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, fault{Seam: "align", At: r.n(nc + 1), Kind: pick(r, "panic", "goexit"), N: 4, E: r.n(panicKinds)})
				}
			case 6, 7, 8:
				o = op{K: "own-merge", T: T, Sep: r.sep(false), Max: r.in(0, 90), Compact: r.p(1, 2), Vert: r.p(1, 2), Rev: r.p(1, 2)}
				if r.p(1, 2) {
					o.N = r.in(1, 6)
				} else if k > 30 {
					o.N = r.in(1, 20)
				}
				if r.p(1, 6) {
					o.Faults = append(o.Faults, r.renderFault(6, nc))
				}
			case 9:
				o = op{K: "own-look", T: T, Sep: r.sep(false), Margin: uint16(r.n(3))}
			}
			ops = append(ops, o)
		}
		for x := 1; x <= tabs; x++ {
			ops = append(ops, op{K: "own-look", T: x, Sep: " "}, op{K: "own-merge", T: x, N: 12, Max: 70, Sep: " ", Compact: r.p(1, 2), Vert: r.p(1, 2)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}
