package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif.local/sim/simrt"
)

func (r *rng) logn(max int) int {
	// log-uniform in 0..max
	bits := 0
	for 1<<bits <= max {
		bits++
	}
	v := r.n(1 << r.in(0, bits))
	if v > max {
		v = max
	}
	return v
}

func (r *rng) policy(tasks int, budget int64) simrt.Policy {
	p := simrt.Policy{Mode: "random", Seed: r.u64(), Budget: budget, MapSeed: r.u64()}
	if tasks < 2 {
		p.Mode = "serial"
		return p
	}
	switch r.n(6) {
	case 0:
		p.Mode = "pct"
		for i, n := 0, r.in(1, 8); i < n; i++ {
			p.Points = append(p.Points, int64(r.logn(1<<r.in(6, 17))))
		}
		sortInt64(p.Points)
	case 1:
		p.PBase, p.PHot, p.HotPct = 0.0005, 0.5, 2
	case 2:
		p.PBase, p.PHot, p.HotPct = 0, 0.7, 3
	case 3:
		p.PBase = 0.02
	case 4:
		p.PBase = 0.002
	case 5:
		p.PBase, p.PHot, p.HotPct = 0.001, 0.2, 10
	}
	return p
}

func sortInt64(x []int64) {
	for i := range x {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func (r *rng) cap() int {
	switch r.n(4) {
	case 0:
		return 0
	case 1:
		return 1
	default:
		return r.in(2, 12)
	}
}

// tasks draws a number of tasks.
func (r *rng) tasks() int {
	if r.p(1, 40) {
		return r.in(5, 12)
	}
	return r.in(2, 4)
}

// long makes a history longer now and then.
func (r *rng) long(lo, hi int) int {
	if r.p(1, 2000) {
		return r.in(500, 2500)
	}
	if r.p(1, 60) {
		return r.in(hi, 300)
	}
	return r.in(lo, hi)
}

// rows draws a row count: mostly up to small, now and then up to big.
func (r *rng) rows(small, big int) int {
	if r.p(1, 25) {
		return r.logn(big)
	}
	return r.logn(small)
}

func (r *rng) cols(lo, hi int, cb bool) []col {
	n := r.in(lo, hi)
	if r.p(1, 30) {
		n = r.in(hi, 20)
	} else if r.p(1, 400) {
		n = pick(r, r.in(21, 70), r.in(71, 140), r.in(250, 300))
	}
	var cs []col
	for i := 0; i < n; i++ {
		c := col{Name: r.name(i), Title: r.cell(4), Short: r.cell(2), Align: r.n(4)}
		if cb && r.p(1, 2) {
			c.Align = r.in(4, 7)
		}
		if i > 0 && r.p(1, 12) {
			c.Name = cs[0].Name // two columns may share a name, hence a width
		}
		cs = append(cs, c)
	}
	return cs
}

// name draws a column name.
func (r *rng) name(i int) string {
	if r.p(1, 12) {
		return pick(r, "", " ", "C0", "c0 ", " c0", "C1", "c", "c00", "名前", "c0\x00", "c0.c1", strings.Repeat("long", 80))
	}
	return fmt.Sprintf("c%d", i)
}

// widthsFor draws an UpdateWidth argument for some of the columns and others.
func (r *rng) widthsFor(cs []col, max int) map[string]uint16 {
	m := map[string]uint16{}
	k := r.in(0, 3)
	if r.p(1, 50) {
		k = r.in(4, 1<<r.in(3, 8))
	}
	for j := k; j > 0; j-- {
		n := r.name(r.n(5))
		if k > 3 {
			n = fmt.Sprintf("c%d", r.n(2*k))
		}
		if len(cs) > 0 && r.p(3, 4) {
			n = cs[r.n(len(cs))].Name
		}
		m[n] = uint16(r.logn(max))
		if r.p(1, 20) {
			m[n] = uint16(r.logn(65535))
		}
	}
	return m
}

// item draws the kind of item.
func (r *rng) item() int {
	if r.p(1, 2) {
		return 0
	}
	return r.n(5)
}

// pool returns cells that several tasks will use.
func (r *rng) pool(n, max int) []cell {
	var cs []cell
	for i := 0; i < n; i++ {
		cs = append(cs, r.cell(max))
	}
	return cs
}

func (r *rng) row(n int, pool []cell) []cell {
	var row []cell
	for i := 0; i < n; i++ {
		if len(pool) > 0 && r.p(4, 5) {
			row = append(row, pool[r.n(len(pool))])
		} else {
			row = append(row, r.cell(5))
		}
	}
	return row
}

func (r *rng) sep(ascii bool) string {
	if r.p(1, 200) {
		return strings.Repeat(pick(r, " ", ":", "=", "-:"), r.in(1, 1<<r.in(4, 11)))
	}
	if !ascii && r.p(1, 3) {
		if r.p(1, 10) {
			return "\t"
		}
		return pick(r, wideSeps...).s
	}
	return pick(r, " ", "  ", " | ", "", ", ", "::::", " ", "   ")
}

// wideSeps are separators whose bytes and cells differ.
var wideSeps = []tok{
	{" │ ", 3, 4}, {"\x1b[2m|\x1b[0m", 1, 1}, {"世", 2, 2}, {"→", 1, 2}, {" … ", 3, 4}, {"　", 2, 2}, {"👩", 2, 2},
	{"\u200b", 0, 0}, {" \u009b31m┆\u009b0m ", 3, 4}, {"\x1b[38;5;240m▒\x1b[0m ", 2, 3}, {"──", 2, 4}, {"e\u0301", 1, 1},
}

// sepWidth is how many cells a separator takes; known is false where the
// terminal decides.
func sepWidth(s string, ea bool) (w int, known bool) {
	for _, x := range wideSeps {
		if x.s == s {
			if ea {
				return x.ea, true
			}
			return x.w, true
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return 0, false
		}
	}
	return len(s), true
}

func (r *rng) maxw() int {
	switch r.n(12) {
	case 0:
		if !r.p(1, 8) {
			return r.in(100, 1500)
		}
		return pick(r, 65534, 65535, 65536, 1<<20, 60000)
	case 1:
		return pick(r, 0, -1, 1, -100, 2)
	case 2, 3:
		return r.in(80, 300)
	default:
		return r.in(3, 80)
	}
}

// getterFault places a fault at one of the row's getter calls.
func (r *rng) getterFault(cols int, kinds ...string) fault {
	if cols < 1 {
		cols = 1
	}
	return fault{Seam: pick(r, "value", "format"), At: r.n(cols), Kind: pick(r, kinds...), N: r.in(1, 30), E: r.errKind()}
}

func (r *rng) errKind() int {
	if r.p(1, 2) {
		return 0
	}
	return r.n(errKinds)
}

func (r *rng) mergeOp(t int, ascii bool) op {
	return op{K: "merge", T: t, Sep: r.sep(ascii), Max: r.maxw(), Compact: r.p(1, 2), Vert: r.p(1, 2), V: r.n(12), Rev: r.p(1, 4), Fn: r.n(2)}
}

// fitMax biases the maximum width towards the boundaries that matter: exact
// multiples of the group width, one less and one more.
func fitMax(r *rng, o *op, colW []int) {
	if r.p(1, 3) {
		return
	}
	gw := len(colW) - 1
	for _, w := range colW {
		gw += w
	}
	g := r.in(1, 6)
	sw, _ := sepWidth(o.Sep, false)
	o.Max = g*gw + (g-1)*sw + pick(r, -1, 0, 0, 1)
}

func (r *rng) measureOp(c cell, ea bool) op {
	w := c.width(ea) + r.in(-2, 6)
	if r.p(1, 12) {
		w += r.logn(2000)
		if r.p(1, 20) {
			w = maxSupported - r.n(3)
		}
	}
	if w < 0 {
		w = 0
	}
	if w > maxSupported {
		w = maxSupported
	}
	return op{K: "measure", Fn: r.n(3), Cell: c, W: uint16(w)}
}

func base(prop string, r *rng) *plan {
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C11", "C12":
		r.ctl = r.p(1, 3)
	}
	p := &plan{Prop: prop, Run: r.u64(), EA: r.p(1, 4), Cap: r.cap()}
	switch prop {
	case "C01", "C02", "C06", "C08", "C09", "C12", "C16":
		p.Quiet = r.p(1, 2)
	case "C03", "C04", "C05", "C07":
		p.Quiet = r.p(1, 3)
	}
	return p
}

const stdBudget = 1_000_000_000

var renderKinds = []fault{
	{Seam: "write", Kind: "err0"}, {Seam: "write", Kind: "short"}, {Seam: "write", Kind: "full"},
	{Seam: "write", Kind: "panic"}, {Seam: "write", Kind: "goexit"},
	{Seam: "len", Kind: "panic"}, {Seam: "get", Kind: "panic"}, {Seam: "get", Kind: "goexit"},
	{Seam: "align", Kind: "panic"}, {Seam: "align", Kind: "goexit"},
}

func (r *rng) renderFault(rows, cols int) fault {
	f := pick(r, renderKinds...)
	switch f.Seam {
	case "write":
		f.At = r.n(r.in(1, rows+1))
		f.N = r.logn(60)
		f.E = r.errKind()
	case "len":
		f.At = r.n(3)
		if r.p(1, 3) {
			f.Kind = "goexit"
		}
	default:
		f.At = r.logn(rows*cols*2 + 1)
		f.E = r.n(panicKinds)
	}
	return f
}

func genC01(r *rng, race bool) *plan {
	p := base("C01", r)
	pool := r.pool(r.in(1, 6), 4)
	for i := r.in(1, 2); i > 0; i-- {
		p.Specs = append(p.Specs, r.cols(1, 3, r.p(1, 3)))
	}
	nt := r.tasks()
	for i := 0; i < nt; i++ {
		sp := r.n(len(p.Specs))
		nc := len(p.Specs[sp])
		ops := []op{{K: "new", T: 1, Spec: sp}}
		if r.p(1, 4) {
			ops = []op{{K: "new", T: 1, Spec: -1, N: r.n(2)}}
			nc = r.in(1, 2)
			for j := 0; j < nc; j++ {
				ops = append(ops, op{K: "addcol", T: 1, Col: &col{Name: fmt.Sprint("p", j), Title: r.cell(3), Align: r.n(8)}})
			}
		}
		for k := r.in(1, 6); k > 0; k-- {
			var o op
			switch r.n(9) {
			case 0, 1, 2:
				o = op{K: "fmt", T: 1, Row: r.row(nc, pool), V: r.n(valueKinds), Item: r.item()}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, r.getterFault(nc, "err", "panic", "goexit", "slow", "reent"))
				}
			case 3:
				o = op{K: "align", T: 1, Row: r.row(nc, pool)}
			case 4:
				o = op{K: "header", T: 1, Sep: r.sep(false)}
			case 5:
				o = r.mergeOp(1, false)
				if r.p(1, 5) {
					o.Faults = append(o.Faults, r.renderFault(2, nc))
				}
			case 6:
				o = r.measureOp(pool[r.n(len(pool))], p.EA)
			case 7:
				o = op{K: "update", T: 1, Widths: map[string]uint16{"c0": uint16(r.n(9)), "p0": uint16(r.n(9))}}
			case 8:
				o = op{K: "basic", T: 1, Row: r.row(nc, pool), Sep: r.sep(false)}
				if r.p(1, 6) {
					o.Faults = append(o.Faults, fault{Seam: "vstr", At: r.n(nc), Kind: pick(r, "err", "panic", "slow"), N: 5})
				}
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC02(r *rng, race bool) *plan {
	p := base("C02", r)
	pool := r.pool(r.in(1, 6), 4)
	p.Specs = [][]col{r.cols(1, 3, r.p(1, 3))}
	nc := len(p.Specs[0])
	p.Setup = []op{{K: "new", T: 100, Spec: 0}}
	for k := r.in(0, 6); k > 0; k-- {
		p.Setup = append(p.Setup, op{K: "fmt", T: 100, Row: r.row(nc, pool)})
	}
	if r.p(1, 3) {
		p.Setup = append(p.Setup, op{K: "update", T: 100, Widths: map[string]uint16{p.Specs[0][r.n(nc)].Name: uint16(r.n(12))}})
	}
	nt := r.tasks()
	for i := 0; i < nt; i++ {
		var ops []op
		for k := r.in(1, 4); k > 0; k-- {
			var o op
			switch r.n(8) {
			case 0, 1, 2:
				o = r.mergeOp(100, false)
				if r.p(1, 5) {
					o.Faults = append(o.Faults, r.renderFault(3, nc))
				}
			case 3:
				o = op{K: "header", T: 100, Sep: r.sep(false)}
			case 4:
				o = op{K: "query", T: 100, Margin: uint16(r.n(4))}
			case 5:
				o = op{K: "align", T: 100, Row: r.row(nc+r.n(8)/7, pool)}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, fault{Seam: "align", At: r.n(nc + 1), Kind: pick(r, "panic", "goexit", "slow", "reent"), N: 4, E: r.n(panicKinds)})
				}
			case 6:
				o = op{K: "basic", T: 100, Row: r.row(nc, pool), Sep: r.sep(false), Item: r.item()}
				if r.p(1, 5) {
					o.Faults = append(o.Faults, fault{Seam: "vstr", At: r.n(nc), Kind: pick(r, "err", "panic", "goexit", "slow", "reent"), N: r.n(5), E: r.errKind()})
				}
			case 7:
				o = r.measureOp(pool[r.n(len(pool))], p.EA)
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Final = []op{{K: "query", T: 100, Margin: 1}}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

// bounded keeps the work small: the search of compact renderings is quadratic
// in the number of rows.
func bounded(n, nc int) int {
	if nc > 100 && n > 5 {
		n = 5
	} else if nc > 3 && n > 24 && n > 180/nc {
		n = 180 / nc
	}
	return n
}

// fill creates table t with columns of spec 0 and n rows.
func (r *rng) fill(p *plan, t, n, max int, tags bool) (ops []op, colW []int) {
	nc := len(p.Specs[0])
	n = bounded(n, nc)
	ops = []op{{K: "new", T: t, Spec: 0}}
	cw := map[string]int{}
	for i := 0; i < n; i++ {
		o := op{K: "fmt", T: t, V: r.n(valueKinds), N: r.n(4) / 3, Item: r.item()}
		for j := 0; j < nc; j++ {
			c := r.cell(max)
			if n > 24 && c.P > 16 {
				c.P = 16
			}
			if !tags && i > 0 && r.p(1, 3) {
				c = ops[1].Row[r.n(nc)] // repeated text
			}
			if tags {
				c.Tag = fmt.Sprintf("<%d.%d>", i, j)
			}
			if w := c.width(p.EA); w > cw[p.Specs[0][j].Name] {
				cw[p.Specs[0][j].Name] = w
			}
			o.Row = append(o.Row, c)
		}
		ops = append(ops, o)
		if r.p(1, 12) {
			// a row that fails in between
			bad := o
			bad.Row = r.row(nc, nil)
			bad.Faults = []fault{r.getterFault(nc, "err", "panic")}
			ops = append(ops, bad)
		}
	}
	if r.p(1, 6) {
		w := uint16(r.n(16))
		if r.p(1, 12) {
			w = uint16(pick(r, 20000, 32768, 65535, 40000))
		}
		nm := p.Specs[0][0].Name
		ops = append(ops, op{K: "update", T: t, Widths: map[string]uint16{nm: w}})
		if int(w) > cw[nm] {
			cw[nm] = int(w)
		}
	}
	for _, c := range p.Specs[0] {
		colW = append(colW, cw[c.Name])
	}
	return
}

func genC03(r *rng, race bool) *plan {
	p := base("C03", r)
	if r.p(1, 500) {
		return r.bulk(p)
	}
	p.Specs = [][]col{r.cols(1, 3, r.p(1, 4))}
	nc := len(p.Specs[0])
	nt := pick(r, 1, 1, 1, 2)
	for i := 0; i < nt; i++ {
		n := r.rows(24, 100)
		ops, cw := r.fill(p, 1, n, 4, r.p(1, 2))
		for k := r.in(1, 4); k > 0; k-- {
			if nt == 1 {
				ops = append(ops, r.between(p, 1, cw, &n)...)
			}
			o := r.mergeOp(1, false)
			fitMax(r, &o, cw)
			if r.p(5, 6) {
				f := fault{Seam: "write", Kind: pick(r, "err0", "short", "full", "short"), At: r.n(r.in(1, n+1)), N: r.logn(80), E: r.errKind()}
				if r.p(1, 3) {
					f.At = 0
				}
				o.Faults = append(o.Faults, f)
				if r.p(1, 6) { // the device keeps failing
					for j := 1; j <= 4; j++ {
						o.Faults = append(o.Faults, fault{Seam: "write", Kind: "err0", At: f.At + j, E: f.E})
					}
				}
			}
			ops = append(ops, o)
		}
		_ = nc
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC04(r *rng, race bool) *plan {
	p := base("C04", r)
	p.Specs = [][]col{r.cols(1, 3, r.p(3, 4))}
	nc := len(p.Specs[0])
	nt := pick(r, 1, 1, 2)
	for i := 0; i < nt; i++ {
		n := r.rows(16, 100)
		ops, cw := r.fill(p, 1, n, 4, r.p(1, 2))
		for k := r.in(1, 4); k > 0; k-- {
			if nt == 1 {
				ops = append(ops, r.between(p, 1, cw, &n)...)
			}
			o := r.mergeOp(1, false)
			fitMax(r, &o, cw)
			o.Faults = append(o.Faults, r.renderFault(n, nc))
			if r.p(1, 5) {
				o.Faults = append(o.Faults, fault{Seam: pick(r, "get", "write", "align"), At: r.n(4), Kind: pick(r, "slow", "reent"), N: r.in(1, 20)})
			}
			ops = append(ops, o)
			if r.p(1, 4) {
				ops = append(ops, op{K: "query", T: 1})
			}
		}
		if r.p(1, 3) {
			o := op{K: "probe", T: 1, Row: r.row(nc, nil), V: r.n(valueKinds), Item: r.item(), Sep: r.sep(false), Margin: uint16(r.n(4)), Max: r.in(0, 80), Widths: map[string]uint16{}}
			for _, c := range p.Specs[0] {
				if r.p(1, 2) {
					o.Widths[c.Name] = uint16(r.logn(60))
				}
			}
			ops = append(ops, o)
		}
		ops = append(ops, op{K: "header", T: 1, Sep: " "}, r.mergeOp(1, false))
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC05(r *rng, race bool) *plan {
	p := base("C05", r)
	p.Specs = [][]col{r.cols(1, 5, r.p(1, 4))}
	nc := len(p.Specs[0])
	nt := pick(r, 1, 1, 1, 2)
	pool := r.pool(5, 5)
	for i := 0; i < nt; i++ {
		ops := []op{{K: "new", T: 1, Spec: 0}}
		tabs := 1
		if r.p(1, 4) {
			tabs = 2
			ops = append(ops, op{K: "new", T: 2, Spec: 0})
		}
		for k := r.long(2, 10); k > 0; k-- {
			o := op{K: "fmt", T: r.in(1, tabs), Row: r.row(nc, pool), V: r.n(valueKinds), Item: r.item(), N: r.n(6) / 5}
			if r.p(1, 3) {
				o = op{K: "basic", T: r.in(1, tabs), Row: r.row(nc, pool), Sep: r.sep(false), Item: r.item()}
				if r.p(1, 2) {
					o.Faults = append(o.Faults, fault{Seam: "vstr", At: r.n(nc), Kind: pick(r, "err", "err", "panic", "goexit", "reent"), N: r.in(1, 4), E: r.errKind()})
				}
			} else if r.p(1, 2) {
				o.Faults = append(o.Faults, r.getterFault(nc, "err", "err", "panic", "goexit", "slow", "reent"))
				if r.p(1, 6) {
					o.Faults = append(o.Faults, r.getterFault(nc, "reent", "slow"))
				}
			}
			ops = append(ops, o)
		}
		for x := 1; x <= tabs; x++ {
			ops = append(ops, op{K: "query", T: x})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC06(r *rng, race bool) *plan {
	p := base("C06", r)
	p.Specs = [][]col{r.cols(0, 4, r.p(1, 4))}
	nt := pick(r, 1, 1, 1, 2)
	pool := r.pool(5, 6)
	for i := 0; i < nt; i++ {
		cs := append([]col(nil), p.Specs[0]...)
		ops := []op{{K: "new", T: 1, Spec: 0}}
		own := nt == 1 && r.p(1, 2)
		tabs := 1
		if r.p(1, 4) {
			tabs = 2 // two tables over one specification
			ops = append(ops, op{K: "new", T: 2, Spec: 0})
		}
		n := r.long(2, 14)
		rare := n > 14 && r.p(1, 2) // mostly rows, of which a few are wider than all before
		for k := n; k > 0; k-- {
			nc := len(cs)
			T := r.in(1, tabs)
			kind := r.n(9)
			if rare && r.p(2, 3) {
				kind = 0
			}
			switch kind {
			case 0, 1, 2:
				o := op{K: "fmt", T: T, Row: r.row(nc, pool), V: r.n(valueKinds), Item: r.item(), N: r.n(6) / 5}
				if r.p(1, 5) {
					o.Faults = append(o.Faults, r.getterFault(nc, "err", "panic", "goexit", "reent"))
				}
				if rare && nc > 0 && r.p(1, 2) {
					o.Row[r.n(nc)] = cell{P: 20 + n - k, PT: 0}
				}
				if r.p(1, 400) && nc > 0 {
					o.Row[0] = cell{T: []int{0}, Rep: pick(r, 65535, 65536, 66000)}
				}
				ops = append(ops, o)
			case 3:
				m := r.widthsFor(cs, 40)
				ops = append(ops, op{K: "update", T: T, Widths: m, N: r.n(12) / 11})
			case 4:
				if own && nc < 6 {
					c := col{Name: r.name(r.n(6)), Title: r.cell(4), Short: r.cell(2), Align: r.n(4)}
					cs = append(cs, c)
					ops = append(ops, op{K: "addcol", T: T, Col: &c, Fn: r.n(2)})
				}
			case 5:
				cells := nc
				if r.p(1, 6) {
					cells = nc + r.in(-1, 1)
				}
				if cells < 0 {
					cells = 0
				}
				o := op{K: "align", T: T, Row: r.row(cells, pool)}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, fault{Seam: "align", At: r.n(nc + 1), Kind: pick(r, "panic", "goexit", "slow", "reent"), N: 4, E: r.n(panicKinds)})
				}
				ops = append(ops, o)
			case 6:
				ops = append(ops, op{K: "header", T: T, Sep: r.sep(false)})
			case 7:
				ops = append(ops, op{K: "query", T: T, Margin: uint16(r.logn(r.in(4, 65535)))})
			case 8:
				if nt == 1 && nc > 0 && r.p(1, 2) {
					ops = append(ops, r.editcol(T, nc))
					break
				}
				ops = append(ops, r.measureOp(pool[r.n(len(pool))], p.EA))
			}
		}
		for x := 1; x <= tabs; x++ {
			ops = append(ops, op{K: "header", T: x, Sep: " "}, op{K: "query", T: x, Margin: 1})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC07(r *rng, race bool) *plan {
	p := base("C07", r)
	p.Specs = [][]col{r.cols(1, 4, false)}
	nc := len(p.Specs[0])
	pool := r.pool(6, 6)
	nw := r.in(1, 4)
	if r.p(1, 40) {
		nw = r.in(5, 12)
	}
	co := []op{{K: "new", T: 1, Spec: 0}}
	for k := r.n(3); k > 0; k-- {
		co = append(co, op{K: "fmt", T: 1, Row: r.row(nc, pool)})
	}
	for k := r.n(3); k > 0; k-- {
		// rows of its own between deliveries
		co = append(co, op{K: "coord", T: 1, N: r.in(1, 4)}, op{K: "fmt", T: 1, Row: r.row(nc, pool)})
	}
	co = append(co, op{K: "coord", T: 1})
	p.Tasks = [][]op{co}
	lossy, dupy, late := r.p(1, 2), r.p(1, 2), r.p(1, 2)
	for i := 0; i < nw; i++ {
		ops := []op{{K: "new", T: 1, Spec: 0}}
		batches := r.in(1, 4)
		if r.p(1, 100) {
			batches = r.in(5, 60)
		}
		for b := batches; b > 0; b-- {
			if r.p(1, 3) {
				ops = append(ops, op{K: "new", T: 1, Spec: 0}) // report per batch
			}
			rows := r.in(0, 3)
			if batches < 5 && r.p(1, 200) {
				rows = r.in(4, 150)
			}
			for k := rows; k > 0; k-- {
				o := op{K: "fmt", T: 1, Row: r.row(nc, pool)}
				if r.p(1, 8) {
					o.Faults = append(o.Faults, r.getterFault(nc, "slow", "err", "panic"))
				}
				ops = append(ops, o)
			}
			s := op{K: "send", T: 1, Fn: pick(r, 0, 0, 1, 2)}
			if dupy {
				s.Dup = r.n(3)
			}
			if lossy {
				s.Lost = r.p(1, 3)
			}
			if late {
				s.Delay = r.n(6)
			}
			ops = append(ops, s)
		}
		ops = append(ops, op{K: "flush"})
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nw+1, stdBudget)
	return p
}

// bulk is a table with very many rows.
func (r *rng) bulk(p *plan) *plan {
	p.Specs = [][]col{r.cols(1, 2, false)[:1]}
	if r.p(1, 2) {
		p.Specs[0] = append(p.Specs[0], col{Name: "b", Align: r.n(4)})
	}
	p.Specs[0][0].Name = "a"
	n := r.in(100, 1100)
	if r.p(1, 4) {
		n = r.in(1000, 3500)
	}
	if r.p(1, 15) {
		n = r.in(65530, 65545) + r.n(2)*r.n(5000)
		if r.p(1, 2) {
			n = r.in(1101, 20000)
		}
	}
	ops := []op{{K: "new", T: 1, Spec: 0}, {K: "bulk", T: 1, N: n}}
	k := r.in(1, 3)
	wide := 0
	if n > 3500 && r.p(1, 2) {
		wide = r.in(10, 20)
		ops = append(ops, op{K: "update", T: 1, Widths: map[string]uint16{"a": uint16(wide)}})
	}
	if n > 3500 {
		k, p.Specs[0] = 1, p.Specs[0][:1]
	}
	for ; k > 0; k-- {
		o := r.mergeOp(1, false)
		o.Max = r.in(1, 160)
		if n > 3500 {
			o.Compact = false
		}
		if wide > 0 {
			o.Max = r.in(0, 2*wide)
		}
		if !o.Compact && wide == 0 && r.p(1, 3) {
			o.Max = pick(r, 65535, 4000, 2000, 10000)
		}
		if r.p(1, 2) && p.Prop != "C09" && n <= 3500 {
			f := fault{Seam: "write", Kind: pick(r, "err0", "short", "full", "short"), At: r.logn(n), N: r.logn(80), E: r.errKind()}
			o.Faults = append(o.Faults, f)
		}
		ops = append(ops, o)
	}
	p.Tasks = [][]op{ops}
	p.Pol = r.policy(1, stdBudget)
	return p
}

// giant is a table of few rows of which one or two take all the width there
// can be.
func (r *rng) giant(p *plan) *plan {
	p.Specs = [][]col{r.cols(1, 2, false)[:1]}
	if r.p(1, 2) {
		p.Specs[0] = append(p.Specs[0], col{Name: "b", Align: r.n(4)})
	}
	p.Specs[0][0].Name = "a"
	ops := []op{{K: "new", T: 1, Spec: 0}}
	n := r.in(1, 4)
	for i := 0; i < n; i++ {
		o := op{K: "fmt", T: 1}
		for j := range p.Specs[0] {
			c := cell{Tag: fmt.Sprintf("<%d.%d>", i, j)}
			if j == 0 || r.p(1, 3) {
				c.T, c.Rep = []int{0}, pick(r, r.in(1, 300), r.in(10000, 33000), 32767, 32768, 33000, r.in(40000, 66000), 65535, 65536)
			}
			o.Row = append(o.Row, c)
		}
		ops = append(ops, o)
	}
	for k := r.in(1, 3); k > 0; k-- {
		o := r.mergeOp(1, true)
		o.Max = pick(r, r.in(100, 70000), r.in(30000, 66000), 65535, 65536, 131072, 1<<20)
		ops = append(ops, o)
	}
	p.Tasks = [][]op{ops}
	p.Pol = r.policy(1, stdBudget)
	return p
}

// wideSpec makes a table with hundreds of columns now and then.
func (r *rng) wideSpec(p *plan) bool {
	if !r.p(1, 600) {
		return false
	}
	var cs []col
	for i, n := 0, r.in(120, 300); i < n; i++ {
		cs = append(cs, col{Name: fmt.Sprintf("c%d", i), Title: r.cell(2), Align: r.n(4)})
	}
	p.Specs = [][]col{cs}
	return true
}

// between is what happens to a table between two renderings: more rows, wider
// columns, an edited column, a question.
func (r *rng) between(p *plan, T int, colW []int, n *int) (ops []op) {
	cs := p.Specs[0]
	if len(cs) == 0 || !r.p(1, 3) {
		return nil
	}
	wider := func(nm string, w int) {
		for i, c := range cs {
			if c.Name == nm && w > colW[i] {
				colW[i] = w
			}
		}
	}
	for k := r.in(1, 3); k > 0; k-- {
		j := r.n(len(cs))
		switch r.n(6) {
		case 0, 1:
			w := colW[j] + r.in(-3, 9)
			if w < 0 || w > 2000 {
				w = r.n(12)
			}
			wider(cs[j].Name, w)
			ops = append(ops, op{K: "update", T: T, Widths: map[string]uint16{cs[j].Name: uint16(w)}})
		case 2:
			o := op{K: "fmt", T: T, V: r.n(valueKinds), Item: r.item()}
			for i, c := range cs {
				x := r.cell(3)
				if x.P > 16 {
					x.P = 16
				}
				x.Tag = fmt.Sprintf("<%d.%d>", *n, i)
				wider(c.Name, x.width(p.EA))
				o.Row = append(o.Row, x)
			}
			*n++
			ops = append(ops, o)
		case 3:
			ops = append(ops, op{K: "header", T: T, Sep: r.sep(false)})
		case 4:
			ops = append(ops, op{K: "query", T: T, Margin: uint16(r.n(5))})
		default:
			ops = append(ops, r.editcol(T, len(cs)))
		}
	}
	return ops
}

func (r *rng) editcol(T, nc int) op {
	return op{K: "editcol", T: T, N: r.n(nc), Fn: r.n(2), Col: &col{Title: r.cell(4), Short: r.cell(2), Align: r.n(4)}}
}

func genC08(r *rng, race bool) *plan {
	p := base("C08", r)
	if r.p(1, 500) {
		return r.bulk(p)
	}
	if r.p(1, 500) {
		return r.giant(p)
	}
	p.Specs = [][]col{r.cols(1, 3, r.p(1, 3))}
	nt := pick(r, 1, 1, 1, 2)
	wide := r.wideSpec(p)
	for i := 0; i < nt; i++ {
		n := r.rows(30, 120)
		if wide && n > 5 {
			n = 5
		}
		ops, cw := r.fill(p, 1, n, 3, r.p(2, 3))
		for k := r.in(1, 5); k > 0; k-- {
			if nt == 1 && !wide {
				ops = append(ops, r.between(p, 1, cw, &n)...)
			}
			o := r.mergeOp(1, false)
			fitMax(r, &o, cw)
			if r.p(1, 4) {
				o.N = r.n(n + 1)
			}
			if r.p(1, 5) {
				o.Faults = append(o.Faults, fault{Seam: "write", Kind: pick(r, "err0", "short", "full"), At: r.n(n + 1), N: r.logn(80), E: r.errKind()})
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC09(r *rng, race bool) *plan {
	p := base("C09", r)
	if r.p(1, 500) {
		return r.bulk(p)
	}
	if r.p(1, 500) {
		return r.giant(p)
	}
	p.Specs = [][]col{r.cols(1, 3, r.p(1, 3))}
	nt := pick(r, 1, 1, 1, 2)
	wide := r.wideSpec(p)
	for i := 0; i < nt; i++ {
		n := r.rows(24, 100)
		if wide && n > 5 {
			n = 5
		}
		ops, cw := r.fill(p, 1, n, r.in(1, 6), !r.p(1, 3))
		for k := r.in(1, 6); k > 0; k-- {
			if nt == 1 && !wide {
				ops = append(ops, r.between(p, 1, cw, &n)...)
			}
			o := r.mergeOp(1, false)
			fitMax(r, &o, cw)
			if r.p(1, 4) {
				o.N = r.n(n + 1)
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC10(r *rng, race bool) *plan {
	p := base("C10", r)
	if r.p(1, 500) {
		return r.bulk(p)
	}
	if r.p(1, 500) {
		return r.giant(p)
	}
	p.Specs = [][]col{r.cols(0, 3, r.p(1, 4))}
	nc := len(p.Specs[0])
	nt := pick(r, 1, 1, 1, 2)
	for i := 0; i < nt; i++ {
		ops := []op{{K: "new", T: 1, Spec: 0}}
		n := bounded(r.rows(20, 100), nc)
		for k := 0; k < n; k++ {
			row := r.row(nc, nil)
			for j := range row {
				if n > 24 && row[j].P > 16 {
					row[j].P = 16
				}
			}
			if r.p(1, 4) {
				for j := range row {
					row[j] = cell{}
				}
			}
			ops = append(ops, op{K: "fmt", T: 1, Row: row})
		}
		if r.p(1, 4) {
			m := map[string]uint16{}
			for j := 0; j < nc; j++ {
				nm := p.Specs[0][j].Name
				m[nm] = uint16(pick(r, 0, 5, 300, 20000, 32767, 32768, 65000, 65535))
				if n > 5 && m[nm] > 400 {
					m[nm] = 400
				}
			}
			ops = append(ops, op{K: "update", T: 1, Widths: m})
		}
		for k := r.in(1, 4); k > 0; k-- {
			if nt == 1 && r.p(1, 4) {
				ops = append(ops, r.between(p, 1, make([]int, nc), &n)...)
			}
			o := r.mergeOp(1, false)
			if r.p(1, 4) {
				o.Sep = ""
			} else if r.p(1, 200) {
				o.Sep = strings.Repeat("=", pick(r, 255, 256, 65535, 65536, 70000))
			}
			if r.p(1, 4) {
				o.Max = pick(r, 65533, 65534, 65535, 65536, 65537, 1<<20, 1<<31, 1<<40, 1<<63-1, -1, -65536, -1<<40, -1<<63, 0, 1)
			}
			if r.p(1, 6) {
				o.N = r.n(n + 1)
			}
			if r.p(1, 10) {
				o.Faults = append(o.Faults, fault{Seam: pick(r, "get", "write"), At: r.n(5), Kind: "slow", N: 20})
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC11(r *rng, race bool) *plan {
	p := base("C11", r)
	pool := r.pool(r.in(2, 8), 5)
	pool = append(pool, cell{}, cell{T: []int{18, 19}}, cell{T: []int{16}})
	for i := r.n(3); i > 0; i-- {
		// strings that agree in a long prefix, in length, or in their ends
		k, pt, x := r.in(1, 1<<r.in(0, 9)), r.n(6), r.in(1, 3)
		if r.p(1, 60) {
			k = r.in(512, 1<<r.in(10, 14))
		}
		for j := r.in(2, 4); j > 0; j-- {
			c := cell{P: k, PT: pt}
			for y := 0; y < x; y++ {
				c.T = append(c.T, pick(r, 0, 2, 5, 18, 8, 48, r.tok()))
			}
			pool = append(pool, c)
		}
		h, tl := r.tok(), r.tok()
		for j := r.in(1, 3); j > 0; j-- {
			c := cell{T: []int{h}}
			for y := r.in(1, 12); y > 0; y-- {
				c.T = append(c.T, r.tok())
			}
			c.T = append(c.T, tl)
			pool = append(pool, c)
		}
		pool = append(pool, cell{T: []int{5, 5}}, cell{T: []int{0, 0, 0, 0, 0, 0}}, cell{T: []int{8, 0, 0, 0}})
	}
	meas := func() op {
		o := r.measureOp(pool[r.n(len(pool))], p.EA)
		if r.p(1, 6) {
			o.Fn, o.W = 3, 0
		}
		return o
	}
	if r.p(1, 1500) {
		// the shipped capacity, overflowed and revisited
		p.Cap = 0
		var ops []op
		some := func() {
			for k := r.in(3, 10); k > 0; k-- {
				ops = append(ops, meas())
			}
		}
		some()
		for k := r.in(2, 3); k > 0; k-- {
			ops = append(ops, op{K: "flood", Fn: r.n(2), N: pick(r, 9990, 10000, 10050, 10001)})
			some()
		}
		p.Tasks = [][]op{ops}
		p.Pol = r.policy(1, stdBudget*5)
		return p
	}
	// the same strings also as cells, titles and separators of tables
	nc := 0
	if r.p(1, 3) {
		pool = append(pool, cell{T: []int{tokOf("\t")}}, cell{T: []int{tokOf(" ")}})
		cs := []col{}
		for nc = r.in(1, 3); len(cs) < nc; {
			cs = append(cs, col{Name: fmt.Sprint("c", len(cs)), Title: pool[r.n(len(pool))], Short: pool[r.n(len(pool))], Align: r.n(4)})
		}
		p.Specs = [][]col{cs}
	}
	sep := func() string {
		if s := pool[r.n(len(pool))].str(); utf8.ValidString(s) && len(s) < 100 {
			return s
		}
		return "\t"
	}
	nt := r.in(1, 3)
	for i := 0; i < nt; i++ {
		var ops []op
		if nc > 0 {
			ops = append(ops, op{K: "new", T: 1, Spec: 0})
		}
		for k := r.rows(14, 60) + 3; k > 0; k-- {
			if nc > 0 && r.p(1, 3) {
				switch r.n(5) {
				case 0, 1:
					ops = append(ops, op{K: "fmt", T: 1, Row: r.row(nc, pool)})
				case 2:
					ops = append(ops, op{K: "header", T: 1, Sep: sep()})
				case 3:
					ops = append(ops, op{K: "align", T: 1, Row: r.row(nc, pool)})
				default:
					o := r.mergeOp(1, false)
					o.Sep = sep()
					ops = append(ops, o)
				}
				continue
			}
			if r.p(1, 12) {
				ops = append(ops, r.typing(pool[r.n(len(pool))], p.EA)...)
				continue
			}
			if r.p(1, 8) {
				n := r.in(1, 40)
				ops = append(ops, op{K: "flood", Fn: r.n(3), N: n})
				continue
			}
			ops = append(ops, meas())
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget*5)
	return p
}

// typing measures a string as it grows or shrinks byte by byte (through the
// middle of characters and escape sequences), at its end or its beginning.
func (r *rng) typing(c cell, ea bool) (ops []op) {
	c.T = append([]int(nil), c.T...)
	for k := r.in(0, 3); k > 0; k-- {
		c.T = append(c.T, r.tok())
	}
	if r.p(1, 3) {
		x := len(toks) - ctlToks - 1
		for toks[x].s != "\xff" {
			x--
		}
		c.T = append(c.T, x, x)
	}
	n := len(c.str())
	if n < 2 {
		return nil
	}
	from := r.in(1, n)
	if from > 40 {
		from = r.in(1, 40)
	}
	to := from - r.in(1, 12)
	if to < 0 {
		to = 0
	}
	cuts := []int{}
	for x := from; x >= to; x-- {
		cuts = append(cuts, x)
	}
	switch r.n(4) {
	case 0:
		for i := range cuts {
			j := r.n(i + 1)
			cuts[i], cuts[j] = cuts[j], cuts[i]
		}
	case 1:
		for i, j := 0, len(cuts)-1; i < j; i, j = i+1, j-1 {
			cuts[i], cuts[j] = cuts[j], cuts[i]
		}
	}
	fn, front := r.n(3), r.p(1, 4)
	w := uint16(c.width(ea)%1000 + r.in(1, 12))
	for _, x := range cuts {
		y := c
		if front {
			y.Skip = x
		} else {
			y.Cut = x
		}
		ops = append(ops, op{K: "measure", Fn: fn, Cell: y, W: w})
	}
	return ops
}

// crowd is many tasks stuck in callbacks of the same kind of call, and a few
// that are not.
func (r *rng) crowd(p *plan, nc int, pool []cell) {
	stuck := r.in(3, 20)
	if r.p(1, 12) {
		stuck = r.in(20, 140)
	}
	free := r.in(1, 2)
	kind := r.n(6)
	mk := func(kind, T int, stall bool) op {
		var o op
		seam := "write"
		switch kind {
		case 0, 1:
			o = r.mergeOp(T, false)
			o.Vert = kind == 1
			o.Max, seam = r.in(0, 40), pick(r, "write", "write", "get", "len")
		case 2:
			o = op{K: "fmt", T: 1, Row: r.row(nc, pool)}
			seam = pick(r, "value", "format")
		case 3:
			o = op{K: "basic", T: T, Row: r.row(nc, pool), Sep: " "}
			seam = "vstr"
		case 4:
			o = op{K: "align", T: T, Row: r.row(nc, pool)}
			seam = "align"
		default:
			return op{K: "header", T: T, Sep: " "}
		}
		if stall {
			o.Faults = []fault{{Seam: seam, Kind: "stall", N: r.n(30)}}
		}
		return o
	}
	for i := 0; i < stuck+free; i++ {
		ops := []op{{K: "new", T: 1, Spec: 0}}
		k := kind
		if kind == 5 {
			k = r.n(5)
		}
		if i < stuck {
			ops = append(ops, mk(k, pick(r, 1, 100), true))
		} else {
			for k := 0; k < 6; k++ {
				ops = append(ops, mk(k, pick(r, 1, 100), false))
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(stuck+free, stdBudget)
}

func genC12(r *rng, race bool) *plan {
	p := base("C12", r)
	pool := r.pool(r.in(1, 5), 3)
	p.Specs = [][]col{r.cols(1, 2, r.p(1, 2))}
	nc := len(p.Specs[0])
	p.Setup = []op{{K: "new", T: 100, Spec: 0}}
	for k := r.in(1, 4); k > 0; k-- {
		p.Setup = append(p.Setup, op{K: "fmt", T: 100, Row: r.row(nc, pool)})
	}
	if r.p(1, 16) {
		r.crowd(p, nc, pool)
		return p
	}
	nt := r.tasks()
	stalls := r.in(1, nt-1)
	for i := 0; i < nt; i++ {
		ops := []op{{K: "new", T: 1, Spec: 0}, {K: "fmt", T: 1, Row: r.row(nc, pool)}}
		for k := r.in(1, 4); k > 0; k-- {
			var o op
			seams := []string{"write", "get", "align", "len"}
			switch r.n(10) {
			case 6:
				o = op{K: "header", T: pick(r, 1, 100), Sep: " "}
			case 7:
				o = op{K: "query", T: 100, Margin: 1}
			case 8:
				o = op{K: "basic", T: 100, Row: r.row(nc, pool), Sep: " ", Item: r.item()}
				seams = []string{"vstr"}
			case 9:
				o = op{K: "align", T: 100, Row: r.row(nc, pool)}
				seams = []string{"align"}
			case 0, 1:
				o = op{K: "fmt", T: 1, Row: r.row(nc, pool)}
				seams = []string{"value", "format"}
			case 2:
				o = op{K: "basic", T: 1, Row: r.row(nc, pool), Sep: " "}
				seams = []string{"vstr"}
			case 3:
				o = r.mergeOp(1, false)
			case 4:
				o = r.mergeOp(100, false)
			case 5:
				o = op{K: "align", T: 1, Row: r.row(nc, pool)}
				seams = []string{"align"}
			}
			kind := ""
			if i < stalls && r.p(1, 2) {
				kind = "stall"
			} else if r.p(1, 5) {
				kind = "reent"
			}
			if kind != "" {
				o.Faults = append(o.Faults, fault{Seam: pick(r, seams...), At: r.n(3), Kind: kind, N: r.n(30)})
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}

func genC13(r *rng, race bool) *plan {
	p := base("C13", r)
	nt := r.in(1, 3)
	if race && nt == 1 {
		nt = 2
	}
	nc := r.in(1, 2)
	rounds := r.in(1, 4)
	if race {
		rounds = r.in(1, 2)
	}
	for i := 0; i < rounds; i++ {
		p.Round = append(p.Round, op{K: "round", T: r.n(nc), EA: r.p(1, 2), Strict: r.p(1, 2), N: r.n(2), Fn: r.n(2)})
	}
	for i := 0; i < nt; i++ {
		var ops []op
		for k := r.in(1, 4); k > 0; k-- {
			if r.p(1, 2) {
				ops = append(ops, op{K: "rw", T: r.n(nc), N: pick(r, r.n(0x110000), r.n(0x3000), 0x10fff0, 0x2600, -8, 0x1f300), W: uint16(r.in(1, 60))})
			} else {
				ops = append(ops, op{K: "sw", T: r.n(nc), Cell: r.cell(8), Fn: r.n(2)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if nt > 1 && r.p(1, 6) {
		// some tasks have a condition of their own, built while others measure
		p.Pol = r.policy(nt, bigBudget)
		if p.Pol.Mode == "pct" {
			for i := range p.Pol.Points {
				p.Pol.Points[i] = int64(r.logn(1 << r.in(10, 26)))
			}
			sortInt64(p.Pol.Points)
		} else {
			p.Pol.PBase, p.Pol.PHot, p.Pol.HotPct = pick(r, 1e-6, 1e-5, 1e-4), 0, 0
		}
		if len(p.Round) > 2 {
			p.Round = p.Round[:2]
		}
		for i, n := 0, r.in(1, 2); i < n; i++ {
			own := 10 + i
			var ops []op
			for k := r.in(1, 2); k > 0; k-- {
				ops = append(ops, op{K: "round", T: own, EA: r.p(1, 2), Strict: r.p(1, 2), Fn: r.n(2)},
					op{K: "rw", T: own, N: r.n(0x110000), W: uint16(r.in(1, 60))}, op{K: "sw", T: own, Cell: r.cell(8)})
			}
			ops = append(ops, op{K: "scan", T: own})
			p.Tasks[i] = append(ops, p.Tasks[i]...)
		}
		if !race {
			for c := 0; c < nc; c++ {
				p.Scan = append(p.Scan, op{K: "scan", T: c})
			}
		}
		return p
	}
	if !race {
		for c := 0; c < nc; c++ {
			p.Scan = append(p.Scan, op{K: "scan", T: c}, op{K: "sws", T: c, N: r.n(1 << 30), Fn: r.n(2)})
		}
	}
	p.Pol = r.policy(nt, stdBudget)
	return p
}
