package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
	"weak"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"verif.local/sim/simrt"
)

// Retention (C15). A soak op makes very many calls with strings, rows, items,
// lists, writers, specifications and tables that are used once and dropped,
// callbacks failing now and then, and asks the garbage collector after two
// stages what is still alive. The collector runs only here, with every other
// task parked, so its answer is a function of the schedule.

const (
	soakMeasure = iota // Alignment* of fresh strings
	soakRows           // FormatItem on one table
	soakBasic          // FormatItemBasic on one table
	soakTables         // short-lived specifications and tables
	soakRender         // renderings on one table
	soakConds          // short-lived width conditions
	soakQuery          // Width, HasColumn, UpdateWidth, AlignFormattedItem on one table
	soakMix
	soakPaths
)

var soakNames = []string{"aligning strings", "FormatItem on one table", "FormatItemBasic on one table", "short-lived tables", "renderings on one table", "short-lived width conditions", "queries and aligned rows on one table", "everything in turn"}

var soakKinds = []string{"item", "row", "list", "writer", "table", "column specification", "column", "error", "width condition"}

const (
	kItem = iota
	kRow
	kList
	kWriter
	kTable
	kSpec
	kColumn
	kErr
	kCond
	nKinds
)

type soakState struct {
	o      *op
	i      int // steps done
	made   int // strings made
	stage  int
	calls  int
	failed int
	strs   []weak.Pointer[[8]byte]
	live1  int
	made1  int
	heap1  uint64
	objs   [nKinds][]func() bool
	seen   [nKinds]int
	spec   *table.TableSpec
	tb     *table.Table
}

// str makes a fresh string; every eighth is tracked.
func (st *soakState) str() string {
	i := st.made
	st.made++
	var s string
	k := st.o.V % 7
	if k == 4 {
		k = i % 4
	}
	switch k {
	case 1:
		s = fmt.Sprintf("\x1b[%dmred %d\x1b[0m", 30+i%8, i)
	case 2:
		s = fmt.Sprintf("世界%d", i)
	case 3:
		s = fmt.Sprintf("é\u200b%d", i)
	case 5: // no width at all
		s = fmt.Sprintf("\x1b[%d;%dm", i/1000, i%1000)
	case 6:
		s = fmt.Sprintf("%d ", i)
		return st.own(s+strings.Repeat("long ", 12+i%3), i)
	default:
		s = fmt.Sprintf("cell %d", i)
	}
	return st.own(s, i)
}

// fill puts the cache in the same state at both stages: full of plain
// strings.
func (st *soakState) fill() {
	made := st.made
	st.made = 5000000 + 100000*st.stage
	for i := 0; i < 11000; i++ {
		table.AlignmentLeft(st.own(fmt.Sprintf("cell %d", st.made+i), st.made+i), 3)
	}
	st.made = made
}

func (st *soakState) own(s string, i int) string {
	var p *[8]byte
	if i%50 == 7 || len(s) > 64 {
		b := new([512]byte)
		n := copy(b[:], s)
		for n < 300 && st.o.V%7 != 5 {
			b[n] = 'x'
			n++
		}
		s, p = unsafe.String(&b[0], n), (*[8]byte)(unsafe.Pointer(b))
	} else {
		b := new([64]byte)
		n := copy(b[:], s)
		s, p = unsafe.String(&b[0], n), (*[8]byte)(unsafe.Pointer(b))
	}
	if mix(uint64(i))%8 == 0 && i < 5000000 && len(st.strs) < cap(st.strs) {
		st.strs = append(st.strs, weak.Make(p))
	}
	return s
}

func track[T any](st *soakState, kind int, p *T) *T {
	st.seen[kind]++
	if mix(uint64(st.seen[kind]))%8 == 0 && len(st.objs[kind]) < cap(st.objs[kind]) {
		w := weak.Make(p)
		st.objs[kind] = append(st.objs[kind], func() bool { return w.Value() != nil })
	}
	return p
}

type soakItem struct {
	c     *opctx
	cells [2]string
}

type soakGetter struct{ idx int }

func (g *soakGetter) Value(it any) (any, error) {
	x := it.(*soakItem)
	if f := x.c.hit("value"); f != nil {
		return nil, x.c.err
	}
	return x.cells[g.idx], nil
}

func (g *soakGetter) Format(it any, v any) (string, error) {
	x := it.(*soakItem)
	if f := x.c.hit("format"); f != nil {
		return "", x.c.err
	}
	return x.cells[g.idx], nil
}

func (g *soakGetter) ValueString(n string, it any) (string, error) {
	x := it.(*soakItem)
	if f := x.c.hit("vstr"); f != nil {
		return "", x.c.err
	}
	return x.cells[g.idx], nil
}

func (st *soakState) newSpec(t *taskState) *table.TableSpec {
	sp := track(st, kSpec, table.NewTableSpec())
	for i := 0; i < 2; i++ {
		name := []string{"c0", "c1"}[i]
		if st.tb != nil {
			name = st.str()
		}
		c := &table.Column{Name: name, Title: st.str(), ShortTitle: st.str(), Getter: &soakGetter{i}, Alignment: t.w.alignFn((1 + st.i + i*3) % 7)}
		sp.AddColumn(track(st, kColumn, c))
	}
	return sp
}

// one makes the calls of one step; every call is one t.call.
func (st *soakState) one(t *taskState) {
	o := st.o
	path := o.Fn
	if path == soakMix {
		path = st.i % soakMix
	}
	ctx := func(seams ...string) *opctx {
		c := &opctx{w: t.w, t: t, last: map[int]int{}}
		if st.calls++; o.Dup > 0 && st.calls%o.Dup == 0 {
			st.failed++
			s := seams[st.failed%len(seams)]
			kind := []string{"err", "panic", "err", "goexit"}[(st.failed+o.Item)%4]
			switch {
			case s == "write" && kind == "err":
				kind = []string{"err0", "short", "full"}[st.failed%3]
			case kind == "err" && (s == "len" || s == "get" || s == "align"):
				kind = "panic"
			}
			c.faults = []fault{{Seam: s, At: (st.failed / 3) % 3, Kind: kind, N: 2, E: 0}}
		}
		return c
	}
	done := func(c *opctx) {
		if e, ok := c.err.(*injErr); ok {
			track(st, kErr, e)
		}
	}
	format := func(tb *table.Table) (row []string) {
		c := ctx("value", "format")
		it := track(st, kItem, &soakItem{c, [2]string{st.str(), st.str()}})
		t.call(c, func() {
			row, _ = tb.FormatItem(it)
		}, func(r callResult) {
			t.expectEnd(c, r, "FormatItem", "panic")
			done(c)
			if len(row) > 0 {
				track(st, kRow, &row[0])
			}
		})
		return
	}
	render := func(tb *table.Table, rows [][]string) {
		c := ctx("write", "get", "len", "align")
		l := track(st, kList, &simList{c: c, rows: rows})
		w := track(st, kWriter, &simWriter{c: c})
		sep := st.str()
		if len(sep) > 40 {
			sep = " "
		}
		t.call(c, func() {
			if st.i%2 == 0 {
				tb.MergeRowsHorizontal(w, l, 60+st.i%50, sep, st.i%3 == 0)
			} else {
				tb.MergeRowsVertical(w, l, 60+st.i%50, sep, st.i%3 == 0)
			}
		}, func(r callResult) { t.expectEnd(c, r, "merge rendering", "panic"); done(c) })
	}
	switch path {
	case soakMeasure:
		c := &opctx{w: t.w, t: t}
		s, w := st.str(), uint16(st.i%40)
		if st.i%4 == 1 {
			w = uint16(40 + st.i/8) // a width not asked for before
		}
		t.call(c, func() {
			switch st.i % 3 {
			case 0:
				table.AlignmentLeft(s, w)
			case 1:
				table.AlignmentRight(s, w)
			default:
				table.AlignmentCenter(s, w)
			}
		}, func(r callResult) { t.expectEnd(c, r, "Alignment", "panic") })
	case soakRows:
		format(st.tb)
	case soakBasic:
		c := ctx("vstr")
		it := track(st, kItem, &soakItem{c, [2]string{st.str(), st.str()}})
		sep := " "
		if st.i%5 == 0 {
			sep = st.str()
		}
		t.call(c, func() { st.tb.FormatItemBasic(it, sep) }, func(r callResult) { t.expectEnd(c, r, "FormatItemBasic", "panic"); done(c) })
	case soakTables:
		sp := st.newSpec(t)
		tb := track(st, kTable, table.NewTable(sp))
		var rows [][]string
		for k := 0; k < 2; k++ {
			if r := format(tb); len(r) == 2 {
				rows = append(rows, r)
			}
		}
		c := ctx("align")
		t.call(c, func() { tb.FormatHeader(" "); tb.TableWidth(1) }, func(r callResult) { t.expectEnd(c, r, "FormatHeader", "panic") })
		render(tb, rows)
		if len(rows) > 0 {
			c := ctx("align")
			t.call(c, func() { tb.AlignFormattedItem(rows[0]) }, func(r callResult) { t.expectEnd(c, r, "AlignFormattedItem", "panic") })
		}
	case soakRender:
		var rows [][]string
		for k := 0; k < 4; k++ {
			row := []string{st.str(), st.str()}
			track(st, kRow, &row[0])
			rows = append(rows, row)
		}
		render(st.tb, rows)
	case soakConds:
		c := &opctx{w: t.w, t: t}
		s, s2 := st.str(), st.str()
		t.call(c, func() {
			cd := track(st, kCond, runewidth.NewCondition())
			cd.EastAsianWidth = st.i%2 == 0
			cd.StringWidth(s)
			runewidth.StringWidth(s2)
		}, func(r callResult) { t.expectEnd(c, r, "StringWidth", "panic") })
	case soakQuery:
		c := ctx("align")
		n, n2, a, b := st.str(), st.own([]string{"c0", "c1"}[st.i%2], st.made), st.str(), st.str()
		row := []string{a, b}
		track(st, kRow, &row[0])
		t.call(c, func() {
			st.tb.Width(n)
			st.tb.HasColumn(n)
			st.tb.Width(n2)
			st.tb.UpdateWidth(map[string]uint16{n2: uint16(1 + st.i%20 + st.i/64)})
			if st.i%8 != 3 {
				st.tb.AlignFormattedItem(row)
			} else {
				st.tb.AlignFormattedItem(row[:1])
			}
		}, func(r callResult) { t.expectEnd(c, r, "table query", "panic") })
	}
	st.i++
}

// settle lets goroutines the package started run until they end or wait for
// ever, and counts those that stay.
func settle() int {
	if simrt.Spawned() > 0 {
		simrt.Stall()
	}
	return simrt.Spawned()
}

func (st *soakState) liveStrs() int {
	n := 0
	for _, w := range st.strs {
		if w.Value() != nil {
			n++
		}
	}
	return n
}

func collect() uint64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
		simrt.SweepChans()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func (t *taskState) soakOp(o *op) bool {
	if o.K != "soak" {
		return false
	}
	st := t.soak
	if st == nil || st.o != o {
		st = &soakState{o: o, strs: make([]weak.Pointer[[8]byte], 0, (o.N+o.Max)/6+100)}
		for k := range st.objs {
			st.objs[k] = make([]func() bool, 0, 700)
		}
		t.soak = st
		st.spec = st.newSpec(t)
		st.tb = table.NewTable(st.spec)
	}
	// a goroutine ended by a callback takes this loop up again
	finished := false
	defer func() {
		if !finished && !simrt.Aborting() {
			t.pc--
		}
	}()
	for st.made < o.N+o.Max {
		st.one(t)
		if st.i%400 == 0 && simrt.Spawned() > 200 {
			if n := settle(); n > 300 {
				t.add("retain", "%s: more than 300 goroutines the package started wait for ever", soakNames[o.Fn])
				break
			}
		}
		if st.stage == 0 && st.made >= o.N {
			settle()
			st.fill()
			st.stage = 1
			st.heap1 = collect()
			st.live1, st.made1 = st.liveStrs(), st.made
		}
	}
	finished = true
	if n := settle(); n > 300 && len(t.viols) == 0 {
		t.add("retain", "%s: more than 300 goroutines the package started wait for ever", soakNames[o.Fn])
	}
	st.fill()
	heap2 := collect()
	// only every eighth string is tracked
	live2 := st.liveStrs()
	if soakDebug {
		fmt.Printf("%s class %d dup %d: made %d/%d live %d/%d heap %d -> %d calls %d failed %d spawned %d\n", soakNames[o.Fn], o.V, o.Dup, st.made1, st.made, st.live1*8, live2*8, st.heap1, heap2, st.calls, st.failed, simrt.Spawned())
	}
	if live2*8 > 20000 && (live2-st.live1)*8 > (st.made-st.made1)/4 {
		t.add("retain", "%s: of %d strings passed in, all dropped by the caller, far more than 10000 are kept alive, and their number grows with every call", soakNames[o.Fn], st.made)
	}
	if o.Lut && heap2 > st.heap1+uint64(st.made-st.made1)*soakBytes {
		t.add("retain", "%s: after %d strings and %d calls the package keeps growing, by more than %d bytes for every further string", soakNames[o.Fn], st.made1, st.calls, soakBytes)
	}
	for k, l := range st.objs {
		alive := 0
		for _, f := range l {
			if f() {
				alive++
			}
		}
		if soakDebug {
			fmt.Printf("   %s: %d of %d\n", soakKinds[k], alive, len(l))
		}
		if len(l) >= 400 && alive > len(l)/2 {
			t.add("retain", "%s: more than half of %d values of kind %q are kept alive although their calls are over and the caller dropped them", soakNames[o.Fn], len(l), soakKinds[k])
		}
	}
	t.soak = nil
	t.digest("soak %d strings %d calls %d failed", st.made, st.calls, st.failed)
	return true
}

const soakBytes = 12

var soakDebug = os.Getenv("SOAKDEBUG") != ""

func genC15(r *rng, race bool) *plan {
	p := base("C15", r)
	p.Cap = 0
	nt := 1
	if r.p(1, 4) {
		nt = 2
	}
	for i := 0; i < nt; i++ {
		o := op{K: "soak", Fn: r.n(soakPaths), N: 16000, Max: r.in(60000, 90000), V: r.n(6), Item: r.n(4), Lut: nt == 1}
		if r.p(1, 16) {
			o.V, o.N, o.Max = 6, 11000, 26000
		}
		if r.p(2, 3) {
			o.Dup = pick(r, 1, 2, 3, 5, 10, 40)
		}
		p.Tasks = append(p.Tasks, []op{o})
	}
	p.Pol = r.policy(1, 1<<33)
	if nt > 1 {
		p.Pol.Mode = "pct"
		for i := r.in(1, 8); i > 0; i-- {
			p.Pol.Points = append(p.Pol.Points, int64(r.logn(1<<26)))
		}
		sortInt64(p.Pol.Points)
	}
	return p
}
