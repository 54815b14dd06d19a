package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"verif.local/sim/simrt"
)

// Sites below 32 belong to the harness's seams.
const (
	siteOp = iota + 1
	siteWrite
	siteLen
	siteGet
	siteValue
	siteFormat
	siteVstr
	siteAlign
	siteSlow
	siteNet
)

var seamSite = map[string]int32{"write": siteWrite, "len": siteLen, "get": siteGet, "value": siteValue, "format": siteFormat, "vstr": siteVstr, "align": siteAlign}

func seamName(s int32) string {
	switch s {
	case siteOp:
		return "op"
	case siteSlow:
		return "slow callback"
	case siteNet:
		return "network"
	}
	for n, x := range seamSite {
		if x == s {
			return n + " callback"
		}
	}
	return "?"
}

// faultKinds are counted when they fire, per process.
var faultKinds = []string{"write:err0", "write:short", "write:full", "write:panic", "write:goexit", "write:stall", "write:slow", "write:reent",
	"len:panic", "len:goexit", "len:stall", "len:slow", "len:reent", "get:panic", "get:goexit", "get:stall", "get:slow", "get:reent",
	"value:err", "value:panic", "value:goexit", "value:stall", "value:slow", "value:reent",
	"format:err", "format:panic", "format:goexit", "format:stall", "format:slow", "format:reent",
	"vstr:err", "vstr:panic", "vstr:goexit", "vstr:stall", "vstr:slow", "vstr:reent",
	"align:panic", "align:goexit", "align:stall", "align:slow", "align:reent",
	"net:dup", "net:lost", "net:delay", "net:reorder", "net:stale", "cache:smallcap", "cache:overflow", "stall:healed"}

var faultFired [80]int64

//go:norace
func countFault(name string) {
	for i, k := range faultKinds {
		if k == name {
			faultFired[i]++
			return
		}
	}
}

//go:norace
func countFaultN(name string, n int64) {
	for i, k := range faultKinds {
		if k == name {
			faultFired[i] += n
			return
		}
	}
}

type injErr struct{ n int }

func (e *injErr) Error() string { return fmt.Sprintf("injected error %d", e.n) }

// tempErr looks like a transient network error.
type tempErr struct{ n int }

func (e *tempErr) Error() string   { return "temporarily out of order" }
func (e *tempErr) Timeout() bool   { return true }
func (e *tempErr) Temporary() bool { return true }

type emptyErr struct{ n int }

// ptrErr is used as a nil pointer: an error all the same.
type ptrErr struct{ n int }

func (e *ptrErr) Error() string { return "error with a nil pointer" }

// listErr cannot be compared.
type listErr []string

func (e listErr) Error() string { return "several: " + strings.Join(e, ", ") }

// sameErr: err is or wraps want.
func sameErr(err, want error) bool {
	if err == nil || want == nil {
		return err == nil && want == nil
	}
	if reflect.TypeOf(want).Comparable() {
		return errors.Is(err, want)
	}
	if reflect.DeepEqual(err, want) {
		return true
	}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		return sameErr(x.Unwrap(), want)
	case interface{ Unwrap() []error }:
		for _, e := range x.Unwrap() {
			if sameErr(e, want) {
				return true
			}
		}
	}
	return false
}

func (e *emptyErr) Error() string { return "" }

var fixedErrs = []error{io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EIO,
	os.ErrDeadlineExceeded, os.ErrClosed, os.ErrNotExist, context.Canceled}

func makeErr(kind, n int) error {
	switch {
	case kind >= 1 && kind <= len(fixedErrs):
		return fixedErrs[kind-1]
	case kind == len(fixedErrs)+1:
		return &os.PathError{Op: "write", Path: "out", Err: syscall.EIO}
	case kind == len(fixedErrs)+2:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case kind == len(fixedErrs)+3:
		return &tempErr{n}
	case kind == len(fixedErrs)+4:
		return &emptyErr{n}
	case kind == len(fixedErrs)+5:
		return (*ptrErr)(nil)
	case kind == len(fixedErrs)+6:
		return listErr{"a", fmt.Sprint(n)}
	case kind == len(fixedErrs)+7:
		return errors.Join(io.EOF, &injErr{n})
	case kind == len(fixedErrs)+8:
		return &os.SyscallError{Syscall: "write", Err: syscall.EPIPE}
	}
	return &injErr{n}
}

const errKinds = 23

type injPanic struct{ n int }

const panicKinds = 8

// makePanic gives the value a callback panics with.
func makePanic(kind, n int) (v any) {
	switch kind {
	case 1:
		return &injErr{n}
	case 2:
		return fmt.Sprintf("callback gave up (%d)", n)
	case 3:
		defer func() { v = recover() }()
		var none []int
		return none[n+len(none)]
	case 4:
		return io.EOF
	case 5:
		return n
	case 6:
		return &os.PathError{Op: "write", Path: "out", Err: syscall.EPIPE}
	case 7:
		return listErr{"p", fmt.Sprint(n)}
	}
	return &injPanic{n}
}

func sameAny(a, b any) bool { return reflect.DeepEqual(a, b) }

type viol struct {
	Cat  string `json:"cat"`
	Msg  string `json:"msg"`
	Task int    `json:"task"`
	Op   int    `json:"op"`
}

// opctx is the seam state of one library call.
type opctx struct {
	w      *world
	t      *taskState
	faults []fault
	counts [8]int
	fired  *fault // first fault that ends the call: err*, short, full, panic, goexit
	err    error
	pan    any // what the callback panicked with
	it     any // the item being formatted
	x      *item
	nonce  int
	last   map[int]int // column -> nonce of the last value handed out
	o      *op
	inner  bool // a callback formatted a row on the same table
	slow   bool
}

func seamIdx(s string) int {
	switch s {
	case "write":
		return 0
	case "len":
		return 1
	case "get":
		return 2
	case "value":
		return 3
	case "format":
		return 4
	case "vstr":
		return 5
	case "align":
		return 6
	}
	return 7
}

// hit is called by every seam callback on entry.
func (c *opctx) hit(seam string) *fault {
	simrt.Y(seamSite[seam])
	i := seamIdx(seam)
	n := c.counts[i]
	c.counts[i]++
	for k := range c.faults {
		f := &c.faults[k]
		if f.Seam != seam || f.At != n {
			continue
		}
		countFault(seam + ":" + f.Kind)
		switch f.Kind {
		case "slow":
			for j := 0; j < f.N; j++ {
				simrt.Y(siteSlow)
			}
		case "stall":
			simrt.Stall()
		case "reent":
			c.reenter(f.N)
			if f.N%2 == 1 {
				c.reenterSame(seam, f.N)
			}
		case "panic":
			if c.fired == nil {
				c.fired = f
				c.pan = makePanic(f.E%panicKinds, n)
				panic(c.pan)
			}
		case "goexit":
			if c.fired == nil {
				c.fired = f
				runtime.Goexit()
			}
		default:
			if c.fired == nil {
				c.fired = f
				c.err = makeErr(f.E, n)
				return f
			}
		}
	}
	return nil
}

// reenter uses the package from inside a callback.
func (c *opctx) reenter(n int) {
	s := toks[n%len(toks)].s + "re"
	want := cell{T: []int{n % len(toks)}}.width(c.w.p.EA) + 2
	got := table.AlignmentRight(s, uint16(want+3))
	if got != "   "+s {
		c.t.add("reent", "re-entrant AlignmentRight(%q,%d) = %q", s, want+3, got)
	}
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "x", Getter: constGetter{s}})
	tb := table.NewTable(spec)
	row, err := tb.FormatItem(1)
	if err != nil || len(row) != 1 || row[0] != s || int(tb.Width("x")) != want {
		c.t.add("reent", "re-entrant FormatItem of %q: row=%q err=%v width=%d want %d", s, row, err, tb.Width("x"), want)
	}
	var b strings.Builder
	tb.MergeRowsHorizontal(&b, &simList{rows: [][]string{{s}, {s}}}, 80, " ", false)
	if b.String() != s+" "+s+"\n" && b.String() != s+" "+s+" \n" {
		c.t.add("reent", "re-entrant MergeRowsHorizontal gave %q", b.String())
	}
}

// reenterSame uses, from inside a callback, the very table the call is on:
// reads it and, while it formats a row, formats another.
func (c *opctx) reenterSame(seam string, n int) {
	if c.o == nil {
		return
	}
	switch c.o.K {
	case "fmt", "basic", "align", "merge":
	default:
		return
	}
	s := c.t.slot(c.o.T)
	if s == nil || len(s.m.cols) == 0 {
		return
	}
	if got, want := s.tb.FormatHeader("|"), s.m.header("|"); got != want {
		c.t.add("reent", "re-entrant FormatHeader = %q, want %q", got, want)
	}
	if got, want := int(s.tb.TableWidth(1)), s.m.tableWidth(1); got != want {
		c.t.add("reent", "re-entrant TableWidth = %d, want %d", got, want)
	}
	cells := make([]cell, len(s.m.cols))
	row := make([]string, len(cells))
	called := false
	for i, cc := range s.m.cols {
		cells[i] = cell{T: []int{(n + i) % 40}, P: (n + 3*i) % 11}
		row[i] = cells[i].str()
		called = called || cc.Align >= 4
	}
	if c.o.K == "fmt" && (seam == "value" || seam == "format") {
		d := c.t.ctx(&op{K: "inner"})
		it := &item{d, cells, n}
		d.x, d.it = it, it
		c.inner = true
		got, err := s.tb.FormatItem(it)
		if err != nil || !sameRow(got, row) {
			c.t.add("reent", "re-entrant FormatItem on the same table = %q, %v; want %q", got, err, row)
			return
		}
		for i, cc := range s.m.cols {
			s.m.commit(cc.Name, cells[i].width(c.w.p.EA))
		}
	}
	if called {
		return // its alignments belong to the call in progress
	}
	want := ""
	for i, cc := range s.m.cols {
		if i > 0 {
			want += " "
		}
		want += mergePad(cc.Align, row[i], cells[i].width(c.w.p.EA), s.m.cw[cc.Name])
	}
	var b strings.Builder
	l := &simList{rows: [][]string{row}}
	if n%4 < 2 {
		s.tb.MergeRowsVertical(&b, l, 0, " ", false)
	} else {
		s.tb.MergeRowsHorizontal(&b, l, 0, " ", false)
	}
	if b.String() != want+"\n" {
		c.t.add("reent", "re-entrant merge on the same table = %q, want %q", b.String(), want+"\n")
	}
	for i, cc := range s.m.cols {
		row[i] = cells[i].str()
		cells[i].Tag = pad(cc.Align, row[i], cells[i].width(c.w.p.EA), s.m.cw[cc.Name])
	}
	got, err := s.tb.AlignFormattedItem(row)
	for i := range cells {
		if err != nil || len(got) != len(cells) || got[i] != cells[i].Tag {
			c.t.add("reent", "re-entrant AlignFormattedItem on the same table = %q, %v; column %d should be %q", got, err, i, cells[i].Tag)
			return
		}
	}
}

type constGetter struct{ s string }

func (g constGetter) Value(item any) (any, error)                    { return g.s, nil }
func (g constGetter) ValueString(n string, item any) (string, error) { return g.s, nil }
func (g constGetter) Format(item any, value any) (string, error)     { return value.(string), nil }

// item is what the harness passes to FormatItem.
type item struct {
	c     *opctx
	cells []cell
	kind  int
}

// valItem is passed by value, and cannot be compared.
type valItem struct {
	cells []cell
}

type value struct {
	it    *item
	col   int
	nonce int
}

type stamp struct{ n int }

// valueOf makes the value a column's getter returns for an item: different
// dynamic types, all (but a few) distinguishable from every other value of
// the run.
func (x *item) valueOf(col, nonce int) any {
	id := nonce*64 + col
	switch (x.kind + col) % valueKinds {
	case 1:
		return nil
	case 2:
		return fmt.Sprintf("raw value %d", id)
	case 3:
		return id
	case 4:
		return float64(id) + 0.5
	case 5:
		return &injErr{id}
	case 6:
		return uint16(id)
	case 7:
		return ""
	case 8:
		return stringer(id)
	case 9:
		return time.Unix(1700000000+int64(id), 0).UTC()
	case 10:
		return []byte(fmt.Sprint("bytes ", id))
	case 11:
		return map[string]int{"id": id}
	case 12:
		return id%2 == 0
	case 13:
		return []string{"list", fmt.Sprint(id)}
	case 14:
		return stamp{id}
	case 15:
		return (*value)(nil)
	}
	return &value{x, col, nonce}
}

const valueKinds = 17

type stringer int

func (s stringer) String() string { return fmt.Sprintf("stringer %d", int(s)) }

func sameValue(a, b any) bool {
	if x, ok := a.(*value); ok {
		y, ok := b.(*value)
		if x == nil || y == nil {
			return ok && x == y
		}
		return *x == *y
	}
	return reflect.DeepEqual(a, b)
}

type getter struct {
	w    *world
	idx  int
	name string
}

// of finds the row an item stands for; the item must be the one the current
// call was given.
func (g *getter) of(it any) *item {
	if x, ok := it.(*item); ok {
		if x.c.it != nil && x.c.it != it {
			x.c.t.add("fmt-value", "column %d: the getter was called with another item", g.idx)
		}
		return x
	}
	id := simrt.RootID()
	if id >= 0 && id < len(g.w.tasks) && g.w.tasks[id].cur != nil && g.w.tasks[id].cur.x != nil {
		c := g.w.tasks[id].cur
		if !sameAny(c.it, it) {
			c.t.add("fmt-value", "column %d: the getter was called with item %v instead of %v", g.idx, it, c.it)
		}
		return c.x
	}
	panic(fmt.Sprintf("getter called with item %v outside a call", it))
}

func (g *getter) Value(it any) (any, error) {
	x := g.of(it)
	if f := x.c.hit("value"); f != nil {
		if f.N%2 == 1 {
			return "half a value", x.c.err
		}
		return nil, x.c.err
	}
	x.c.nonce++
	x.c.last[g.idx] = x.c.nonce
	return x.valueOf(g.idx, x.c.nonce), nil
}

func (g *getter) Format(it any, v any) (string, error) {
	x := g.of(it)
	if n := x.c.last[g.idx]; n == 0 || !sameValue(x.valueOf(g.idx, n), v) {
		x.c.t.add("fmt-value", "column %d was asked to format a value that is not the one its getter returned for this item", g.idx)
	}
	if f := x.c.hit("format"); f != nil {
		if f.N%2 == 1 {
			return "half a cell", x.c.err
		}
		return "", x.c.err
	}
	if g.idx >= len(x.cells) {
		return "", nil
	}
	return x.cells[g.idx].str(), nil
}

func (g *getter) ValueString(colName string, it any) (string, error) {
	x := g.of(it)
	if colName != g.name {
		x.c.t.add("basic", "ValueString of column %q called with column name %q", g.name, colName)
	}
	if f := x.c.hit("vstr"); f != nil {
		if f.N%2 == 1 {
			return "half a cell", x.c.err
		}
		return "", x.c.err
	}
	if g.idx >= len(x.cells) {
		return "", nil
	}
	return x.cells[g.idx].str(), nil
}

// newItem makes the item of an op: a fresh pointer, one the task uses again
// and again for different rows, a value that cannot be compared, nil, or the
// same small integer every time.
func (t *taskState) newItem(o *op, c *opctx) any {
	x := &item{c, o.Row, o.V}
	if o.Item == 1 {
		if t.item == nil {
			t.item = x
		}
		*t.item = *x
		x = t.item
	}
	c.x, c.it = x, x
	switch o.Item {
	case 2:
		c.it = valItem{o.Row}
	case 3:
		c.it = nil
	case 4:
		c.it = 7
	}
	return c.it
}

// simWriter is the output device.
type simWriter struct {
	c      *opctx
	buf    []byte
	failed bool
	after  int
	writes int
}

func (w *simWriter) Write(p []byte) (int, error) {
	w.writes++
	if w.failed {
		w.after++
	}
	f := w.c.hit("write")
	if f == nil {
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	w.failed = true
	n := 0
	switch f.Kind {
	case "short":
		n = f.N
		if n >= len(p) {
			n = len(p) - 1
		}
		if n < 0 {
			n = 0
		}
	case "full":
		n = len(p)
	}
	w.buf = append(w.buf, p[:n]...)
	return n, w.c.err
}

// Writers that can do more than Write.
type stringWriter struct{ *simWriter }

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type fileLike struct{ *simWriter }

func (w *fileLike) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *fileLike) WriteByte(b byte) error            { _, err := w.Write([]byte{b}); return err }
func (w *fileLike) Flush() error                      { return nil }
func (w *fileLike) Sync() error                       { return nil }
func (w *fileLike) Close() error                      { return nil }
func (w *fileLike) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 64)
	for {
		k, rerr := r.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

// simList is the row source.
type simList struct {
	c     *opctx
	rows  [][]string
	fresh bool // every Get makes a new slice
}

// valList is a row source that cannot be compared.
type valList struct {
	*simList
	_ []int
}

func (l *simList) Len() int {
	if l.c != nil {
		l.c.hit("len")
	}
	return len(l.rows)
}

func (l *simList) Get(i int) []string {
	if l.c != nil {
		l.c.hit("get")
	}
	if l.fresh {
		return append([]string(nil), l.rows[i]...)
	}
	return l.rows[i]
}

type slot struct {
	specIdx int               // -1: its own
	sent    map[string]uint16 // widths reported so far
	tb      *table.Table
	spec    *table.TableSpec
	m       *model
	rows    [][]string
	cells   [][]cell
}

type taskState struct {
	id      int
	w       *world
	ops     []op
	pc      int
	slots   map[int]*slot
	digests []string
	viols   []viol
	cur     *opctx
	item    *item    // used again by several calls
	list    *simList // the same
	// network
	lost []netMsg
	mir  *slot
	own  *ownState
	soak *soakState
	// turns taken under the callers' lock
	marks []handMark
}

func (t *taskState) add(cat, f string, a ...any) {
	if simrt.Aborting() {
		return
	}
	if len(t.viols) < 20 {
		t.viols = append(t.viols, viol{cat, fmt.Sprintf(f, a...), t.id, t.pc - 1})
	}
}

type world struct {
	p      *plan
	specs  []*table.TableSpec
	cols   [][]col // of the specs, as they are now
	shared map[int]*slot
	tasks  []*taskState // by simulated task id of the current phase
	net    *network
	conds  map[int]*condSlot
	locks  handLocks
}

func (w *world) alignFn(a int) table.Alignment {
	switch a {
	case 1:
		return table.AlignmentLeft
	case 2:
		return table.AlignmentRight
	case 3:
		return table.AlignmentCenter
	case 4, 5, 6, 7:
		return func(s string, n uint16) string {
			id := simrt.RootID()
			if id >= 0 && id < len(w.tasks) && w.tasks[id].cur != nil {
				w.tasks[id].cur.hit("align")
			}
			switch a {
			case 4:
				return table.AlignmentLeft(s, n)
			case 5:
				return table.AlignmentRight(s, n)
			case 6:
				return table.AlignmentCenter(s, n)
			}
			r := table.AlignmentLeft(s, n)
			return s + strings.Repeat(".", len(r)-len(s))
		}
	}
	return nil
}

func (w *world) column(i int, c col) *table.Column {
	return &table.Column{
		Name: c.Name, Title: c.Title.str(), ShortTitle: c.Short.str(),
		Type: colTypes[i%len(colTypes)], Getter: &getter{w, i, c.Name}, Alignment: w.alignFn(c.Align),
	}
}

var colTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), nil, reflect.TypeOf(time.Time{}), reflect.TypeOf([]byte(nil))}

func newWorld(p *plan) *world {
	w := &world{p: p, shared: map[int]*slot{}, net: &network{}, conds: map[int]*condSlot{}}
	for _, s := range p.Specs {
		ts := table.NewTableSpec()
		if p.Run%3 == 0 {
			ts.TimeFormat = "2006-01-02"
		}
		for i, c := range s {
			ts.AddColumn(w.column(i, c))
		}
		w.specs = append(w.specs, ts)
		w.cols = append(w.cols, append([]col(nil), s...))
	}
	runewidth.DefaultCondition.EastAsianWidth = p.EA
	return w
}

// slot finds a table: 100 and up are shared between tasks.
func (t *taskState) slot(i int) *slot {
	if i >= 100 {
		return t.w.shared[i]
	}
	return t.slots[i]
}

func (t *taskState) ctx(o *op) *opctx {
	return &opctx{w: t.w, t: t, faults: o.Faults, last: map[int]int{}, o: o}
}

type callResult struct {
	ret    bool
	pan    any
	goexit bool
}

// call runs f, classifying how it ended, and then post, even when the
// goroutine is being ended by a callback.
func (t *taskState) call(c *opctx, f func(), post func(r callResult)) {
	var r callResult
	t.cur = c
	defer func() {
		t.cur = nil
		if simrt.Aborting() {
			return
		}
		if !r.ret {
			if x := recover(); x != nil {
				r.pan = x
			} else {
				r.goexit = true
			}
		}
		post(r)
	}()
	f()
	r.ret = true
}

// expectEnd checks that a call ended the way its injected fault (if any)
// demands; it returns true when the call returned normally.
func (t *taskState) expectEnd(c *opctx, r callResult, what, cat string) bool {
	switch {
	case r.goexit:
		if c.fired == nil || c.fired.Kind != "goexit" {
			t.add("panic", "%s ended the goroutine on its own", what)
		}
		return false
	case r.pan != nil:
		if c.pan != nil {
			if !sameAny(r.pan, c.pan) {
				t.add(cat, "%s: the callback panicked with %v but the caller saw %v", what, describe(c.pan), describe(r.pan))
			}
			return false
		}
		if c.err != nil {
			return false // judged by the caller
		}
		t.add("panic", "%s panicked without cause: %s", what, describe(r.pan))
		return false
	}
	if c.pan != nil {
		t.add(cat, "%s returned normally although a callback panicked", what)
	}
	return true
}

func describe(x any) string {
	switch e := x.(type) {
	case error:
		return "error " + e.Error()
	case *injPanic:
		return "injected panic"
	}
	return fmt.Sprintf("%v", x)
}

func (s *slot) widths() map[string]uint16 {
	m := map[string]uint16{}
	for _, c := range s.m.cols {
		m[c.Name] = s.tb.Width(c.Name)
	}
	return m
}

// columns describes the table's columns.
func (s *slot) columns() string {
	var b strings.Builder
	for _, c := range s.tb.Columns {
		fmt.Fprintf(&b, "%q %q %q %v;", c.Name, c.Title, c.ShortTitle, c.Alignment == nil)
	}
	return b.String()
}

// peek asks the table for its widths, unless the plan says that nothing is
// asked between the calls.
func (t *taskState) peek(s *slot) map[string]uint16 {
	if t.w.p.Quiet {
		return nil
	}
	return s.widths()
}

func (t *taskState) checkWidths(s *slot, when string) {
	if t.w.p.Quiet && when != "query" {
		return
	}
	for _, c := range s.m.cols {
		if got := int(s.tb.Width(c.Name)); got != s.m.cw[c.Name] {
			t.add("width", "%s: column %q has width %d, the widest committed cell is %d", when, c.Name, got, s.m.cw[c.Name])
			return
		}
	}
}

func endName(r callResult) string {
	switch {
	case r.goexit:
		return "goexit"
	case r.pan != nil:
		return "panic:" + describe(r.pan)
	}
	return "ok"
}

func (t *taskState) digest(f string, a ...any) { t.digests = append(t.digests, fmt.Sprintf(f, a...)) }

// step executes one op.
func (t *taskState) step(o *op) {
	simrt.Y(siteOp)
	c := t.ctx(o)
	switch o.K {
	case "new":
		s := &slot{m: &model{ea: t.w.p.EA, cw: map[string]int{}}}
		t.call(c, func() {
			if o.Spec < 0 || o.Spec >= len(t.w.specs) {
				s.spec, s.specIdx = table.NewTableSpec(), -1
			} else {
				s.spec, s.specIdx = t.w.specs[o.Spec], o.Spec
				s.m.cols = append([]col(nil), t.w.cols[o.Spec]...)
			}
			if o.N == 1 && o.Spec < 0 {
				s.tb = table.NewTable(nil)
				s.spec = s.tb.TableSpec
			} else {
				s.tb = table.NewTable(s.spec)
			}
		}, func(r callResult) {
			t.expectEnd(c, r, "NewTable", "panic")
			t.digest("new %s", endName(r))
		})
		if o.T >= 100 {
			t.w.shared[o.T] = s
		} else {
			t.slots[o.T] = s
		}
	case "addcol":
		s := t.slot(o.T)
		if s == nil || s.tb == nil {
			return
		}
		t.call(c, func() {
			if o.Fn == 1 {
				s.spec.AddColumn(t.w.column(len(s.m.cols), *o.Col))
			} else {
				s.tb.AddColumn(t.w.column(len(s.m.cols), *o.Col))
			}
		}, func(r callResult) {
			if t.expectEnd(c, r, "AddColumn", "panic") {
				if s.specIdx < 0 {
					s.m.cols = append(s.m.cols, *o.Col)
				} else {
					t.w.cols[s.specIdx] = append(t.w.cols[s.specIdx], *o.Col)
					for _, m := range []map[int]*slot{t.slots, t.w.shared} {
						for _, x := range m {
							if x.specIdx == s.specIdx {
								x.m.cols = append([]col(nil), t.w.cols[s.specIdx]...)
							}
						}
					}
				}
			}
			if !s.tb.HasColumn(o.Col.Name) || s.tb.ColumnCount() != len(s.m.cols) {
				t.add("width", "after AddColumn(%q): HasColumn=%v ColumnCount=%d want %d", o.Col.Name, s.tb.HasColumn(o.Col.Name), s.tb.ColumnCount(), len(s.m.cols))
			}
			t.checkWidths(s, "after AddColumn")
			t.digest("addcol %s", endName(r))
		})
	case "editcol":
		// the column is the caller's: another title, or another alignment
		s := t.slot(o.T)
		if s == nil || o.N >= len(s.m.cols) || o.N >= len(s.tb.Columns) {
			return
		}
		x := s.m.cols[o.N]
		if o.Fn == 0 {
			x.Align = o.Col.Align
			s.tb.Columns[o.N].Alignment = t.w.alignFn(x.Align)
		} else {
			x.Title, x.Short = o.Col.Title, o.Col.Short
			s.tb.Columns[o.N].Title, s.tb.Columns[o.N].ShortTitle = x.Title.str(), x.Short.str()
		}
		if s.specIdx < 0 {
			s.m.cols[o.N] = x
			break
		}
		t.w.cols[s.specIdx][o.N] = x
		for _, m := range []map[int]*slot{t.slots, t.w.shared} {
			for _, y := range m {
				if y.specIdx == s.specIdx {
					y.m.cols = append([]col(nil), t.w.cols[s.specIdx]...)
				}
			}
		}
	case "fmt":
		t.opFormat(o, c)
	case "bulk":
		// many small rows, tagged <row.column>
		s := t.slot(o.T)
		if s == nil {
			return
		}
		for i := 0; i < o.N; i++ {
			b := op{K: "fmt", T: o.T}
			for j := range s.m.cols {
				b.Row = append(b.Row, cell{Tag: fmt.Sprintf("<%d.%d>", i, j)})
			}
			if i%97 == 5 && len(b.Row) > 0 {
				b.Row[0].T = []int{5}
			}
			if o.N > 3500 {
				// rows a caller made without FormatItem
				row := make([]string, len(b.Row))
				for j, x := range b.Row {
					row[j] = x.str()
				}
				s.rows, s.cells = append(s.rows, row), append(s.cells, b.Row)
				continue
			}
			t.opFormat(&b, t.ctx(&b))
			if len(t.viols) > 0 {
				return
			}
		}
	case "basic":
		t.opBasic(o, c)
	case "align":
		t.opAlign(o, c)
	case "header":
		s := t.slot(o.T)
		if s == nil {
			return
		}
		var got string
		t.call(c, func() { got = s.tb.FormatHeader(o.Sep) }, func(r callResult) {
			if t.expectEnd(c, r, "FormatHeader", "header") {
				if want := s.m.header(o.Sep); got != want {
					t.add("header", "FormatHeader(%q) = %q, want %q", o.Sep, got, want)
				}
			}
			t.digest("header %q %s", got, endName(r))
		})
	case "query":
		s := t.slot(o.T)
		if s == nil {
			return
		}
		d := ""
		t.call(c, func() {
			tw := s.tb.TableWidth(o.Margin)
			if want := s.m.tableWidth(int(o.Margin)); int(tw) != want {
				t.add("tablewidth", "TableWidth(%d) = %d, want %d", o.Margin, tw, want)
			}
			d = fmt.Sprint(tw, s.tb.ColumnCount(), s.tb.HasColumn("nope"), s.tb.Width("nope"))
			if s.tb.HasColumn("nope") || s.tb.Width("nope") != 0 {
				t.add("width", "unknown column: HasColumn=%v Width=%d", s.tb.HasColumn("nope"), s.tb.Width("nope"))
			}
			for _, cc := range s.m.cols {
				d += fmt.Sprint(" ", cc.Name, "=", s.tb.Width(cc.Name), s.tb.HasColumn(cc.Name))
				if !s.tb.HasColumn(cc.Name) {
					t.add("width", "HasColumn(%q) is false", cc.Name)
				}
			}
			t.checkWidths(s, "query")
		}, func(r callResult) {
			t.expectEnd(c, r, "width query", "panic")
			t.digest("query %s %s", d, endName(r))
		})
	case "update":
		s := t.slot(o.T)
		if s == nil {
			return
		}
		arg := map[string]uint16{}
		for k, v := range o.Widths {
			arg[k] = v
		}
		if o.N == 1 {
			arg = nil
		}
		t.call(c, func() { s.tb.UpdateWidth(arg) }, func(r callResult) {
			if t.expectEnd(c, r, "UpdateWidth", "panic") {
				for k, v := range arg {
					s.m.commit(k, int(v))
					if w, ok := o.Widths[k]; !ok || w != v {
						t.add("width", "UpdateWidth changed its argument")
					}
				}
			}
			t.checkWidths(s, "after UpdateWidth")
			for k := range arg {
				arg[k] += 9 // the map is the caller's again
			}
			t.checkWidths(s, "after the caller changed the map it had passed to UpdateWidth")
			t.digest("update %s", endName(r))
		})
	case "merge":
		t.opMerge(o, c)
	case "probe":
		t.opProbe(o, c)
	case "measure":
		t.opMeasure(o, c)
	case "flood":
		// many distinct strings through the measuring path
		t.call(c, func() {
			for i := 0; i < o.N; i++ {
				s := fmt.Sprintf("f%d.%d", o.Fn, i) + "-------"[:i%8]
				if got := table.AlignmentLeft(s, uint16(len(s)+1)); got != s+" " {
					t.add("measure", "AlignmentLeft(%q, %d) = %q", s, len(s)+1, got)
					return
				}
			}
		}, func(r callResult) {
			t.expectEnd(c, r, "AlignmentLeft", "measure")
			if o.N > 10000 {
				countFault("cache:overflow")
			}
			t.digest("flood %s", endName(r))
		})
	default:
		if !t.netOp(o, c) && !t.condOp(o, c) && !t.ownOp(o, c) && !t.soakOp(o) {
			panic("unknown op " + o.K)
		}
	}
}

func (t *taskState) opFormat(o *op, c *opctx) {
	s := t.slot(o.T)
	if s == nil {
		return
	}
	before := t.peek(s)
	var row []string
	var err error
	it := t.newItem(o, c)
	t.call(c, func() { row, err = s.tb.FormatItem(it) }, func(r callResult) {
		d := fmt.Sprintf("fmt %q err=%v %s", row, err, endName(r))
		ok := t.expectEnd(c, r, "FormatItem", "fmt-error")
		failed := c.fired != nil
		if r.pan != nil && c.err != nil {
			t.add("fmt-error", "FormatItem panicked (%s) although the getter returned an error", describe(r.pan))
		}
		if ok && c.err != nil {
			if !sameErr(err, c.err) {
				t.add("fmt-error", "getter returned %v, FormatItem returned error %v", c.err, err)
			}
			if row != nil {
				t.add("fmt-error", "FormatItem returned row %q together with a getter's error", row)
			}
		}
		if ok && !failed {
			want := make([]string, len(s.m.cols))
			for i := range want {
				if i < len(o.Row) {
					want[i] = o.Row[i].str()
				}
			}
			if err != nil {
				t.add("fmt-row", "FormatItem failed without cause: %v", err)
			} else if !sameRow(row, want) {
				t.add("fmt-row", "FormatItem = %q, want %q", row, want)
			} else {
				cells := make([]cell, len(want))
				copy(cells, o.Row)
				for i, cc := range s.m.cols {
					s.m.commit(cc.Name, cells[i].width(t.w.p.EA))
				}
				if o.T < 100 || t.w.p.Prop == "C16" || t.w.tasks != nil && len(t.w.tasks) == 1 {
					if k := len(s.rows); k > 0 {
						for _, j := range []int{0, k - 1} {
							for i := range s.rows[j] {
								if s.rows[j][i] != s.cells[j][i].str() {
									t.add("fmt-row", "a row formatted earlier changed: column %d of row %d is now %q, was %q", i, j, s.rows[j][i], s.cells[j][i].str())
								}
							}
						}
					}
					if o.N == 1 {
						// keep a copy and scribble on the returned row: it is the caller's
						keep := append([]string(nil), row...)
						for i := range row {
							row[i] = "scribbled"
						}
						row = keep
					}
					s.rows = append(s.rows, row)
					s.cells = append(s.cells, cells)
				}
			}
		}
		if failed && !c.inner {
			if after := t.peek(s); !reflect.DeepEqual(before, after) {
				t.add("fmt-atomic", "a failed FormatItem changed column widths from %v to %v", before, after)
			}
		}
		t.checkWidths(s, "after FormatItem")
		if !t.w.p.Quiet {
			d += " " + fmtWidths(s)
		}
		t.digest("%s", d)
	})
}

// sameRow: the same cells (nil is an empty row).
func sameRow(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fmtWidths(s *slot) string {
	var b strings.Builder
	for _, c := range s.m.cols {
		fmt.Fprintf(&b, "%s=%d,", c.Name, s.tb.Width(c.Name))
	}
	return b.String()
}

func (t *taskState) opBasic(o *op, c *opctx) {
	s := t.slot(o.T)
	if s == nil {
		return
	}
	before := t.peek(s)
	var got string
	var err error
	it := t.newItem(o, c)
	t.call(c, func() { got, err = s.tb.FormatItemBasic(it, o.Sep) }, func(r callResult) {
		ok := t.expectEnd(c, r, "FormatItemBasic", "basic")
		if r.pan != nil && c.err != nil {
			t.add("basic", "FormatItemBasic panicked (%s) although the getter returned an error", describe(r.pan))
		}
		if ok && c.err != nil && (!sameErr(err, c.err) || got != "") {
			t.add("basic", "getter returned %v, FormatItemBasic returned %q, %v", c.err, got, err)
		}
		if ok && c.fired == nil {
			parts := make([]string, len(s.m.cols))
			for i := range parts {
				if i < len(o.Row) {
					parts[i] = o.Row[i].str()
				}
			}
			if want := strings.Join(parts, o.Sep); err != nil || got != want {
				t.add("basic", "FormatItemBasic = %q, %v; want %q", got, err, want)
			}
		}
		if after := t.peek(s); !reflect.DeepEqual(before, after) {
			t.add("basic", "FormatItemBasic changed column widths from %v to %v", before, after)
		}
		t.digest("basic %q err=%v %s", got, err, endName(r))
	})
}

func (t *taskState) opAlign(o *op, c *opctx) {
	s := t.slot(o.T)
	if s == nil {
		return
	}
	in := make([]string, len(o.Row))
	for i := range in {
		in[i] = o.Row[i].str()
	}
	orig := append([]string{}, in...)
	var out []string
	var err error
	before := t.peek(s)
	t.call(c, func() { out, err = s.tb.AlignFormattedItem(in) }, func(r callResult) {
		if t.expectEnd(c, r, "AlignFormattedItem", "align") {
			if len(in) != len(s.m.cols) {
				if err == nil {
					t.add("align", "AlignFormattedItem accepted %d cells for %d columns", len(in), len(s.m.cols))
				}
				if !sameRow(in, orig) {
					t.add("align", "a rejected row was modified: %q -> %q", orig, in)
				}
			} else {
				want := make([]string, len(in))
				for i, cc := range s.m.cols {
					want[i] = pad(cc.Align, orig[i], o.Row[i].width(t.w.p.EA), s.m.cw[cc.Name])
				}
				if err != nil || !sameRow(out, want) {
					t.add("align", "AlignFormattedItem(%q) = %q, %v; want %q (widths %v)", orig, out, err, want, s.m.cw)
				}
			}
		}
		if after := t.peek(s); !reflect.DeepEqual(before, after) {
			t.add("align", "AlignFormattedItem changed column widths from %v to %v", before, after)
		}
		t.digest("align %q err=%v %s", out, err, endName(r))
		for i := range out {
			out[i] = "scribbled"
		}
		for i := range in {
			in[i] = "scribbled"
		}
	})
}

func (t *taskState) opMeasure(o *op, c *opctx) {
	str := o.Cell.str()
	w := o.W
	if o.Fn == 3 {
		var width uint16
		t.call(c, func() {
			tb := table.NewTable(nil)
			tb.AddColumn(&table.Column{Name: "w", Getter: constGetter{str}})
			tb.FormatItem(nil)
			width = tb.Width("w")
		}, func(r callResult) {
			if t.expectEnd(c, r, "FormatItem", "measure") {
				if want := min(o.Cell.width(t.w.p.EA), maxSupported); o.Cell.known() && int(width) != want {
					t.add("width", "a column holding %q is %d wide, want %d", str, width, want)
				}
			}
			t.digest("measure %q -> %d %s", str, width, endName(r))
		})
		return
	}
	var got string
	t.call(c, func() {
		switch o.Fn % 3 {
		case 0:
			got = table.AlignmentLeft(str, w)
		case 1:
			got = table.AlignmentRight(str, w)
		default:
			got = table.AlignmentCenter(str, w)
		}
	}, func(r callResult) {
		if t.expectEnd(c, r, "Alignment", "measure") {
			sw := o.Cell.width(t.w.p.EA)
			if want := pad(o.Fn%3+1, str, sw, int(w)); o.Cell.known() && got != want {
				t.add("align", "alignment %d of %q to %d = %q, want %q", o.Fn%3, str, w, got, want)
			}
		}
		t.digest("measure %d %q %d -> %q %s", o.Fn%3, str, w, got, endName(r))
	})
}

func render(s *slot, o *op, c *opctx, w *simWriter, rows [][]string) {
	sl := &simList{c: c, rows: rows}
	var l table.FormattedItemList = sl
	switch o.V % 4 {
	case 1:
		sl.fresh = true
	case 2:
		l = valList{simList: sl}
	case 3:
		if c.t.list == nil {
			c.t.list = sl
		}
		*c.t.list = *sl
		l = c.t.list
	}
	var out io.Writer = w
	switch o.V / 4 % 3 {
	case 1:
		out = stringWriter{w}
	case 2:
		out = &fileLike{w}
	}
	if o.Vert {
		s.tb.MergeRowsVertical(out, l, o.Max, o.Sep, o.Compact)
	} else {
		s.tb.MergeRowsHorizontal(out, l, o.Max, o.Sep, o.Compact)
	}
}

func reversed[T any](x []T) []T {
	y := make([]T, len(x))
	for i := range x {
		y[len(x)-1-i] = x[i]
	}
	return y
}

func copyRows(rows [][]string) [][]string {
	out := make([][]string, len(rows))
	for i, r := range rows {
		out[i] = append([]string(nil), r...)
	}
	return out
}

func (t *taskState) opMerge(o *op, c *opctx) {
	s := t.slot(o.T)
	if s == nil {
		return
	}
	n := len(s.rows)
	if o.N > 0 && o.N < n {
		n = o.N
	}
	rows := s.rows[:n]
	for _, r := range rows {
		if len(r) < len(s.m.cols) {
			return // rows formatted before a column was added cannot be merged
		}
	}
	cells := s.cells[:n]
	if o.Rev {
		rows, cells = reversed(rows), reversed(cells)
	}
	orig := copyRows(rows)
	before := t.peek(s)
	colsBefore := s.columns()
	faulty := len(o.Faults) > 0
	var ref []byte
	refOK := true
	if faulty {
		// what the same rendering gives with healthy callbacks
		hc := t.ctx(&op{})
		hw := &simWriter{c: hc}
		refOK = false
		rs, rrows := s, rows
		if o.Fn == 1 {
			// the reference comes from another table with the same columns and
			// widths: the first rendering this table sees is the disturbed one
			rs, rrows = t.twin(s), copyRows(rows)
		}
		t.call(hc, func() { render(rs, o, hc, hw, rrows) }, func(r callResult) {
			refOK = t.expectEnd(hc, r, "merge rendering with a healthy writer", "w-healthy")
		})
		ref = hw.buf
	}
	w := &simWriter{c: c}
	ended := func(r callResult) {
		ok := t.expectEnd(c, r, "merge rendering", "w-err")
		if !faulty {
			ref = w.buf
			refOK = ok
		}
		if c.err != nil {
			switch {
			case r.ret:
				t.add("w-err", "the writer failed (%v after accepting %d bytes) but the rendering returned normally", c.err, len(w.buf))
			case r.pan != nil:
				if e, isErr := r.pan.(error); !isErr || !sameErr(e, c.err) {
					t.add("w-err", "the writer failed with %v but the rendering panicked with %s", c.err, describe(r.pan))
				}
			}
		}
		if w.after > 0 {
			t.add("w-after", "%d more write(s) after the writer reported an error", w.after)
		}
		if refOK {
			if c.fired != nil {
				if !strings.HasPrefix(string(ref), string(w.buf)) {
					t.add("w-prefix", "bytes accepted before the interruption are not a prefix of the healthy output\n got %q\nfull %q", clip(w.buf), clip(ref))
				}
			} else if string(w.buf) != string(ref) {
				t.add("w-healthy", "two healthy renderings differ:\n%q\n%q", clip(w.buf), clip(ref))
			}
		}
		t.checkOrder(o, s, cells, string(w.buf), c.fired == nil && ok)
		if c.fired == nil && ok {
			t.checkLayout(o, s, cells, string(w.buf))
		}
		if !reflect.DeepEqual(orig, copyRows(rows)) {
			t.add("render-trace", "rendering modified the caller's rows")
		}
		if after := t.peek(s); !reflect.DeepEqual(before, after) {
			t.add("render-trace", "rendering changed column widths from %v to %v", before, after)
		}
		if s.tb.ColumnCount() != len(s.m.cols) || s.columns() != colsBefore {
			t.add("render-trace", "rendering changed the columns from %s to %s", colsBefore, s.columns())
		}
		t.digest("merge %q %s", w.buf, endName(r))
		if c.fired != nil && refOK {
			// repeat with healthy callbacks
			hc := t.ctx(&op{})
			hw := &simWriter{c: hc}
			t.call(hc, func() { render(s, o, hc, hw, rows) }, func(r callResult) {
				if !t.expectEnd(hc, r, "repeated rendering", "rerender") || string(hw.buf) != string(ref) {
					t.add("rerender", "repeating an interrupted rendering gave %q (%s), want %q", clip(hw.buf), endName(r), clip(ref))
				}
			})
		}
	}
	t.call(c, func() { render(s, o, c, w, rows) }, ended)
}

// twin is a new table with the columns and widths of s.
func (t *taskState) twin(s *slot) *slot {
	x := &slot{tb: table.NewTable(s.spec), spec: s.spec, specIdx: s.specIdx, m: s.m}
	arg := t.peek(s)
	if arg == nil {
		arg = map[string]uint16{}
		for _, c := range s.m.cols {
			arg[c.Name] = uint16(s.m.cw[c.Name])
		}
	}
	x.tb.UpdateWidth(arg)
	return x
}

// opProbe uses a table and its twin alike: whatever happened to the table
// before, both must behave the same.
func (t *taskState) opProbe(o *op, c *opctx) {
	s := t.slot(o.T)
	if s == nil {
		return
	}
	x := t.twin(s)
	use := func(s *slot) (out []string) {
		note := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
		hc := t.ctx(&op{})
		t.call(hc, func() {
			for i := 0; i < 2; i++ {
				arg := map[string]uint16{}
				for k, v := range o.Widths {
					arg[k] = v + uint16(i)
				}
				s.tb.UpdateWidth(arg)
				note("widths %v after UpdateWidth(%v)", s.widths(), arg)
				ro := *o
				row, err := s.tb.FormatItem(t.newItem(&ro, hc))
				note("FormatItem %q %v widths %v", row, err, s.widths())
				str, err := s.tb.FormatItemBasic(t.newItem(&ro, hc), o.Sep)
				note("FormatItemBasic %q %v", str, err)
				rows := [][]string{append([]string(nil), row...), append([]string(nil), row...)}
				al, err := s.tb.AlignFormattedItem(row)
				note("AlignFormattedItem %q %v", al, err)
				note("FormatHeader %q TableWidth %d", s.tb.FormatHeader(o.Sep), s.tb.TableWidth(o.Margin))
				if len(rows[0]) == len(s.m.cols) {
					for v := 0; v < 4; v++ {
						mo := *o
						mo.Compact, mo.Vert, mo.V = v&1 > 0, v&2 > 0, 0
						hw := &simWriter{c: hc}
						render(s, &mo, hc, hw, rows)
						note("merge %q", hw.buf)
					}
				}
			}
		}, func(r callResult) { note("%s", endName(r)) })
		return
	}
	a, b := use(s), use(x)
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			g, w := "nothing", "nothing"
			if i < len(a) {
				g = a[i]
			}
			if i < len(b) {
				w = b[i]
			}
			t.add("rerender", "used further after these renderings the table gives %s, one with the same columns and widths gives %s", clip([]byte(g)), clip([]byte(w)))
			break
		}
	}
	for n := range s.m.cw {
		s.m.cw[n] = int(s.tb.Width(n))
	}
	for _, cc := range s.m.cols {
		s.m.cw[cc.Name] = int(s.tb.Width(cc.Name))
	}
	t.digest("probe %q", a)
}

func clip(b []byte) string {
	if len(b) > 400 {
		return string(b[:400]) + "..."
	}
	return string(b)
}

// run is the body of a simulated task; it is re-entered when a callback ended
// the previous goroutine.
func (t *taskState) run() {
	for t.pc < len(t.ops) {
		o := &t.ops[t.pc]
		t.pc++
		if t.w.p.Prop == "C16" {
			t.handStep(o)
		} else {
			t.step(o)
		}
	}
}

func (w *world) phase(pol *simrt.Policy, progs [][]op) ([]*taskState, simrt.Result) {
	w.tasks = nil
	var fns []func()
	for i, ops := range progs {
		t := &taskState{id: i, w: w, ops: ops, slots: map[int]*slot{}}
		w.tasks = append(w.tasks, t)
		fns = append(fns, t.run)
	}
	ts := w.tasks
	r := simrt.Run(pol, fns)
	for i, t := range ts {
		if x, ok := simrt.TaskPanic(i); ok {
			t.viols = append(t.viols, viol{"panic", "panic escaped: " + describe(x), i, t.pc - 1})
		}
	}
	if r.Crashed && len(ts) > 0 {
		ts[0].viols = append(ts[0].viols, viol{"panic", "a goroutine started by the package panicked, which ends the process: " + describe(r.Crash), 0, ts[0].pc - 1})
	}
	return ts, r
}
