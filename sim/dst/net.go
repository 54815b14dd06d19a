package main

import (
	"strings"
	"unsafe"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
)

// network carries width reports from workers to the merging task. Order,
// duplication, loss and delay are decided by the plan.
type network struct {
	mu      simsync.Mutex
	q       []netMsg
	done    int
	workers int
	pops    uint64
	lastSeq map[int]int
}

type netMsg struct {
	from, seq int
	widths    map[string]uint16
	delay     int
}

func (t *taskState) netOp(o *op, c *opctx) bool {
	n := t.w.net
	switch o.K {
	case "send":
		s := t.slot(o.T)
		if s == nil {
			return true
		}
		m := netMsg{from: t.id, seq: t.pc, widths: s.widths(), delay: o.Delay}
		switch o.Fn {
		case 1: // only what changed since the last report
			all := m.widths
			m.widths = map[string]uint16{}
			for _, cc := range s.m.cols {
				if all[cc.Name] != s.sent[cc.Name] {
					m.widths[cc.Name] = all[cc.Name]
				}
			}
			s.sent = all
		case 2: // the worker knows a column the merging table does not
			m.widths["other"] = 7
		}
		if o.Lost {
			countFault("net:lost")
			t.lost = append(t.lost, m)
			return true
		}
		t.post(m, 1+o.Dup)
	case "flush":
		for _, m := range t.lost {
			t.post(m, 1)
		}
		t.lost = nil
		simrt.Y(siteNet)
		n.mu.Lock()
		n.done++
		n.mu.Unlock()
		simrt.Wake(unsafe.Pointer(n))
	case "coord":
		t.coordinate(o, c)
	default:
		return false
	}
	return true
}

func (t *taskState) post(m netMsg, copies int) {
	n := t.w.net
	if copies > 1 {
		countFaultN("net:dup", int64(copies-1))
	}
	if m.delay > 0 {
		countFault("net:delay")
	}
	for i := 0; i < copies; i++ {
		simrt.Y(siteNet)
		n.mu.Lock()
		d := m
		d.delay = m.delay * (i + 1)
		n.q = append(n.q, d)
		n.mu.Unlock()
		simrt.Wake(unsafe.Pointer(n))
	}
}

func (t *taskState) coordinate(o *op, c *opctx) {
	n := t.w.net
	s := t.slot(o.T)
	if s == nil {
		return
	}
	if n.lastSeq == nil {
		n.lastSeq = map[int]int{}
	}
	for got := 0; o.N == 0 || got < o.N; {
		simrt.Y(siteNet)
		n.mu.Lock()
		if len(n.q) == 0 {
			done := n.done >= n.workers
			n.mu.Unlock()
			if done {
				return
			}
			simrt.Block(unsafe.Pointer(n))
			if simrt.Aborting() {
				return
			}
			continue
		}
		// deliver one of the due messages, chosen by the run's seed
		best := -1
		n.pops++
		k := int(mix(t.w.p.Run^n.pops*0x9e3779b97f4a7c15) % uint64(len(n.q)))
		for j := range n.q {
			i := (j + k) % len(n.q)
			if best < 0 || n.q[i].delay < n.q[best].delay {
				best = i
			}
			if n.q[i].delay > 0 {
				n.q[i].delay--
			}
		}
		m := n.q[best]
		n.q = append(n.q[:best:best], n.q[best+1:]...)
		n.mu.Unlock()
		if best != 0 {
			countFault("net:reorder")
		}
		if m.seq < n.lastSeq[m.from] {
			countFault("net:stale")
		} else {
			n.lastSeq[m.from] = m.seq
		}
		got++
		before := t.peek(s)
		arg := map[string]uint16{}
		for _, cc := range s.m.cols {
			if w, ok := m.widths[cc.Name]; ok {
				arg[cc.Name] = w
			}
		}
		if w, ok := m.widths["other"]; ok {
			arg["other"] = w
		}
		t.call(c, func() { s.tb.UpdateWidth(arg) }, func(r callResult) {
			t.expectEnd(c, r, "UpdateWidth", "panic")
			for _, cc := range s.m.cols {
				if t.w.p.Quiet {
					break
				}
				got := s.tb.Width(cc.Name)
				if got < before[cc.Name] {
					t.add("conv", "merging a report narrowed column %q from %d to %d", cc.Name, before[cc.Name], got)
				}
				want := before[cc.Name]
				if m.widths[cc.Name] > want {
					want = m.widths[cc.Name]
				}
				if got != want {
					t.add("conv", "merging width %d into column %q of width %d gave %d", m.widths[cc.Name], cc.Name, before[cc.Name], got)
				}
			}
			for k, v := range m.widths {
				s.m.commit(k, int(v))
			}
			if t.w.p.Run&1 == 0 && r.ret && !t.w.p.Quiet {
				t.mirror(s, m, arg, before)
			}
			// the receive buffer is used again for something else
			for k := range arg {
				arg[k] = 60000
			}
		})
	}
}

// mirror merges the same report into a second table, which starts out with
// what the first one had before its first report.
func (t *taskState) mirror(s *slot, m netMsg, arg, before map[string]uint16) {
	x := t.mir
	if x == nil {
		x = &slot{tb: table.NewTable(s.spec), m: &model{cw: map[string]int{}}}
		x.tb.UpdateWidth(before)
		for k, v := range before {
			x.m.commit(k, int(v))
		}
		t.mir = x
	}
	x.tb.UpdateWidth(arg)
	for k, v := range m.widths {
		x.m.commit(k, int(v))
	}
	for _, cc := range s.m.cols {
		if got := int(x.tb.Width(cc.Name)); got != x.m.cw[cc.Name] {
			t.add("conv", "a second table that merged the same reports has width %d for column %q, the widest reported is %d", got, cc.Name, x.m.cw[cc.Name])
			return
		}
	}
}

// condSlot is a width condition and the settings its lookup table was last
// built with.
type condSlot struct {
	c      *runewidth.Condition
	ea, st bool
	built  bool
}

var refTables = map[[2]bool][]byte{}

// refWidths gives the widths of all runes under the settings, as a condition
// without a lookup table reports them.
func refWidths(ea, st bool) []byte {
	k := [2]bool{ea, st}
	if refTables[k] == nil {
		c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: st}
		t := make([]byte, 0x110000)
		for r := range t {
			t[r] = byte(c.RuneWidth(rune(r)))
		}
		refTables[k] = t
	}
	return refTables[k]
}

func (t *taskState) condOp(o *op, c *opctx) bool {
	switch o.K {
	case "round":
		s := t.w.conds[o.T]
		if s == nil || s.c == nil {
			if s == nil {
				s = &condSlot{}
				t.w.conds[o.T] = s
			}
			switch {
			case o.T == 0:
				s.c = runewidth.DefaultCondition
			case o.Fn == 1:
				s.c = runewidth.NewCondition()
			default:
				s.c = &runewidth.Condition{}
			}
		}
		t.call(c, func() {
			s.c.EastAsianWidth = o.EA
			s.c.StrictEmojiNeutral = o.Strict
			s.ea, s.st = o.EA, o.Strict
			if o.N == 1 && o.T == 0 {
				runewidth.CreateLUT() // builds it if there is none
				if !s.built {
					s.built = true
					return
				}
			}
			s.built = true
			s.c.CreateLUT()
		}, func(r callResult) { t.expectEnd(c, r, "CreateLUT", "panic") })
	case "rw":
		s := t.w.conds[o.T]
		if s == nil || s.c == nil {
			return true
		}
		ref := &runewidth.Condition{EastAsianWidth: s.ea, StrictEmojiNeutral: s.st}
		t.call(c, func() {
			h := uint64(0)
			for i := 0; i < int(o.W); i++ {
				r := rune(o.N + i)
				got := s.c.RuneWidth(r)
				h = mix(h ^ uint64(got))
				if want := ref.RuneWidth(r); got != want {
					t.add("lut", "with a lookup table U+%04X has width %d, without %d (EastAsian=%v StrictEmojiNeutral=%v)", r, got, want, s.ea, s.st)
					return
				}
			}
			t.digest("rw %x", h)
		}, func(r callResult) { t.expectEnd(c, r, "RuneWidth", "panic") })
	case "sw":
		s := t.w.conds[o.T]
		if s == nil || s.c == nil {
			return true
		}
		ref := &runewidth.Condition{EastAsianWidth: s.ea, StrictEmojiNeutral: s.st}
		str := o.Cell.str()
		t.call(c, func() {
			got := 0
			if o.T == 0 && o.Fn == 1 {
				got = runewidth.StringWidth(str)
			} else {
				got = s.c.StringWidth(str)
			}
			if want := ref.StringWidth(str); got != want {
				t.add("lut", "with a lookup table %q has width %d, without %d (EastAsian=%v StrictEmojiNeutral=%v)", str, got, want, s.ea, s.st)
			}
			t.digest("sw %d", got)
		}, func(r callResult) { t.expectEnd(c, r, "StringWidth", "panic") })
	case "sws":
		// many strings, outside the scheduler
		s := t.w.conds[o.T]
		if s == nil || s.c == nil {
			return true
		}
		ref := &runewidth.Condition{EastAsianWidth: s.ea, StrictEmojiNeutral: s.st}
		t.call(c, func() {
			r := &rng{s: uint64(o.N)}
			for i := 0; i < 400; i++ {
				str := r.cell(10).str()
				if r.p(1, 6) {
					b := make([]byte, r.in(0, 24)) // not even UTF-8
					for j := range b {
						b[j] = byte(r.n(256))
					}
					str = string(b)
				} else if r.p(1, 4) {
					x := make([]rune, r.in(1, 12))
					for j := range x {
						x[j] = rune(r.n(0x110000))
						if r.p(1, 2) {
							x[j] = rune(r.n(0x3400))
						}
						if r.p(1, 6) {
							// these join what is around them
							x[j] = pick[rune](r, 0x600, 0x6dd, 0x70f, 0xd4e, 0x200d, 0x1f1e6, 0xfe0f, 0x300, 0x1100, 0x1160)
						}
					}
					str = string(x)
				}
				if i%40 == 7 && str != "" {
					str = strings.Repeat(str, r.in(1, 1+3000/len(str))) + r.cell(3).str()
				}
				got := 0
				if o.T == 0 && o.Fn == 1 {
					got = runewidth.StringWidth(str)
				} else {
					got = s.c.StringWidth(str)
				}
				if want := ref.StringWidth(str); got != want {
					t.add("lut", "with a lookup table %q has width %d, without %d (EastAsian=%v StrictEmojiNeutral=%v)", str, got, want, s.ea, s.st)
					return
				}
			}
		}, func(r callResult) { t.expectEnd(c, r, "StringWidth", "panic") })
	case "scan":
		s := t.w.conds[o.T]
		if s == nil || s.c == nil {
			return true
		}
		ref := refWidths(s.ea, s.st)
		t.call(c, func() {
			for r := rune(-2); r <= 0x110001; r++ {
				want := 0
				if r >= 0 && r < 0x110000 {
					want = int(ref[r])
				}
				if got := s.c.RuneWidth(r); got != want {
					t.add("lut", "with a lookup table U+%04X has width %d, without %d (EastAsian=%v StrictEmojiNeutral=%v)", r, got, want, s.ea, s.st)
					return
				}
			}
		}, func(r callResult) { t.expectEnd(c, r, "RuneWidth", "panic") })
	default:
		return false
	}
	return true
}
