package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var tagRE = regexp.MustCompile(`<(\d+)\.(\d+)>`)

// lineRows extracts, per line, which rows it holds by the tags planted in the
// cells, and checks that cells are complete and in column order.
func (t *taskState) lineRows(s *slot, cells [][]cell, line string) ([]int, string) {
	var rows []int
	ms := tagRE.FindAllStringSubmatchIndex(line, -1)
	k := 0
	for _, m := range ms {
		r, _ := strconv.Atoi(line[m[2]:m[3]])
		c, _ := strconv.Atoi(line[m[4]:m[5]])
		if c != k {
			return nil, fmt.Sprintf("column %d of row %d stands where column %d was due", c, r, k)
		}
		if c == 0 {
			rows = append(rows, r)
		} else if len(rows) == 0 || rows[len(rows)-1] != r {
			return nil, fmt.Sprintf("cells of row %d are split", r)
		}
		if r >= len(cells) || c >= len(cells[r]) {
			return nil, fmt.Sprintf("cell %d.%d does not exist", r, c)
		}
		if !strings.HasPrefix(line[m[0]:], cells[r][c].str()) {
			return nil, fmt.Sprintf("cell %d.%d is not complete: want %q", r, c, cells[r][c].str())
		}
		k++
		if k == len(s.m.cols) {
			k = 0
		}
	}
	if k != 0 {
		return nil, "a row is cut off"
	}
	return rows, ""
}

func tagged(s *slot, cells [][]cell) bool {
	if len(s.m.cols) == 0 || len(cells) == 0 {
		return false
	}
	for i, r := range cells {
		for j := range s.m.cols {
			if j >= len(r) || r[j].Tag != fmt.Sprintf("<%d.%d>", i, j) {
				return false
			}
		}
	}
	return true
}

func splitLines(out string) (lines []string, complete bool) {
	if out == "" {
		return nil, true
	}
	complete = strings.HasSuffix(out, "\n")
	lines = strings.Split(out, "\n")
	return lines[:len(lines)-1], complete
}

// checkOrder: every row exactly once, in order.
func (t *taskState) checkOrder(o *op, s *slot, cells [][]cell, out string, done bool) {
	if !tagged(s, cells) {
		t.checkOrderText(o, s, cells, out, done)
		return
	}
	lines, complete := splitLines(out)
	if done && !complete {
		t.add("order", "output does not end with a newline: %q", clip([]byte(out)))
		return
	}
	n := len(cells)
	var got [][]int
	for i, l := range lines {
		rows, bad := t.lineRows(s, cells, l)
		if bad != "" {
			t.add("order", "line %d: %s\n%q", i, bad, l)
			return
		}
		if len(rows) == 0 {
			t.add("order", "line %d of %d holds no row: %q", i, len(lines), l)
			return
		}
		got = append(got, rows)
	}
	if !o.Vert {
		next := 0
		for i, rows := range got {
			for _, r := range rows {
				if r != next {
					t.add("order", "horizontal: line %d has row %d where row %d was due (%v)", i, r, next, got)
					return
				}
				next++
			}
		}
		if done && next != n {
			t.add("order", "horizontal: %d of %d rows written", next, n)
		}
		return
	}
	if len(got) == 0 {
		if done {
			t.add("order", "vertical: nothing written for %d rows", n)
		}
		return
	}
	step := n
	if len(got[0]) > 1 {
		step = got[0][1] - got[0][0]
	}
	if step < 1 {
		t.add("order", "vertical: first line holds rows %v", got[0])
		return
	}
	for i, rows := range got {
		var want []int
		for r := i; r < n && len(want) < len(got[0]); r += step {
			want = append(want, r)
		}
		if fmt.Sprint(rows) != fmt.Sprint(want) {
			t.add("order", "vertical: line %d holds rows %v, want %v", i, rows, want)
			return
		}
	}
	if done {
		seen := make([]int, n)
		for _, rows := range got {
			for _, r := range rows {
				seen[r]++
			}
		}
		for r, k := range seen {
			if k != 1 {
				t.add("order", "vertical: row %d written %d times (%v)", r, k, got)
				return
			}
		}
	}
}

// strip removes what padding and separators may consist of.
func strip(s, sep string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '.' || strings.ContainsRune(sep, r) {
			return -1
		}
		return r
	}, s)
}

// checkOrderText is checkOrder for rows without tags (repeated and empty
// texts): some number of groups must explain the text of all lines.
func (t *taskState) checkOrderText(o *op, s *slot, cells [][]cell, out string, done bool) {
	n := len(cells)
	if n == 0 || len(s.m.cols) == 0 || n > 60 || len(out) > 20000 {
		return
	}
	lines, complete := splitLines(out)
	if done && !complete {
		t.add("order", "output does not end with a newline: %q", clip([]byte(out)))
		return
	}
	if len(lines) == 0 {
		if done {
			t.add("order", "nothing written for %d rows", n)
		}
		return
	}
	text := make([]string, n)
	for i := range text {
		for c := range s.m.cols {
			text[i] += strip(cells[i][c].str(), o.Sep)
		}
	}
	got := make([]string, len(lines))
	for i := range lines {
		got[i] = strip(lines[i], o.Sep)
	}
	// g rows per line; for the vertical order that means L lines in all
	for g := 1; g <= n; g++ {
		L := ceil(n, g)
		if done && L != len(lines) || len(lines) > L {
			continue
		}
		ok := true
		for l := 0; ok && l < len(lines); l++ {
			want := ""
			for k := 0; k < g; k++ {
				r := l*g + k
				if o.Vert {
					r = k*L + l
				}
				if r < n {
					want += text[r]
				}
			}
			ok = got[l] == want
		}
		if ok {
			return
		}
	}
	t.add("order", "no way to arrange the %d rows gives these lines (vertical %v, max %d, sep %q, compact %v):\n%s", n, o.Vert, o.Max, o.Sep, o.Compact, clip([]byte(out)))
}

func ceil(a, b int) int { return (a + b - 1) / b }

// at gives the row at (line, group).
func at(vert bool, g, lines, line, group int) int {
	if vert {
		return group*lines + line
	}
	return line*g + group
}

// slotMax gives the widest cell per group and column for g groups.
func slotMax(s *slot, cells [][]cell, vert bool, g int) []int {
	n, cn := len(cells), len(s.m.cols)
	lines := ceil(n, g)
	w := make([]int, g*cn)
	for l := 0; l < lines; l++ {
		for k := 0; k < g; k++ {
			r := at(vert, g, lines, l, k)
			if r >= n || (vert && k > 0 && r < k*lines) {
				continue
			}
			for c := 0; c < cn; c++ {
				if x := cells[r][c].width(s.m.ea); x > w[k*cn+c] {
					w[k*cn+c] = x
				}
			}
		}
	}
	return w
}

func sumWidth(w []int, g, cn, margin int) int {
	t := margin*(g-1) + (cn-1)*g
	for _, x := range w {
		t += x
	}
	return t
}

// checkLayout: aligned, fits, fills.
func (t *taskState) checkLayout(o *op, s *slot, cells [][]cell, out string) {
	n := len(cells)
	if n == 0 || len(s.m.cols) == 0 {
		return
	}
	lines, complete := splitLines(out)
	if !complete || len(lines) == 0 {
		return
	}
	if tagged(s, cells) {
		first, bad := t.lineRows(s, cells, lines[0])
		if bad != "" || len(first) == 0 {
			return
		}
		if cat, msg := layout(o, s, cells, lines, len(first)); cat != "" {
			t.add(cat, "%s", msg)
		}
		return
	}
	// without tags the number of groups is unknown: some number must do
	if n > 40 || len(out) > 20000 {
		return
	}
	rank := map[string]int{"": 0, "layout": 1, "lines": 2, "fit": 3, "fill": 4}
	cat, msg := "", ""
	for g := 1; g <= n; g++ {
		if len(lines) != ceil(n, g) || o.Vert && ceil(n, len(lines)) != g {
			continue
		}
		c, m := layout(o, s, cells, lines, g)
		if c == "" {
			return
		}
		if rank[c] > rank[cat] {
			cat, msg = c, m
		}
	}
	if cat == "" {
		cat, msg = "layout", fmt.Sprintf("%d rows on %d lines", n, len(lines))
	}
	t.add(cat, "%s", msg)
}

// layout checks the lines as g groups.
func layout(o *op, s *slot, cells [][]cell, lines []string, g int) (string, string) {
	n, cn := len(cells), len(s.m.cols)
	margin, known := sepWidth(o.Sep, s.m.ea)
	tw := make([]int, 0, g*cn)
	for k := 0; k < g; k++ {
		for _, c := range s.m.cols {
			tw = append(tw, s.m.cw[c.Name])
		}
	}
	build := func(w []int) []string {
		ln := len(lines)
		res := make([]string, ln)
		for l := 0; l < ln; l++ {
			var groups []string
			for k := 0; k < g; k++ {
				r := at(o.Vert, g, ln, l, k)
				if r >= n {
					break
				}
				parts := make([]string, cn)
				for c, cc := range s.m.cols {
					x := cells[r][c]
					parts[c] = mergePad(cc.Align, x.str(), x.width(s.m.ea), w[k*cn+c])
				}
				groups = append(groups, strings.Join(parts, " "))
			}
			res[l] = strings.Join(groups, o.Sep)
		}
		return res
	}
	match := func(exp []string) int {
		for i := range exp {
			if lines[i] != exp[i] && lines[i] != exp[i]+o.Sep {
				return i
			}
		}
		return -1
	}
	if len(lines) != ceil(n, g) {
		return "layout", fmt.Sprintf("%d rows in %d groups take %d lines, want %d", n, g, len(lines), ceil(n, g))
	}
	w := tw
	exp := build(tw)
	bad2 := match(exp)
	if bad2 >= 0 && o.Compact {
		w2 := slotMax(s, cells, o.Vert, g)
		exp2 := build(w2)
		if b := match(exp2); b < 0 {
			w, bad2 = w2, -1
		} else {
			exp, bad2 = exp2, b
		}
	}
	if bad2 >= 0 {
		return "layout", fmt.Sprintf("line %d is %q, want %q (max %d, sep %q, compact %v, vertical %v, column widths %v)", bad2, clip([]byte(lines[bad2])), clip([]byte(exp[bad2])), o.Max, o.Sep, o.Compact, o.Vert, s.m.cw)
	}
	if !known {
		return "", ""
	}
	max := o.Max
	if max > maxSupported {
		max = maxSupported
	}
	if g > 1 {
		if tot := sumWidth(w, g, cn, margin); tot > max {
			return "fit", fmt.Sprintf("lines of %d groups are %d wide, the maximum is %d (sep %q, compact %v, vertical %v, column widths %v)", g, tot, o.Max, o.Sep, o.Compact, o.Vert, s.m.cw)
		}
	}
	gw := s.m.groupWidth()
	// one more group
	more := g + 1
	useful := g < n && gw+margin > 0 // groups that take no room use no width
	if o.Vert {
		useful = useful && ceil(n, ceil(n, more)) == more
	}
	if useful {
		tot := more*gw + (more-1)*margin
		if o.Compact {
			if c := sumWidth(slotMax(s, cells, o.Vert, more), more, cn, margin); c < tot {
				tot = c
			}
		}
		if tot <= max {
			return "fill", fmt.Sprintf("only %d groups used although %d would take %d of %d cells (sep %q, compact %v, vertical %v, %d rows)", g, more, tot, max, o.Sep, o.Compact, o.Vert, n)
		}
	}
	if o.Compact {
		g0 := 1
		if gw+margin > 0 {
			g0 = (max + margin) / (gw + margin)
		}
		if g0 < 1 {
			g0 = 1
		}
		if l0 := ceil(n, g0); len(lines) > l0 {
			return "lines", fmt.Sprintf("compact rendering takes %d lines, non-compact %d", len(lines), l0)
		}
	}
	return "", ""
}
