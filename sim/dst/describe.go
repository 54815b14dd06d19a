package main

import "fmt"

// describePlan prints a plan for people.
func describePlan(p *plan) []string {
	out := []string{fmt.Sprintf("config: east-asian=%v cache-capacity=%d(0=shipped) policy=%s map-seed=%x quiet=%v", p.EA, p.Cap, p.Pol.Mode, p.Pol.MapSeed, p.Quiet)}
	for i, s := range p.Specs {
		for _, c := range s {
			out = append(out, fmt.Sprintf("spec %d column %q title=%q short=%q align=%s", i, c.Name, c.Title.str(), c.Short.str(), alignName(c.Align)))
		}
	}
	list := func(name string, ops []op) {
		for i := range ops {
			if len(ops) > 80 && i >= 60 && i < len(ops)-12 {
				if i == 60 {
					out = append(out, fmt.Sprintf("%s ... (%d left out)", name, len(ops)-72))
				}
				continue
			}
			out = append(out, fmt.Sprintf("%s %d: %s", name, i, ops[i].describe()))
		}
	}
	list("setup", p.Setup)
	list("round", p.Round)
	for i, t := range p.Tasks {
		list(fmt.Sprintf("task %d op", i), t)
	}
	list("final", p.Final)
	list("final", p.Scan)
	for ri, r := range p.Replays {
		for i, s := range r {
			if i == 60 {
				out = append(out, fmt.Sprintf("... %d more decisions", len(r)-i))
				break
			}
			out = append(out, fmt.Sprintf("round %d: at step %d run task %d", ri, s.Step, s.To))
		}
	}
	return out
}

func alignName(a int) string {
	return []string{"none", "left", "right", "center", "left via callback", "right via callback", "center via callback", "dots via callback"}[a%8]
}

func itemName(k int) string {
	return []string{"new", "reused pointer", "by value", "nil", "7"}[k%5]
}

func clipCell(c cell) string {
	s := c.str()
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (o *op) describe() string {
	row := "["
	for i, c := range o.Row {
		if i > 0 {
			row += " "
		}
		row += clipCell(c)
	}
	row += "]"
	s := ""
	switch o.K {
	case "new":
		s = fmt.Sprintf("table %d = NewTable(spec %d)", o.T, o.Spec)
	case "addcol":
		s = fmt.Sprintf("table %d AddColumn(%q)", o.T, o.Col.Name)
	case "fmt":
		s = fmt.Sprintf("table %d FormatItem(%s) values=%d item=%s", o.T, row, o.V, itemName(o.Item))
	case "basic":
		s = fmt.Sprintf("table %d FormatItemBasic(%s, %q)", o.T, row, o.Sep)
	case "align":
		s = fmt.Sprintf("table %d AlignFormattedItem(%s)", o.T, row)
	case "header":
		s = fmt.Sprintf("table %d FormatHeader(%q)", o.T, o.Sep)
	case "query":
		s = fmt.Sprintf("table %d Width/TableWidth(%d)/HasColumn/ColumnCount", o.T, o.Margin)
	case "update":
		s = fmt.Sprintf("table %d UpdateWidth(%v)", o.T, o.Widths)
	case "merge":
		n := "MergeRowsHorizontal"
		if o.Vert {
			n = "MergeRowsVertical"
		}
		s = fmt.Sprintf("table %d %s(max=%d, sep=%q, compact=%v) first %d rows (0=all) reversed=%v list=%s writer=%s", o.T, n, o.Max, o.Sep, o.Compact, o.N, o.Rev,
			[]string{"stored rows", "fresh rows", "by value", "reused object"}[o.V%4], []string{"plain", "with WriteString", "file-like"}[o.V/4%3])
		if o.Fn == 1 && len(o.Faults) > 0 {
			s += " (compared with a table that has the same columns and widths)"
		}
	case "probe":
		s = fmt.Sprintf("table %d and a new one with the same columns and widths: UpdateWidth(%v), FormatItem(%s), FormatItemBasic, AlignFormattedItem, FormatHeader, merges (max=%d, sep=%q), twice", o.T, o.Widths, row, o.Max, o.Sep)
	case "own-fmt":
		s = fmt.Sprintf("table %d FormatItem(%s) values=%d, then the item is changed and the returned row %s", o.T, row, o.V, []string{"overwritten", "kept", "extended"}[o.N%3])
	case "own-late":
		s = fmt.Sprintf("kept row %d is overwritten (extended first: %v)", o.N, o.Rev)
	case "own-basic":
		s = fmt.Sprintf("table %d FormatItemBasic(%s, %q), then the item is changed", o.T, row, o.Sep)
	case "own-update":
		s = fmt.Sprintf("table %d UpdateWidth(%v), then the map is changed", o.T, o.Widths)
	case "own-align":
		s = fmt.Sprintf("table %d AlignFormattedItem(%s), then both rows are overwritten", o.T, row)
	case "own-merge":
		n := "MergeRowsHorizontal"
		if o.Vert {
			n = "MergeRowsVertical"
		}
		s = fmt.Sprintf("table %d %s(max=%d, sep=%q, compact=%v) last %d rows (0=all) reversed=%v, then the list's rows are overwritten", o.T, n, o.Max, o.Sep, o.Compact, o.N, o.Rev)
	case "own-look":
		s = fmt.Sprintf("table %d FormatHeader(%q), TableWidth(%d), Width of every column", o.T, o.Sep, o.Margin)
	case "soak":
		s = fmt.Sprintf("soak: %s with %d, then %d more fresh strings (class %d), every %d-th call failing (0=none), what is alive is counted after each stage", soakNames[o.Fn], o.N, o.Max, o.V, o.Dup)
	case "measure":
		if o.Fn == 3 {
			s = fmt.Sprintf("FormatItem of %s by a fresh table with one column, and its width", clipCell(o.Cell))
			break
		}
		s = fmt.Sprintf("Alignment%s(%s, %d)", []string{"Left", "Right", "Center"}[o.Fn%3], clipCell(o.Cell), o.W)
	case "editcol":
		if o.Fn == 0 {
			s = fmt.Sprintf("column %d of table %d gets alignment %d", o.N, o.T, o.Col.Align)
		} else {
			s = fmt.Sprintf("column %d of table %d gets title %s, short title %s", o.N, o.T, clipCell(o.Col.Title), clipCell(o.Col.Short))
		}
	case "bulk":
		s = fmt.Sprintf("table %d FormatItem of %d rows tagged <row.column>", o.T, o.N)
	case "flood":
		s = fmt.Sprintf("measure %d distinct strings", o.N)
	case "send":
		s = fmt.Sprintf("send widths of table %d (copies=%d lost=%v delay=%d)", o.T, 1+o.Dup, o.Lost, o.Delay)
	case "flush":
		s = "retransmit lost reports, sign off"
	case "coord":
		s = fmt.Sprintf("merge width reports into table %d until all workers signed off", o.T)
	case "round":
		s = fmt.Sprintf("condition %d: EastAsianWidth=%v StrictEmojiNeutral=%v, CreateLUT", o.T, o.EA, o.Strict)
	case "rw":
		s = fmt.Sprintf("condition %d RuneWidth(U+%04X..+%d)", o.T, o.N, o.W)
	case "sw":
		s = fmt.Sprintf("condition %d StringWidth(%s)", o.T, clipCell(o.Cell))
	case "sws":
		s = fmt.Sprintf("condition %d StringWidth of 400 strings drawn from %d", o.T, o.N)
	case "scan":
		s = fmt.Sprintf("condition %d RuneWidth of every rune", o.T)
	default:
		s = fmt.Sprintf("%s %+v", o.K, *o)
	}
	for _, f := range o.Faults {
		s += fmt.Sprintf(" !%s#%d:%s", f.Seam, f.At, f.Kind)
		if f.N > 0 {
			s += fmt.Sprintf("(%d)", f.N)
		}
	}
	return s
}
