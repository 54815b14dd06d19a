package main

import "strings"

// col describes a column. Align: 0 none, 1-3 the package's left/right/centre,
// 4-6 the same through a callback, 7 a custom callback padding with dots.
type col struct {
	Name  string `json:"n"`
	Title cell   `json:"ti"`
	Short cell   `json:"sh"`
	Align int    `json:"a"`
}

// model is the reference table: a list of columns and a map of maxima.
type model struct {
	ea   bool
	cols []col
	cw   map[string]int
}

func (m *model) width(name string) int { return m.cw[name] }

func (m *model) commit(name string, w int) {
	if w > m.cw[name] {
		m.cw[name] = w
	}
}

func padL(s string, sw, w int) string {
	if sw >= w {
		return s
	}
	return s + strings.Repeat(" ", w-sw)
}

func padR(s string, sw, w int) string {
	if sw >= w {
		return s
	}
	return strings.Repeat(" ", w-sw) + s
}

func padC(s string, sw, w int) string {
	if sw >= w {
		return s
	}
	n := w - sw
	l := (n + 1) / 2
	return strings.Repeat(" ", l) + s + strings.Repeat(" ", n-l)
}

// pad aligns s (visible width sw) to w as column alignment a asks; none is
// left as it is.
func pad(a int, s string, sw, w int) string {
	switch a {
	case 1, 4:
		return padL(s, sw, w)
	case 2, 5:
		return padR(s, sw, w)
	case 3, 6:
		return padC(s, sw, w)
	case 7:
		if sw >= w {
			return s
		}
		return s + strings.Repeat(".", w-sw)
	}
	return s
}

// mergePad is pad with left alignment as the default.
func mergePad(a int, s string, sw, w int) string {
	if a == 0 {
		a = 1
	}
	return pad(a, s, sw, w)
}

func (m *model) header(sep string) string {
	var b strings.Builder
	for _, c := range m.cols {
		w := m.cw[c.Name]
		if w == 0 {
			b.WriteString(c.Title.str() + sep)
			continue
		}
		v := cell{}
		if c.Title.width(m.ea) <= w {
			v = c.Title
		} else if c.Short.width(m.ea) <= w {
			v = c.Short
		}
		b.WriteString(padC(v.str(), v.width(m.ea), w) + sep)
	}
	b.WriteString("\n")
	return b.String()
}

func (m *model) tableWidth(margin int) int {
	if len(m.cols) == 0 {
		return 0
	}
	w := (len(m.cols) - 1) * margin
	for _, c := range m.cols {
		w += m.cw[c.Name]
	}
	if w > maxSupported {
		return maxSupported
	}
	return w
}

// groupWidth is the width of one group of a merged rendering.
func (m *model) groupWidth() int {
	w := len(m.cols) - 1
	for _, c := range m.cols {
		w += m.cw[c.Name]
	}
	return w
}
