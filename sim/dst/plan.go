package main

import "verif.local/sim/simrt"

// fault: at the At-th call of Seam within the op, do Kind.
type fault struct {
	Seam string `json:"seam"` // write len get value format vstr align
	At   int    `json:"at"`
	Kind string `json:"kind"` // err0 short full err panic goexit stall slow reent
	N    int    `json:"n,omitempty"`
	E    int    `json:"e,omitempty"` // which error value
}

type op struct {
	K       string            `json:"k"`
	T       int               `json:"t"`
	Spec    int               `json:"spec,omitempty"`
	Row     []cell            `json:"row,omitempty"`
	Col     *col              `json:"col,omitempty"`
	Sep     string            `json:"sep,omitempty"`
	Max     int               `json:"max,omitempty"`
	Compact bool              `json:"compact,omitempty"`
	Vert    bool              `json:"vert,omitempty"`
	Widths  map[string]uint16 `json:"widths,omitempty"`
	Margin  uint16            `json:"margin,omitempty"`
	Fn      int               `json:"fn,omitempty"`
	W       uint16            `json:"w,omitempty"`
	Cell    cell              `json:"cell"`
	N       int               `json:"n,omitempty"`
	Dup     int               `json:"dup,omitempty"`
	Lost    bool              `json:"lost,omitempty"`
	Delay   int               `json:"delay,omitempty"`
	EA      bool              `json:"ea,omitempty"`
	Strict  bool              `json:"strict,omitempty"`
	Lut     bool              `json:"lut,omitempty"`
	V       int               `json:"v,omitempty"`    // fmt: kinds of values the getters return; merge: kinds of list and writer
	Item    int               `json:"item,omitempty"` // kind of item
	Rev     bool              `json:"rev,omitempty"`  // rows in reverse order
	Faults  []fault           `json:"faults,omitempty"`
}

type plan struct {
	Prop string `json:"prop"`
	Run  uint64 `json:"run"`
	EA   bool   `json:"ea"`
	Cap  int    `json:"cap"`
	// Polite: the caller leaves alone what it passed and got (C14)
	Polite bool `json:"polite,omitempty"`
	// Quiet: the tables are not asked for anything between the calls
	Quiet bool `json:"quiet,omitempty"`
	// RW: calls that only read take the callers' lock together (C16)
	RW    bool `json:"rw,omitempty"`
	Specs [][]col
	Setup []op         `json:"setup"`
	Tasks [][]op       `json:"tasks"`
	Round []op         `json:"round,omitempty"`
	Final []op         `json:"final,omitempty"`
	Scan  []op         `json:"scan,omitempty"` // as Final, outside the scheduler
	Pol   simrt.Policy `json:"pol"`
	// Replays holds the recorded decisions per round (Pol.Mode "replay").
	Replays [][]simrt.Switch `json:"replays,omitempty"`
}

func (p *plan) clone() *plan {
	q := *p
	q.Setup = cloneOps(p.Setup)
	q.Final = cloneOps(p.Final)
	q.Round = cloneOps(p.Round)
	q.Scan = cloneOps(p.Scan)
	q.Tasks = nil
	for _, t := range p.Tasks {
		q.Tasks = append(q.Tasks, cloneOps(t))
	}
	q.Specs = nil
	for _, s := range p.Specs {
		q.Specs = append(q.Specs, append([]col(nil), s...))
	}
	q.Replays = nil
	for _, x := range p.Replays {
		q.Replays = append(q.Replays, append([]simrt.Switch(nil), x...))
	}
	q.Pol.Points = append([]int64(nil), p.Pol.Points...)
	return &q
}

func cloneOps(ops []op) []op {
	var out []op
	for _, o := range ops {
		o.Row = append([]cell(nil), o.Row...)
		o.Faults = append([]fault(nil), o.Faults...)
		if o.Widths != nil {
			w := map[string]uint16{}
			for k, v := range o.Widths {
				w[k] = v
			}
			o.Widths = w
		}
		out = append(out, o)
	}
	return out
}
