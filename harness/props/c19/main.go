// C19: precision flags behave as a set.
package main

import (
	"github.com/sfomuseum/go-edtf"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

// flags are the documented values.
var flags = []struct {
	name string
	got  edtf.Precision
	want uint32
}{
	{"NONE", edtf.NONE, 0},
	{"ALL", edtf.ALL, 2},
	{"ANY", edtf.ANY, 4},
	{"DAY", edtf.DAY, 8},
	{"WEEK", edtf.WEEK, 16},
	{"MONTH", edtf.MONTH, 32},
	{"YEAR", edtf.YEAR, 64},
	{"DECADE", edtf.DECADE, 128},
	{"CENTURY", edtf.CENTURY, 256},
	{"MILLENIUM", edtf.MILLENIUM, 512},
}

// step is one operation: add, clear, toggle, or a query.
type step struct {
	Op   string `json:"op"`
	Flag uint32 `json:"flag"`
}

type history struct {
	Start uint32 `json:"start"`
	Steps []step `json:"steps"`
}

// set is the model: the set of the bits which are present.
type set map[int]bool

func setOf(n uint32) set {
	s := set{}
	for i := 0; i < 32; i++ {
		if n&(1<<i) != 0 {
			s[i] = true
		}
	}
	return s
}

func (s set) shares(n uint32) bool {
	for i := range setOf(n) {
		if s[i] {
			return true
		}
	}
	return false
}

func (s set) value() uint32 {
	var n uint32
	for i, in := range s {
		if in {
			n |= 1 << i
		}
	}
	return n
}

func (s set) compare(p *edtf.Precision, after string, o *engine.Obs) {
	if uint32(*p) != s.value() {
		o.Failf("after %s the set is %d, expected %d", after, uint32(*p), s.value())
	}
	for _, f := range flags {
		if got, want := p.HasFlag(f.got), s.shares(f.want); got != want {
			o.Failf("after %s the set is %d; query for %s: %v, expected %v", after, uint32(*p), f.name, got, want)
		}
	}
	for _, q := range []struct {
		name string
		get  func() bool
		bit  int
	}{{"annual", p.IsAnnual, 6}, {"monthly", p.IsMonthly, 5}, {"daily", p.IsDaily, 3}} {
		if got := q.get(); got != s[q.bit] {
			o.Failf("after %s the set is %d; %s query: %v", after, uint32(*p), q.name, got)
		}
	}
	if uint32(*p) != s.value() {
		o.Failf("after %s and queries the set is %d, expected %d", after, uint32(*p), s.value())
	}
}

func check(c history, o *engine.Obs) {
	p, s := edtf.Precision(c.Start), setOf(c.Start)
	s.compare(&p, "the start", o)
	changed := false
	for _, st := range c.Steps {
		before := s.value()
		f := edtf.Precision(st.Flag)
		switch st.Op {
		case "add":
			p.AddFlag(f)
			for i := range setOf(st.Flag) {
				s[i] = true
			}
		case "clear":
			p.ClearFlag(f)
			for i := range setOf(st.Flag) {
				delete(s, i)
			}
		case "toggle":
			p.ToggleFlag(f)
			for i := range setOf(st.Flag) {
				s[i] = !s[i]
			}
		case "query":
			if got, want := p.HasFlag(f), s.shares(st.Flag); got != want {
				o.Failf("the set is %d; query for %d: %v, expected %v", uint32(p), st.Flag, got, want)
			}
		default:
			o.Failf("unknown operation %q", st.Op)
		}
		changed = changed || s.value() != before
		s.compare(&p, st.Op, o)
		o.Class(st.Op)
	}
	if changed {
		o.NonTrivial()
	}
}

func values(_ bool, emit func(int) bool) {
	for i := range flags {
		if !emit(i) {
			return
		}
	}
}

var ops = []string{"add", "clear", "toggle", "query"}

func value(t *rapid.T) uint32 {
	if x, ok := gen.FreshInt(t, 0, 1<<32-1); ok {
		return uint32(x)
	}
	switch gen.Int(t, "kind", 0, 3) {
	case 0:
		return rapid.Uint32().Draw(t, "any")
	case 1:
		return gen.Pick(t, "flag", flags...).want | gen.Pick(t, "flag", flags...).want
	case 2:
		return 1 << gen.Int(t, "bit", 0, 31)
	}
	return gen.Pick(t, "flag", flags...).want
}

func main() {
	engine.Main(engine.Check{
		ID:          "C19",
		Assumptions: []string{"a precision is observed through its methods and its numeric value"},
		Exhaustive:  true,
		Legs: oracle.Legs(
			engine.Leg[int]{
				Name:  "values",
				Rule:  "the documented value of every flag; non-trivial always",
				Sweep: values,
				Check: func(i int, o *engine.Obs) {
					o.NonTrivial()
					if uint32(flags[i].got) != flags[i].want {
						o.Failf("%s is %d, expected %d", flags[i].name, uint32(flags[i].got), flags[i].want)
					}
				},
			},
			engine.Leg[history]{
				Name: "all-sets",
				Rule: "every set of documented flags, with every single operation on every flag, and (in the thorough tier) every pair of operations; non-trivial if the set changes",
				Sweep: func(thorough bool, emit func(history) bool) {
					for start := uint32(0); start < 1024; start += 2 {
						for _, op := range ops {
							for _, f := range flags {
								one := step{op, f.want}
								if !emit(history{start, []step{one}}) {
									return
								}
								if !thorough {
									continue
								}
								for _, op2 := range ops {
									for _, f2 := range flags {
										if !emit(history{start, []step{one, {op2, f2.want}}}) {
											return
										}
									}
								}
							}
						}
					}
				},
				Check: check,
			},
			engine.Leg[history]{
				Name: "histories",
				Rule: "sequences of up to 20 additions, removals, toggles and queries of single flags, unions of flags and any 32-bit values, from any start; non-trivial if the set changes",
				Gen: func(t *rapid.T) history {
					h := history{Start: value(t)}
					n := gen.Int(t, "n", 0, 20)
					for i := 0; i < n; i++ {
						h.Steps = append(h.Steps, step{gen.Pick(t, "op", ops...), value(t)})
					}
					return h
				},
				Quick: 500000, Thorough: 2000000,
				Check: check,
			},
		),
	})
}
