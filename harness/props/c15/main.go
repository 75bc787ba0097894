// C15: before, after and between follow the bounds of the dates.
package main

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

// side is what is known about one operand.
type side struct {
	text         string
	d            *edtf.EDTFDate
	lower, upper int64
	hasLower     bool
	hasUpper     bool
	bare         bool // '..'
}

func operand(s string, o *engine.Obs) side {
	x := side{text: s, bare: s == ".."}
	d, err := parser.ParseString(s)
	if err != nil {
		return x
	}
	x.d = d
	x.lower, x.hasLower = oracle.SecondsOf(d.Start.Lower)
	x.upper, x.hasUpper = oracle.SecondsOf(d.End.Upper)
	if e := model.Evaluate(s); e.Outcome == model.OK && e.Lower().State == model.Dated && !e.Lower().Any {
		// take the moments from the model, where it knows them
		if e.Upper().State == model.Dated && !e.Upper().Any {
			x.lower, x.hasLower, x.upper, x.hasUpper = e.Lower().Sec, true, e.Upper().Sec, true
		}
	}
	return x
}

// answer is a truth value or an error.
type answer struct{ yes, err bool }

func after(a, b side) answer {
	switch {
	case a.d == nil || b.d == nil:
		return answer{err: true}
	case a.bare:
		return answer{}
	case !a.hasLower || !b.hasUpper:
		return answer{err: true}
	}
	return answer{yes: a.lower > b.upper}
}

func before(a, b side) answer {
	switch {
	case a.d == nil || b.d == nil:
		return answer{err: true}
	case a.bare:
		return answer{}
	case !a.hasUpper || !b.hasLower:
		return answer{err: true}
	}
	return answer{yes: a.upper < b.lower}
}

func is(what string, want answer, got bool, err error, o *engine.Obs) {
	if (err != nil) != want.err || got != want.yes {
		o.Failf("%s: expected %v (error %v), got %v, %v", what, want.yes, want.err, got, err)
	}
}

type pair struct {
	A engine.Str `json:"a"`
	B engine.Str `json:"b"`
}

func checkPair(c pair, o *engine.Obs) {
	a, b := operand(string(c.A), o), operand(string(c.B), o)
	aa, bb := oracle.Quote(a.text), oracle.Quote(b.text)
	wa, wb := after(a, b), before(a, b)

	got, err := cmp.IsAfter(a.text, b.text)
	is(aa+" after "+bb, wa, got, err, o)
	got, err = cmp.IsBefore(a.text, b.text)
	is(aa+" before "+bb, wb, got, err, o)
	if a.d != nil && b.d != nil {
		got, err = a.d.After(b.d)
		is("the date "+aa+" after "+bb, wa, got, err, o)
		got, err = a.d.Before(b.d)
		is("the date "+aa+" before "+bb, wb, got, err, o)
		got, err = a.d.After(a.d)
		is("the date "+aa+" after itself", after(a, a), got, err, o)
		got, err = a.d.Before(a.d)
		is("the date "+aa+" before itself", before(a, a), got, err, o)
	}

	switch {
	case wa.err && wb.err:
		o.Class("errors")
	case wa.yes:
		o.Class("after")
	case wb.yes:
		o.Class("before")
	default:
		o.Class("neither")
	}
	if a.d != nil && b.d != nil {
		o.NonTrivial()
	}

	if a.d != nil && b.d != nil && !a.bare && !b.bare {
		x, err1 := cmp.IsAfter(a.text, b.text)
		y, err2 := cmp.IsBefore(b.text, a.text)
		if x != y || (err1 == nil) != (err2 == nil) {
			o.Failf("%s after %s is %v, %v; but %s before %s is %v, %v", aa, bb, x, err1, bb, aa, y, err2)
		}
	}
}

type triple struct {
	D engine.Str `json:"d"`
	I engine.Str `json:"inception"`
	C engine.Str `json:"cessation"`
}

func checkTriple(c triple, o *engine.Obs) {
	d, i, x := operand(string(c.D), o), operand(string(c.I), o), operand(string(c.C), o)
	b, a := before(d, i), after(d, x)
	if x.bare {
		a = answer{}
		if d.d == nil {
			a.err = true
		}
	}
	got, err := cmp.IsBetween(d.text, i.text, x.text)
	if b.yes && a.err {
		// no answer but no is possible, and the cessation date is not needed for it
		o.Class("before, with a bad cessation")
		if got {
			o.Failf("%q is between %q and %q", c.D, c.I, c.C)
		}
		return
	}
	want := answer{err: b.err || a.err}
	if !want.err {
		want.yes = !b.yes && !a.yes
		o.NonTrivial()
	}
	switch {
	case want.err:
		o.Class("errors")
	case want.yes:
		o.Class("between")
	default:
		o.Class("outside")
	}
	if (err != nil) != want.err || got != want.yes {
		o.Failf("%q between %q and %q: expected %v (error %v), got %v, %v", c.D, c.I, c.C, want.yes, want.err, got, err)
	}
}

// related draws a second operand which often touches the first one.
func related(t *rapid.T, s string) string {
	e := model.Evaluate(s)
	if e.Outcome == model.OK && e.Lower().State == model.Dated && e.Upper().State == model.Dated {
		sec := e.Upper().Sec
		switch gen.Int(t, "touch", 0, 7) {
		case 0:
			sec++ // begins just after it
		case 1: // begins in its last second
		case 2:
			sec = e.Lower().Sec
		case 3:
			sec = e.Lower().Sec - 1 // ends just before it
		case 4:
			return s
		default:
			return operandText(t)
		}
		y, m, d, hh, mm, ss := model.Civil(sec)
		if y < -9999 || y > 9999 {
			return s
		}
		day := model.YearText(y) + "-" + model.Pad(m, 2) + "-" + model.Pad(d, 2)
		switch gen.Int(t, "as", 0, 4) {
		case 0:
			return day
		case 1:
			return day[:len(day)-3]
		case 2:
			return model.YearText(y)
		case 3:
			return day + "/" + day
		}
		return day + "T" + model.Pad(hh, 2) + ":" + model.Pad(mm, 2) + ":" + model.Pad(ss, 2) + "Z"
	}
	return operandText(t)
}

func operandText(t *rapid.T) string {
	switch gen.Int(t, "operand", 0, 15) {
	case 0:
		return ".."
	case 1:
		return gen.Pick(t, "special", "", "open", "uuuu", "junk", "2004-13", "Y17E7", "../..", "/")
	case 2:
		return gen.Pick(t, "half", "../", "/") + gen.Date(t)
	case 3:
		return gen.Date(t) + gen.Pick(t, "half", "/..", "/")
	case 4:
		return "[" + gen.Pick(t, "open", "..", "") + gen.Date(t) + gen.Pick(t, "open", "..", "") + "]"
	case 5, 6, 7, 8:
		return gen.Date(t)
	case 9:
		return gen.DateTime(t)
	case 10:
		return gen.Mutate(t, gen.Date(t))
	}
	return gen.Any(t)
}

var special = []string{"..", "", "open", "uuuu", "junk", "2004", "2004-06", "2004-06-01", "2004-06-30", "2004-07", "2003", "2005", "2004-06-30T23:59:59Z", "2004-07-01T00:00:00Z", "../2004", "/2004", "2004/..", "2004/", "2004/2005", "[..2004]", "{2004..}", "[2003,2005]", "-0001", "0000", "-0001-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "../..", "[..2003,2005..]", "9999", "-9999", "200X", "2004-21", "2004?", "Y17E7", "2004-13", "1970-01-01T00:00:00Z", "1970", "1969-12-31"}

var pairs = engine.Leg[pair]{
	Name: "pairs",
	Rule: "a random expression of any kind, and one which often begins or ends in the second before, at or after one of its bounds; non-trivial if both parse",
	Gen: func(t *rapid.T) pair {
		a := operandText(t)
		b := related(t, a)
		if rapid.Bool().Draw(t, "swap") {
			a, b = b, a
		}
		return pair{engine.Str(a), engine.Str(b)}
	},
	Quick: 120000, Thorough: 3000000,
	Check: checkPair,
}

func main() {
	engine.Main(engine.Check{
		ID: "C15",
		Assumptions: []string{
			"the moments of the bounds are taken from the reference model where it specifies them, otherwise from the parsed result",
			"whether a bad cessation date is reported when the date is already before the inception date is left open",
		},
		Legs: oracle.Legs(
			engine.Leg[pair]{
				Name: "special-pairs",
				Rule: "all pairs from a list of dates which touch each other, open, unknown, deprecated and malformed strings; non-trivial if both parse",
				Sweep: func(_ bool, emit func(pair) bool) {
					for _, a := range special {
						for _, b := range special {
							if !emit(pair{engine.Str(a), engine.Str(b)}) {
								return
							}
						}
					}
				},
				Check: checkPair,
			},
			engine.Leg[pair]{
				Name: "years",
				Rule: "every year from -9999 to 9999 and its months, with the next one of its kind and with its own first and last second; non-trivial if both parse",
				Sweep: func(_ bool, emit func(pair) bool) {
					put := func(a, b string) bool { return emit(pair{engine.Str(a), engine.Str(b)}) }
					for y := -9999; y < 9999; y++ {
						s, next := model.YearText(y), model.YearText(y+1)
						if !put(s, next) || !put(s, s) || !put(s, s+"-01-01T00:00:00Z") || !put(s+"-12-31T23:59:59Z", s) || !put(s+"-12-31T23:59:59Z", next+"-01-01T00:00:00Z") {
							return
						}
						for m := 1; m <= 12; m++ {
							ms, after := s+"-"+model.Pad(m, 2), s+"-"+model.Pad(m+1, 2)
							if m == 12 {
								after = next + "-01"
							}
							if !put(ms, after) || !put(after+"-01", ms) || !put(ms, s) {
								return
							}
						}
					}
				},
				Check: checkPair,
			},
			engine.Leg[triple]{
				Name: "special-triples",
				Rule: "all triples from this list; non-trivial if an answer is expected",
				Sweep: func(_ bool, emit func(triple) bool) {
					for _, a := range special {
						for _, b := range special {
							for _, c := range special {
								if !emit(triple{engine.Str(a), engine.Str(b), engine.Str(c)}) {
									return
								}
							}
						}
					}
				},
				Check: checkTriple,
			},
			pairs,
			engine.Leg[triple]{
				Name: "triples",
				Rule: "a random expression with inception and cessation dates which often touch it; non-trivial if an answer is expected",
				Gen: func(t *rapid.T) triple {
					d := operandText(t)
					return triple{engine.Str(d), engine.Str(related(t, d)), engine.Str(related(t, d))}
				},
				Quick: 80000, Thorough: 2000000,
				Check: checkTriple,
			},
			engine.History(pairs, 15000, 400000, func(t *rapid.T, p pair) pair {
				switch gen.Int(t, "as", 0, 4) {
				case 0:
					return pair{p.B, p.A}
				case 1:
					return pair{p.A, p.A}
				case 2:
					return pair{p.A, engine.Str(gen.Alike(t, string(p.B)))}
				}
				return pair{engine.Str(gen.Alike(t, string(p.A))), p.B}
			}),
		),
	})
}
