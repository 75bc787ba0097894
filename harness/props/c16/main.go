// C16: unix ranges are the bounds of the parsed date.
package main

import (
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

// check derives a range, overwrites it, and derives it again.
func check(c engine.Str, o *engine.Obs) {
	for i := 0; i < 2; i++ {
		if r := derive(c, o); r != nil {
			for _, s := range []*unix.DateSpan{r.Outer, r.Inner} {
				*s = unix.DateSpan{Start: 12345, End: 67890}
			}
			*r = unix.DateRange{}
		}
		if i == 0 && len(c) > 64 {
			return
		}
	}
}

func derive(c engine.Str, o *engine.Obs) *unix.DateRange {
	s := string(c)
	ok, r, err := unix.DeriveRanges(s)
	if ok != (r != nil) {
		o.Failf("%s: says %v, but yields %v", oracle.Quote(s), ok, r)
	}
	if ok && err != nil {
		o.Failf("%s: yields both a range and the error %v", oracle.Quote(s), err)
	}

	switch s {
	case "..", "", "open", "uuuu":
		o.NonTrivial()
		o.Class("marker")
		if ok || err != nil {
			o.Failf("%q yields %v, %v", s, r, err)
		}
		return nil
	}

	d, perr := parser.ParseString(s)
	if perr != nil {
		o.Class("refused")
		if err == nil {
			o.Failf("%s does not parse, but yields %v without an error", oracle.Quote(s), ok)
		}
		return nil
	}
	o.NonTrivial()
	if err != nil {
		o.Failf("%s parses, but yields the error %v", oracle.Quote(s), err)
	}
	var sec [4]int64
	dated := true
	for i, b := range []func() (int64, bool){
		func() (int64, bool) { return oracle.SecondsOf(d.Start.Lower) },
		func() (int64, bool) { return oracle.SecondsOf(d.Start.Upper) },
		func() (int64, bool) { return oracle.SecondsOf(d.End.Lower) },
		func() (int64, bool) { return oracle.SecondsOf(d.End.Upper) },
	} {
		n, has := b()
		sec[i], dated = n, dated && has
	}
	// where the model knows the moments it has the say
	if e := model.Evaluate(s); e.Outcome == model.OK {
		all := true
		for i, b := range []model.Bound{e.Start.Lower, e.Start.Upper, e.End.Lower, e.End.Upper} {
			if b.State != model.Dated {
				all = false
			} else if !b.Any {
				sec[i] = b.Sec
			}
		}
		dated = all
	}
	if !dated {
		o.Class("open or unknown")
		if ok {
			o.Failf("%s has open or unknown bounds, but yields a range", oracle.Quote(s))
		}
		return nil
	}
	o.Class("dated")
	if !ok || r.Outer == nil || r.Inner == nil {
		o.Failf("%s yields no range: %v", oracle.Quote(s), r)
	}
	if r.Outer.Start != sec[0] || r.Inner.Start != sec[1] || r.Inner.End != sec[2] || r.Outer.End != sec[3] {
		o.Failf("%s: outer range %v, inner range %v, expected %d..%d and %d..%d", oracle.Quote(s), *r.Outer, *r.Inner, sec[0], sec[3], sec[1], sec[2])
	}
	oracle.Overwrite(d)
	return r
}

func main() {
	engine.Main(engine.Check{
		ID: "C16",
		Assumptions: []string{
			"the moments of the bounds are taken from the reference model where it specifies them, otherwise from the parsed result",
		},
		Legs: oracle.WithHistory("features", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression; non-trivial if the string parses or is a marker",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "years",
				Rule: gen.YearsRule + "; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					gen.EveryYear(func(s string) bool { return emit(engine.Str(s)) })
				},
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "features",
				Rule: "random expressions of every feature, those with a bound at the epoch more often; non-trivial if the string parses or is a marker",
				Gen: func(t *rapid.T) engine.Str {
					if gen.Chance(t, "epoch", 20) {
						return engine.Str(gen.Pick(t, "epoch", "1970", "1970-01", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1969-12-31", "1970/1970-01-01", "../1970", "1970/..", "[1970,1969-12-31]", "1969/1970", "19XX", "[..1970]", "{1970..}", "1970?", "/1970", "1970/"))
					}
					return engine.Str(gen.Any(t))
				},
				Quick: 250000, Thorough: 6000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "strings",
				Rule:  "mutated expressions, sequences of fragments and random bytes; non-trivial if the string parses or is a marker",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.String(t)) },
				Quick: 120000, Thorough: 3000000,
				Check: check,
			},
		),
	})
}
