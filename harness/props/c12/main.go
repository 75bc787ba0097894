// C12: level and feature entry points agree with the general parser.
package main

import (
	"reflect"
	"strings"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

// sameBounds compares the overall bounds: the inner ones of seasons differ between the two features which know them.
func sameBounds(a, b *edtf.EDTFDate) bool {
	same := func(x, y *edtf.Date) bool {
		if x == nil || y == nil {
			return x == y
		}
		u, ok := oracle.SecondsOf(x)
		v, ok2 := oracle.SecondsOf(y)
		return ok == ok2 && u == v && x.Open == y.Open && x.Unknown == y.Unknown
	}
	return same(a.Start.Lower, b.Start.Lower) && same(a.End.Upper, b.End.Upper)
}

func check(c engine.Str, o *engine.Obs) {
	s := string(c)
	d, err := parser.ParseString(s)
	defer oracle.Overwrite(d)

	// a feature parser refuses what its recogniser does not recognise, and whatever it accepts is what the general
	// parser makes of it

	for _, f := range calls.Features {
		r, ferr := f.Parse(s)
		if (r == nil) == (ferr == nil) {
			o.Failf("%s: the parser of %q yields %v and %v", oracle.Quote(s), f.Name, r, ferr)
		}
		if ferr != nil {
			continue
		}
		if !f.Is(s) {
			o.Failf("%s is not recognised as %q, but its parser accepts it", oracle.Quote(s), f.Name)
		}
		if err != nil {
			o.Failf("%s is parsed as %q, but the general parser refuses it: %v", oracle.Quote(s), f.Name, err)
		}
		if r.EDTF != s || r.Level != f.Level || r.Feature != f.Name && !strings.HasPrefix(r.Feature, f.Name+" (") {
			o.Failf("%s, parsed as %q of level %d, yields a result for %q, %q of level %d", oracle.Quote(s), f.Name, f.Level, r.EDTF, r.Feature, r.Level)
		}
		if !sameBounds(r, d) {
			o.Failf("%s is %s when parsed as %q, but the general parser yields %s", oracle.Quote(s), oracle.Describe(r), f.Name, oracle.Describe(d))
		}
	}
	for _, l := range calls.Levels {
		r, lerr := l.Parse(s)
		if (r == nil) == (lerr == nil) {
			o.Failf("%s: the parser of level %d yields %v and %v", oracle.Quote(s), l.Number, r, lerr)
		}
		if lerr == nil && err == nil && l.Number == d.Level && !reflect.DeepEqual(r, d) {
			o.Failf("%s is %s when parsed by level %d, but the general parser yields %s", oracle.Quote(s), oracle.Describe(r), l.Number, oracle.Describe(d))
		}
	}
	for _, f := range []struct {
		name  string
		parse func(string) (*edtf.EDTFDate, error)
	}{{"Extended Interval (Start)", level1.ParseExtendedIntervalStart}, {"Extended Interval (End)", level1.ParseExtendedIntervalEnd}} {
		r, ferr := f.parse(s)
		if ferr == nil {
			if !level1.IsExtendedInterval(s) {
				o.Failf("%s is not recognised as an extended interval, but parsed as %q", oracle.Quote(s), f.name)
			}
			if err == nil && d.Feature != f.name {
				o.Failf("%s is assigned to %q, but parsed as %q", oracle.Quote(s), d.Feature, f.name)
			}
			if err != nil || !reflect.DeepEqual(r, d) {
				o.Failf("%s is %s when parsed as %q, but the general parser yields %s, %v", oracle.Quote(s), oracle.Describe(r), f.name, oracle.Describe(d), err)
			}
		} else if err == nil && d.Feature == f.name {
			o.Failf("%s is assigned to %q, but the parser of this feature refuses it: %v", oracle.Quote(s), f.name, ferr)
		}
	}

	if err != nil || d.Level < 0 {
		o.Class("no level")
		return
	}
	o.NonTrivial()
	o.Class("%d %s", d.Level, d.Feature)

	// the level and the feature are the documented ones

	if e := model.Evaluate(s); e.Outcome == model.OK {
		if f := oracle.Compare(s, e, d, oracle.Level); f != "" {
			o.Failf("%s", f)
		}
	}

	// the recogniser, matcher and parser of the level

	known := false
	for _, l := range calls.Levels {
		if l.Number != d.Level {
			continue
		}
		known = true
		if !l.Is(s) {
			o.Failf("%s is of level %d, but its recogniser denies that", oracle.Quote(s), l.Number)
		}
		name, err := l.Matches(s)
		if err != nil || name != d.Feature {
			o.Failf("%s is of feature %q, but the matcher of level %d says %q, %v", oracle.Quote(s), d.Feature, l.Number, name, err)
		}
		r, err := l.Parse(s)
		if err != nil {
			o.Failf("%s is of level %d, but its parser refuses it: %v", oracle.Quote(s), l.Number, err)
		}
		if !reflect.DeepEqual(r, d) {
			o.Failf("%s is %s when parsed by level %d, but the general parser yields %s", oracle.Quote(s), oracle.Describe(r), l.Number, oracle.Describe(d))
		}
	}
	if !known {
		o.Failf("%s is of level %d", oracle.Quote(s), d.Level)
	}

	// the recogniser and parser of the feature

	name := d.Feature
	if name == level1.EXTENDED_INTERVAL_START || name == level1.EXTENDED_INTERVAL_END {
		name = level1.EXTENDED_INTERVAL
	}
	for _, f := range calls.Features {
		if f.Level != d.Level || f.Name != name {
			continue
		}
		if !f.Is(s) {
			o.Failf("%s is of feature %q, but its recogniser denies that", oracle.Quote(s), name)
		}
		r, err := f.Parse(s)
		if err != nil {
			o.Failf("%s is of feature %q, but its parser refuses it: %v", oracle.Quote(s), name, err)
		}
		if !reflect.DeepEqual(r, d) {
			o.Failf("%s is %s when parsed as %q, but the general parser yields %s", oracle.Quote(s), oracle.Describe(r), name, oracle.Describe(d))
		}
		return
	}
	o.Failf("%s is of level %d and the unknown feature %q", oracle.Quote(s), d.Level, d.Feature)
}

func main() {
	engine.Main(engine.Check{
		ID: "C12",
		Assumptions: []string{
			"the level and feature of a form are those of the package's documentation and examples, as written down in harness/internal/model",
		},
		Legs: oracle.WithHistory("features", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression, given to all entry points; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "years",
				Rule: gen.YearsRule + "; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					gen.EveryYear(func(s string) bool { return emit(engine.Str(s)) })
				},
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "features",
				Rule:  "random expressions of every feature, given to all entry points; non-trivial if the string parses",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Any(t)) },
				Quick: 200000, Thorough: 5000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "strings",
				Rule:  "mutated expressions, sequences of fragments and random bytes, given to all entry points; non-trivial if the string parses",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.String(t)) },
				Quick: 100000, Thorough: 3000000,
				Check: check,
			},
		),
	})
}
