// C10: validating, matching and parsing agree.
package main

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

func check(c engine.Str, o *engine.Obs) {
	s := string(c)
	d, err := parser.ParseString(s)
	defer oracle.Overwrite(d)
	valid := parser.IsValid(s)
	level, feature, merr := parser.Matches(s)

	switch {
	case err == nil:
		o.Class("parses")
	case valid:
		o.Class("valid but not parsed")
	case merr == nil:
		o.Class("matches but is not valid")
	default:
		o.Class("neither")
	}
	if err == nil || valid || merr == nil {
		o.NonTrivial()
	}

	if err == nil && !valid {
		o.Failf("%s parses, but is not reported valid", oracle.Quote(s))
	}
	if valid && err != nil && !oracle.Has(err, edtf.IsUnsupported) && !oracle.Has(err, edtf.IsNotImplemented) {
		o.Failf("%s is reported valid, but parsing it fails with %T: %v", oracle.Quote(s), err, err)
	}
	if s == ".." || s == "" {
		if err != nil {
			o.Failf("%q does not parse: %v", s, err)
		}
		return
	}
	if err == nil {
		if merr != nil {
			o.Failf("%s parses, but does not match: %v", oracle.Quote(s), merr)
		}
		if level != d.Level || feature != d.Feature {
			o.Failf("%s matches level %d (%s), but parses to level %d (%s)", oracle.Quote(s), level, feature, d.Level, d.Feature)
		}
		for _, l := range calls.Levels {
			if l.Number == level && !l.Is(s) {
				o.Failf("%s matches level %d, whose recogniser denies that", oracle.Quote(s), level)
			}
		}
	}
	if merr == nil {
		if level < 0 || level > 2 || feature == "" {
			o.Failf("%s matches level %d (%q)", oracle.Quote(s), level, feature)
		}
		return
	}
	any := false
	for _, l := range calls.Levels {
		any = any || l.Is(s)
	}
	if !any && err == nil {
		o.Failf("%s does not match any level, but parses", oracle.Quote(s))
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C10",
		Legs: oracle.WithHistory("features", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression; non-trivial if the string parses, matches or is reported valid",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "years",
				Rule: gen.YearsRule + "; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					gen.EveryYear(func(s string) bool { return emit(engine.Str(s)) })
				},
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "features",
				Rule:  "random expressions of every feature, some naming nonexistent dates; non-trivial if the string parses, matches or is reported valid",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Any(t)) },
				Quick: 300000, Thorough: 8000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "strings",
				Rule:  "mutated expressions, sequences of fragments and random bytes; non-trivial if the string parses, matches or is reported valid",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.String(t)) },
				Quick: 300000, Thorough: 8000000,
				Check: check,
			},
		),
	})
}
