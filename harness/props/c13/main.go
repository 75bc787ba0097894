// C13: results are well-formed and self-consistent.
package main

import (
	"encoding/json"
	"time"

	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

func check(c engine.Str, o *engine.Obs) {
	s := string(c)
	d, err := parser.ParseString(s)
	defer oracle.Overwrite(d)
	if err != nil {
		o.Class("refused")
		return
	}
	o.NonTrivial()
	o.Class("%d %s", d.Level, d.Feature)
	if f := oracle.WellFormed(s, d); f != "" {
		o.Failf("%s: %s", oracle.Quote(s), f)
	}
	for _, l := range calls.Levels {
		if r, err := l.Parse(s); err == nil {
			if f := oracle.WellFormed(s, r); f != "" {
				o.Failf("%s, by the parser of level %d: %s", oracle.Quote(s), l.Number, f)
			}
		}
	}
}

// zones is a leg in which the local time zone changes between parsing the same string.
func zones(c engine.Str, o *engine.Obs) {
	s := string(c)
	saved := time.Local
	defer func() { time.Local = saved }()
	var first string
	for i, z := range []*time.Location{time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -11*3600-1800), saved} {
		time.Local = z
		d, err := parser.ParseString(s)
		if err != nil {
			if i > 0 && first != "" {
				o.Failf("%s parses, but not in local time zone %v: %v", oracle.Quote(s), z, err)
			}
			continue
		}
		if f := oracle.WellFormed(s, d); f != "" {
			o.Failf("%s, in local time zone %v: %s", oracle.Quote(s), z, f)
		}
		b, err := json.Marshal(d)
		if err != nil {
			o.Failf("%v", err)
		}
		if i == 0 {
			first = string(b)
			o.NonTrivial()
		} else if string(b) != first {
			o.Failf("%s is %s, but in local time zone %v it is %s", oracle.Quote(s), first, z, b)
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID:          "C13",
		Assumptions: []string{"the reference calendar in harness/internal/model, which converts timestamps to dates, is right"},
		Legs: oracle.WithHistory("features", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "years",
				Rule: gen.YearsRule + "; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					gen.EveryYear(func(s string) bool { return emit(engine.Str(s)) })
				},
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "features",
				Rule:  "random expressions of every feature, with the workers in different local time zones; non-trivial if the string parses",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Any(t)) },
				Quick: 300000, Thorough: 8000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "strings",
				Rule:  "mutated expressions, sequences of fragments and random bytes; non-trivial if the string parses",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.String(t)) },
				Quick: 200000, Thorough: 6000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "zones",
				Rule:  "random expressions, each parsed in four local time zones; non-trivial if the string parses",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Any(t)) },
				Quick: 60000, Thorough: 1500000,
				Check: zones,
			},
		),
	})
}
