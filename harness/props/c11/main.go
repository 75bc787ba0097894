// C11: only complete, well-formed expressions are accepted.
package main

import (
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

func check(c engine.Str, o *engine.Obs) {
	s := string(c)
	e := oracle.Parses(o, s, 0)
	if e.Outcome != model.Refused || e.Kind == model.LeadingXEmpty {
		return
	}
	o.NonTrivial()
	if parser.IsValid(s) {
		o.Failf("%q (%s) is reported valid", s, e.Kind)
	}
	if !model.Formless[e.Kind] {
		return
	}
	o.Class("of no form")
	if level, feature, err := parser.Matches(s); err == nil {
		o.Failf("%q (%s) matches level %d, %q", s, e.Kind, level, feature)
	}
	for _, l := range calls.Levels {
		if l.Is(s) {
			o.Failf("%q (%s) is recognised by level %d", s, e.Kind, l.Number)
		}
		if feature, err := l.Matches(s); err == nil {
			o.Failf("%q (%s) matches %q of level %d", s, e.Kind, feature, l.Number)
		}
	}
	for _, f := range calls.Features {
		if f.Is(s) {
			o.Failf("%q (%s) is recognised as %q", s, e.Kind, f.Name)
		}
		if d, err := f.Parse(s); err == nil {
			o.Failf("%q (%s) is parsed as %q: %s", s, e.Kind, f.Name, oracle.Describe(d))
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C11",
		Assumptions: []string{
			"the reference grammar in harness/internal/model is right; it uses no regular expressions",
			"forms about which the package's documentation is silent (such as lower-case y and e, qualified masks, or groupings within intervals and sets) are left open",
		},
		Legs: oracle.WithHistory("mutated", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "all strings which differ by one edit, by a cut or by an appended expression from a catalogue of expressions of every feature; non-trivial if the model refuses the string",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "mutated",
				Rule:  "random expressions of every feature with one to three random edits; non-trivial if the model refuses the string",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Mutate(t, gen.Any(t))) },
				Quick: 300000, Thorough: 10000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "affixed",
				Rule: "random valid expressions with something before or after them; non-trivial if the model refuses the string",
				Gen: func(t *rapid.T) engine.Str {
					junk := func() string {
						return gen.Pick(t, "affix", " ", "\n", "\r\n", "\t", "\x00", "a", "0", "-", "X", "\u00a0", "x", "1985 ", ",", ".", "/", "\n1985", "1985\n", "Z", "T", "?", "~", "]", "}", "[", "{", "é", "\u2028")
					}
					s := gen.Valid(t)
					switch gen.Int(t, "where", 0, 2) {
					case 0:
						return engine.Str(s + junk())
					case 1:
						return engine.Str(junk() + s)
					}
					return engine.Str(junk() + s + junk())
				},
				Quick: 150000, Thorough: 5000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "any",
				Rule: "random strings of fragments of expressions, and random bytes; non-trivial if the model refuses the string",
				Gen: func(t *rapid.T) engine.Str {
					if gen.Chance(t, "raw", 5) {
						return engine.Str(gen.Raw(t))
					}
					return engine.Str(gen.Tokens(t))
				},
				Quick: 150000, Thorough: 5000000,
				Check: check,
			},
		),
	})
}
