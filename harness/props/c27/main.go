// C27: recognisers fit together, and refusals say why.
package main

import (
	"regexp"
	"strings"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

// kinds are the kinds of errors.
var kinds = []struct {
	name string
	is   func(error) bool
}{
	{"not set", edtf.IsNotSet},
	{"not implemented", edtf.IsNotImplemented},
	{"invalid", edtf.IsInvalid},
	{"unsupported", edtf.IsUnsupported},
	{"unrecognized", edtf.IsUnrecognized},
}

// kindOf tells the kinds of an error, which are one at most.
func kindOf(err error) string {
	var is []string
	for _, k := range kinds {
		if oracle.Has(err, k.is) {
			is = append(is, k.name)
		}
	}
	return strings.Join(is, ", ")
}

// refused is what an error must be: of a kind, and naming the string.
func refused(o *engine.Obs, by, s, kind string, err error) {
	if got := kindOf(err); got != kind {
		o.Failf("%s, which has no such form, is refused by %s as %q instead of %q: %v", oracle.Quote(s), by, got, kind, err)
	}
	if !strings.Contains(err.Error(), s) {
		o.Failf("%s is refused by %s, which does not name it: %v", oracle.Quote(s), by, err)
	}
}

func check(c engine.Str, o *engine.Obs) {
	s := string(c)

	// levels and their features

	first := -1
	for _, l := range calls.Levels {
		is := l.Is(s)
		var by []string
		for _, f := range calls.Features {
			if f.Level == l.Number && f.Is(s) {
				by = append(by, f.Name)
			}
		}
		if is && len(by) == 0 {
			o.Failf("%s is recognised by level %d, but by none of its features", oracle.Quote(s), l.Number)
		}
		if !is && len(by) > 0 {
			o.Failf("%s is recognised as %q, but not by level %d", oracle.Quote(s), by, l.Number)
		}
		name, err := l.Matches(s)
		if !is {
			if err == nil {
				o.Failf("%s is matched to %q of level %d, which does not recognise it", oracle.Quote(s), name, l.Number)
			}
			refused(o, "the matcher of a level", s, "invalid", err)
			if _, err := l.Parse(s); err == nil {
				o.Failf("%s is parsed by level %d, which does not recognise it", oracle.Quote(s), l.Number)
			} else {
				refused(o, "the parser of a level", s, "invalid", err)
			}
			continue
		}
		if first < 0 {
			first = l.Number
		}
		if err != nil {
			o.Failf("%s is recognised by level %d, but not matched: %v", oracle.Quote(s), l.Number, err)
		}
		of := name
		if name == level1.EXTENDED_INTERVAL_START || name == level1.EXTENDED_INTERVAL_END {
			of = level1.EXTENDED_INTERVAL
		}
		found := false
		for _, b := range by {
			found = found || b == of
		}
		if !found {
			o.Failf("%s is matched to %q of level %d, but recognised only as %q", oracle.Quote(s), name, l.Number, by)
		}
		if _, err := l.Parse(s); err != nil && oracle.Has(err, edtf.IsUnrecognized) {
			o.Failf("%s is recognised by level %d, but refused as unrecognised: %v", oracle.Quote(s), l.Number, err)
		}
	}
	for _, f := range calls.Features {
		if !f.Is(s) {
			if _, err := f.Parse(s); err != nil {
				refused(o, "the parser of a feature", s, "invalid", err)
			}
		}
	}

	// and all of it

	level, feature, merr := parser.Matches(s)
	_, err := parser.ParseString(s)
	if first < 0 {
		o.Class("no form")
		if merr == nil {
			o.Failf("%s is matched to level %d (%s), but recognised by no level", oracle.Quote(s), level, feature)
		}
		if level >= 0 || feature != "" {
			o.Failf("%s is not matched, and matched to level %d (%q)", oracle.Quote(s), level, feature)
		}
		refused(o, "the matcher", s, "unrecognized", merr)
		if s == ".." || s == "" {
			return
		}
		if err == nil {
			o.Failf("%s is parsed, but recognised by no level", oracle.Quote(s))
		}
		refused(o, "the parser", s, "unrecognized", err)
		return
	}
	o.NonTrivial()
	o.Class("level %d", first)
	if merr != nil {
		o.Failf("%s is recognised by level %d, but not matched: %v", oracle.Quote(s), first, merr)
	}
	if name, _ := calls.Levels[first].Matches(s); level != first || feature != name {
		o.Failf("%s is matched to level %d (%s), but first recognised by level %d (%s)", oracle.Quote(s), level, feature, first, name)
	}
	if err == nil {
		return
	}
	k := kindOf(err)
	o.Class("refused: %s", k)
	switch {
	case k == "unrecognized" || k == "not set" || strings.Contains(k, ","):
		o.Failf("%s is recognised by level %d, but refused as %q: %v", oracle.Quote(s), first, k, err)
	case k == "not implemented" && !leadingX.MatchString(s):
		o.Failf("%s has no year which starts with X, but is refused as not implemented: %v", oracle.Quote(s), err)
	case k == "unsupported" && !strings.ContainsAny(s, "YyS"):
		o.Failf("%s has no prefixed year nor significant digits, but is refused as unsupported: %v", oracle.Quote(s), err)
	}
}

// leadingX tells whether a year starts with X.
var leadingX = regexp.MustCompile(`(?:^|/)[?~%]?-?X`)

func main() {
	engine.Main(engine.Check{
		ID: "C27",
		Legs: oracle.WithHistory("features", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression, given to all entry points; non-trivial if a level recognises the string",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name: "years",
				Rule: gen.YearsRule + "; non-trivial if a level recognises the string",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					gen.EveryYear(func(s string) bool { return emit(engine.Str(s)) })
				},
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "features",
				Rule:  "random expressions of every feature, given to all entry points; non-trivial if a level recognises the string",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Any(t)) },
				Quick: 150000, Thorough: 4000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "strings",
				Rule:  "mutated expressions, sequences of fragments and random bytes, given to all entry points; non-trivial if a level recognises the string",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.String(t)) },
				Quick: 150000, Thorough: 4000000,
				Check: check,
			},
		),
	})
}
