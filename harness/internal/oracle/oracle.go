// Package oracle compares what the code under test returns with the reference model.
package oracle

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
)

// Aspect is a part of a result.
type Aspect int

const (
	// Bounds are the states and moments of the four bounds.
	Bounds Aspect = 1 << iota
	// YMD are the calendar dates of the bounds.
	YMD
	// Flags are the uncertain and approximate flags.
	Flags
	// Precision is the precision, where the model specifies it.
	Precision
	// Inclusivity are the marks of sets.
	Inclusivity
	// Texts are the texts of the sides.
	Texts
	// Level are the level and the feature.
	Level

	All = Bounds | YMD | Flags | Precision | Inclusivity | Texts | Level
)

// Has reports whether an error, or one which it wraps, is of a kind.
func Has(err error, is func(error) bool) bool {
	for e := err; e != nil; e = errors.Unwrap(e) {
		if is(e) {
			return true
		}
	}
	return false
}

// Outcome checks that parsing succeeded or failed as expected. It reports whether there is a result to compare.
func Outcome(s string, e model.Expect, d *edtf.EDTFDate, err error) (string, bool) {
	if (d == nil) == (err == nil) {
		return fmt.Sprintf("parsing %q yields result %v and error %v", s, d, err), false
	}
	switch e.Outcome {
	case model.Unspec:
		return "", false
	case model.OK:
		if err != nil {
			return fmt.Sprintf("%q (%s) does not parse: %v", s, e.Kind, err), false
		}
		return "", true
	}
	if err == nil {
		return fmt.Sprintf("%q (%s) is to be refused, but parses to %s", s, e.Kind, Describe(d)), false
	}
	if e.Outcome == model.Unsupported && !Has(err, edtf.IsUnsupported) {
		return fmt.Sprintf("%q (%s) is to be refused as unsupported, but is refused with %T: %v", s, e.Kind, err, err), false
	}
	if e.Outcome == model.NotImplemented && !Has(err, edtf.IsNotImplemented) {
		return fmt.Sprintf("%q (%s) is to be refused as not implemented, but is refused with %T: %v", s, e.Kind, err, err), false
	}
	return "", false
}

// Describe renders a result.
func Describe(d *edtf.EDTFDate) string {
	if d == nil {
		return "nothing"
	}
	b := func(x *edtf.Date) string {
		if x == nil {
			return "nil"
		}
		s := x.DateTime
		if x.Open {
			s += "open"
		}
		if x.Unknown {
			s += "unknown"
		}
		return s
	}
	r := func(x *edtf.DateRange) string {
		if x == nil {
			return "nil"
		}
		return b(x.Lower) + " .. " + b(x.Upper)
	}
	return fmt.Sprintf("level %d (%s) start %s end %s", d.Level, d.Feature, r(d.Start), r(d.End))
}

func bound(b model.Bound) string {
	switch {
	case b.State == model.Open:
		return "open"
	case b.State == model.Unknown:
		return "unknown"
	case b.Any:
		return "some moment"
	}
	return model.RFC3339(b.Sec)
}

func compareDate(name string, want model.Bound, got *edtf.Date, as Aspect) string {
	if got == nil {
		return name + " is missing"
	}
	if as&Bounds != 0 {
		switch want.State {
		case model.Open, model.Unknown:
			if got.Open != (want.State == model.Open) || got.Unknown != (want.State == model.Unknown) || got.Timestamp != nil || got.DateTime != "" || got.YMD != nil {
				return fmt.Sprintf("%s: expected %s without a time, got open %v, unknown %v, time %q", name, bound(want), got.Open, got.Unknown, got.DateTime)
			}
			return ""
		}
		if got.Open || got.Unknown || got.Timestamp == nil || got.DateTime == "" {
			return fmt.Sprintf("%s: expected %s, got open %v, unknown %v, time %q, timestamp %v", name, bound(want), got.Open, got.Unknown, got.DateTime, got.Timestamp)
		}
		if !want.Any {
			if u := got.Timestamp.Unix(); u != want.Sec {
				return fmt.Sprintf("%s: expected %s, got timestamp %d (%s)", name, bound(want), u, model.RFC3339(u))
			}
			if got.DateTime != model.RFC3339(want.Sec) {
				return fmt.Sprintf("%s: expected %s, got %s", name, bound(want), got.DateTime)
			}
		}
	}
	if as&YMD != 0 && want.State == model.Dated && !want.Any {
		if want.NoYMD {
			return ""
		}
		if got.YMD == nil || got.YMD.Year != want.Y || got.YMD.Month != want.M || got.YMD.Day != want.D {
			return fmt.Sprintf("%s: expected the year-month-day %d %d %d, got %v", name, want.Y, want.M, want.D, got.YMD)
		}
	}
	return ""
}

func compareSide(name string, want model.Side, got *edtf.DateRange, as Aspect) string {
	if got == nil {
		return name + " is missing"
	}
	for _, x := range []struct {
		name string
		b    model.Bound
		d    *edtf.Date
	}{{name + " lower", want.Lower, got.Lower}, {name + " upper", want.Upper, got.Upper}} {
		if f := compareDate(x.name, x.b, x.d, as); f != "" {
			return f
		}
		if as&Flags != 0 {
			if uint32(x.d.Uncertain) != want.Uncertain {
				return fmt.Sprintf("%s: uncertain flags are %d, expected %d", x.name, x.d.Uncertain, want.Uncertain)
			}
			if uint32(x.d.Approximate) != want.Approximate {
				return fmt.Sprintf("%s: approximate flags are %d, expected %d", x.name, x.d.Approximate, want.Approximate)
			}
		}
		if as&Precision != 0 && want.Precision != 0 && uint32(x.d.Precision) != want.Precision {
			return fmt.Sprintf("%s: precision is %d, expected %d", x.name, x.d.Precision, want.Precision)
		}
		if as&Inclusivity != 0 && uint32(x.d.Inclusivity) != want.Inclusivity {
			return fmt.Sprintf("%s: inclusivity is %d, expected %d", x.name, x.d.Inclusivity, want.Inclusivity)
		}
	}
	if as&Texts != 0 && want.EDTFKnown && got.EDTF != want.EDTF {
		return fmt.Sprintf("%s: text is %q, expected %q", name, got.EDTF, want.EDTF)
	}
	return ""
}

// Compare compares a result with what the model expects.
func Compare(s string, e model.Expect, d *edtf.EDTFDate, as Aspect) string {
	f := compareSide("start", e.Start, d.Start, as)
	if f == "" {
		f = compareSide("end", e.End, d.End, as)
	}
	if f == "" && as&Texts != 0 && d.EDTF != s {
		f = fmt.Sprintf("the text of the result is %q", d.EDTF)
	}
	if f == "" && as&Level != 0 && (d.Level != e.Level || d.Feature != e.Feature) {
		f = fmt.Sprintf("level %d, feature %q; expected level %d, feature %q", d.Level, d.Feature, e.Level, e.Feature)
	}
	if f == "" && as&Bounds != 0 {
		f = overall("lower", e.Lower(), d.Lower)
		if f == "" {
			f = overall("upper", e.Upper(), d.Upper)
		}
	}
	if f != "" {
		f = fmt.Sprintf("%q (%s): %s", s, e.Kind, f)
	}
	return f
}

func overall(name string, want model.Bound, get func() (*time.Time, error)) string {
	t, err := get()
	if want.State != model.Dated {
		if err == nil || t != nil {
			return fmt.Sprintf("overall %s value: expected an error, got %v", name, t)
		}
		return ""
	}
	if err != nil || t == nil {
		return fmt.Sprintf("overall %s value: %v", name, err)
	}
	if !want.Any && (t.Unix() != want.Sec || t.Nanosecond() != 0) {
		return fmt.Sprintf("overall %s value is %v, expected %s", name, t, bound(want))
	}
	return ""
}

// Parses checks one string against the model, in all or some aspects, and returns the expectation.
func Parses(o *engine.Obs, s string, as Aspect) model.Expect {
	e := model.Evaluate(s)
	d, err := parser.ParseString(s)
	o.Class(e.Outcome.String() + " " + e.Kind)
	f, more := Outcome(s, e, d, err)
	if f != "" {
		o.Failf("%s", f)
	}
	if more {
		if f := Compare(s, e, d, as); f != "" {
			o.Failf("%s", f)
		}
	}
	Overwrite(d)
	return e
}

// Overwrite overwrites what can be reached from a result which is no longer needed, so that whatever shares memory with
// it shows.
func Overwrite(d *edtf.EDTFDate) {
	if d == nil {
		return
	}
	for _, r := range []*edtf.DateRange{d.Start, d.End} {
		if r == nil {
			continue
		}
		for _, b := range []*edtf.Date{r.Lower, r.Upper} {
			if b == nil {
				continue
			}
			if b.Timestamp != nil {
				*b.Timestamp = edtf.Timestamp{}
			}
			if b.YMD != nil {
				*b.YMD = edtf.YMD{Year: 12345, Month: 67, Day: 89}
			}
			*b = edtf.Date{DateTime: "overwritten", Open: !b.Open, Unknown: !b.Unknown, Uncertain: ^b.Uncertain, Approximate: ^b.Approximate, Unspecified: ^b.Unspecified, Precision: ^b.Precision, Inclusivity: ^b.Inclusivity}
		}
		*r = edtf.DateRange{EDTF: "overwritten"}
	}
	*d = edtf.EDTFDate{EDTF: "overwritten", Feature: "overwritten", Level: 99}
}

// Histories is a leg of sequences of strings, each of which is checked on its own.
func Histories(l engine.Leg[engine.Str], quick, thorough int) engine.Runner {
	return engine.History(l, quick, thorough, func(t *rapid.T, s engine.Str) engine.Str { return engine.Str(gen.Alike(t, string(s))) })
}

// SecondsOf returns the moment of a bound, or false.
func SecondsOf(d *edtf.Date) (int64, bool) {
	if d == nil || d.Timestamp == nil {
		return 0, false
	}
	return d.Timestamp.Unix(), true
}

// Quote shortens long strings in messages.
func Quote(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q... (%d bytes)", s[:100], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// WellFormed checks what holds of every result, whatever the expression (C13).
func WellFormed(s string, d *edtf.EDTFDate) string {
	if d.EDTF != s {
		return fmt.Sprintf("the text of the result is %q", d.EDTF)
	}
	if d.String() != s {
		return fmt.Sprintf("as a string, the result is %q", d.String())
	}
	if d.String() != s {
		return fmt.Sprintf("the result prints as %q", d.String())
	}
	if d.Start == nil || d.End == nil {
		return "a side is missing"
	}
	type named struct {
		name string
		d    *edtf.Date
	}
	ds := []named{{"start lower", d.Start.Lower}, {"start upper", d.Start.Upper}, {"end lower", d.End.Lower}, {"end upper", d.End.Upper}}
	for _, x := range ds {
		b := x.d
		if b == nil {
			return x.name + " is missing"
		}
		if b.Open || b.Unknown {
			if b.Open && b.Unknown {
				return x.name + " is both open and unknown"
			}
			if b.Timestamp != nil || b.DateTime != "" || b.YMD != nil {
				return x.name + " is open or unknown, and carries a time"
			}
			continue
		}
		if b.Timestamp == nil || b.DateTime == "" {
			return fmt.Sprintf("%s is neither open nor unknown, with timestamp %v and time %q", x.name, b.Timestamp, b.DateTime)
		}
		u := b.Timestamp.Unix()
		if want := model.RFC3339(u); b.DateTime != want {
			return fmt.Sprintf("%s: the time is %s, the timestamp %d, which is %s", x.name, b.DateTime, u, want)
		}
		tt := b.Timestamp.Time()
		if tt == nil || tt.Unix() != u || tt.Location() != time.UTC || tt.Nanosecond() != 0 {
			return fmt.Sprintf("%s: the timestamp %d converts to %v", x.name, u, tt)
		}
		if b.YMD != nil {
			y, m, dd, _, _, _ := model.Civil(u)
			if b.YMD.Year != y || b.YMD.Month != m || b.YMD.Day != dd {
				return fmt.Sprintf("%s: the time is %s, the year-month-day %v", x.name, b.DateTime, b.YMD)
			}
		}
	}
	for _, r := range []struct {
		name string
		r    *edtf.DateRange
	}{{"start", d.Start}, {"end", d.End}} {
		if a, ok := SecondsOf(r.r.Lower); ok {
			if b, ok := SecondsOf(r.r.Upper); ok && a > b {
				return fmt.Sprintf("%s: lower %s is after upper %s", r.name, r.r.Lower.DateTime, r.r.Upper.DateTime)
			}
		}
	}
	for _, x := range []struct {
		name string
		d    *edtf.Date
		get  func() (*time.Time, error)
	}{{"lower", d.Start.Lower, d.Lower}, {"upper", d.End.Upper, d.Upper}} {
		t, err := x.get()
		u, dated := SecondsOf(x.d)
		switch {
		case dated && (err != nil || t == nil):
			return fmt.Sprintf("the overall %s value is missing: %v", x.name, err)
		case dated && (t.Unix() != u || t.Location() != time.UTC):
			return fmt.Sprintf("the overall %s value is %v, the bound %s", x.name, t, x.d.DateTime)
		case !dated && err == nil:
			return fmt.Sprintf("there is an overall %s value %v without a bound", x.name, t)
		case !dated && !edtf.IsNotSet(err):
			return fmt.Sprintf("the missing overall %s value is reported as %T: %v", x.name, err, err)
		}
	}
	return ""
}

// HasAnyOf reports whether a string contains one of some characters.
func HasAnyOf(s, chars string) bool { return strings.ContainsAny(s, chars) }

// ModelLeg is a leg which compares generated strings with the model.
func ModelLeg(name, rule string, draw func(*rapid.T) string, quick, thorough int, as Aspect) engine.Leg[engine.Str] {
	return engine.Leg[engine.Str]{
		Name:     name,
		Rule:     rule + "; non-trivial if the model specifies the outcome",
		Gen:      func(t *rapid.T) engine.Str { return engine.Str(draw(t)) },
		Quick:    quick,
		Thorough: thorough,
		Check: func(s engine.Str, o *engine.Obs) {
			if Parses(o, string(s), as).Outcome != model.Unspec {
				o.NonTrivial()
			}
		},
	}
}

// SweepLeg is a leg which compares enumerated strings with the model.
func SweepLeg(name, rule string, sweep func(thorough bool, emit func(string) bool), as Aspect) engine.Leg[engine.Str] {
	l := ModelLeg(name, rule, nil, 0, 0, as)
	l.Gen = nil
	l.Sweep = func(thorough bool, emit func(engine.Str) bool) {
		sweep(thorough, func(s string) bool { return emit(engine.Str(s)) })
	}
	return l
}

// Legs collects legs.
func Legs(ls ...engine.Runner) []engine.Runner { return ls }

// WithHistory adds, to some legs, a leg of histories of the cases of one of them.
func WithHistory(of string, quick, thorough int, ls ...engine.Runner) []engine.Runner {
	for _, l := range ls {
		if l, ok := l.(engine.Leg[engine.Str]); ok && l.Name == of {
			return append(ls, Histories(l, quick, thorough))
		}
	}
	panic("no leg " + of)
}
