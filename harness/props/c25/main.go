// C25: the building blocks of the parser agree with it.
package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

// features are those whose results are spans of year-month-day expressions.
var features = map[string]bool{
	"Date": true, "Time Interval": true, "Qualification of a date (complete)": true, "Unspecified digit(s) from the right": true,
	"Extended Interval (Start)": true, "Extended Interval (End)": true, "Unspecified Digit": true, "Interval": true,
	"Qualification (Group)": true, "Qualification (Individual)": true, "Negative calendar year": true,
}

func checkSpan(c engine.Str, o *engine.Obs) {
	s := string(c)
	e := model.Evaluate(s)
	sp, err := common.DateSpanFromEDTF(s)
	o.Class("span %s %s", e.Outcome, e.Kind)
	defer func() {
		if sp != nil {
			oracle.Overwrite(&edtf.EDTFDate{Start: sp.Start, End: sp.End})
		}
	}()
	if (sp == nil) == (err == nil) {
		o.Failf("the span of %q is %v, error %v", s, sp, err)
	}
	relevant := e.Outcome == model.OK && features[e.Feature]
	if relevant {
		o.NonTrivial()
		if err != nil {
			o.Failf("%q (%s) has no span: %v", s, e.Kind, err)
		}
		d := &edtf.EDTFDate{Start: sp.Start, End: sp.End}
		if f := oracle.Compare(s, e, d, oracle.Bounds|oracle.YMD|oracle.Flags|oracle.Precision|oracle.Inclusivity); f != "" {
			o.Failf("span of %s", f)
		}
	}
	if e.Outcome == model.Refused && e.Kind != model.LeadingXEmpty {
		o.NonTrivial()
		if err == nil {
			o.Failf("%q (%s) is to be refused, but has the span %s", s, e.Kind, oracle.Describe(&edtf.EDTFDate{Start: sp.Start, End: sp.End}))
		}
	}
	if e.Outcome == model.NotImplemented && !oracle.Has(err, edtf.IsNotImplemented) {
		o.Failf("%q (%s) is to be refused as not implemented, but the span is %v, error %v", s, e.Kind, sp, err)
	}

	r, err := common.StringRangeFromYMD(s)
	defer func() {
		if r != nil {
			for _, d := range []*common.StringDate{r.Start, r.End} {
				*d = common.StringDate{Year: "overwritten"}
			}
			*r = common.StringRange{EDTF: "overwritten"}
		}
	}()
	if (r == nil) == (err == nil) {
		o.Failf("the range of %q is %v, error %v", s, r, err)
	}
	if (model.Formless[e.Kind] || strings.Contains(s, "/")) && e.Outcome == model.Refused && err == nil {
		o.Failf("%q (%s) is to be refused, but has the range %v", s, e.Kind, r)
	}
	if !relevant || strings.Contains(s, "/") {
		return
	}
	if err != nil {
		o.Failf("%q (%s) has no range: %v", s, e.Kind, err)
	}
	lo, hi := e.Lower(), e.Upper()
	text := func(b model.Bound) common.StringDate {
		return common.StringDate{Year: model.YearText(b.Y), Month: model.Pad(b.M, 2), Day: model.Pad(b.D, 2)}
	}
	if r.Start == nil || r.End == nil || *r.Start != text(lo) || *r.End != text(hi) {
		o.Failf("%q (%s): the range is %v, expected %v and %v", s, e.Kind, r, text(lo), text(hi))
	}
	if uint32(r.Uncertain) != e.Start.Uncertain || uint32(r.Approximate) != e.Start.Approximate || e.Start.Precision != 0 && uint32(r.Precision) != e.Start.Precision {
		o.Failf("%q (%s): the flags of the range are uncertain %d, approximate %d, precision %d; expected %d, %d, %d", s, e.Kind, r.Uncertain, r.Approximate, r.Precision, e.Start.Uncertain, e.Start.Approximate, e.Start.Precision)
	}
	if r.EDTF != s {
		o.Failf("the range of %q has the text %q", s, r.EDTF)
	}
	if !r.Start.Equals(&common.StringDate{Year: r.Start.Year, Month: r.Start.Month, Day: r.Start.Day}) || r.Start.Equals(r.End) != (*r.Start == *r.End) {
		o.Failf("%q: the ends of %v: equal is %v", s, r, r.Start.Equals(r.End))
	}
}

type ends struct {
	A engine.Str `json:"a"`
	B engine.Str `json:"b"`
}

// checkEnds builds the span of an interval of any two ends: each side is that of the end on its own.
func checkEnds(c ends, o *engine.Obs) {
	side := func(s string) (model.Side, model.Outcome) {
		x := model.Side{EDTF: s, EDTFKnown: true}
		switch s {
		case "..":
			x.Lower.State, x.Upper.State = model.Open, model.Open
			return x, model.OK
		case "":
			x.Lower.State, x.Upper.State = model.Unknown, model.Unknown
			return x, model.OK
		}
		e := model.Evaluate(s)
		if e.Outcome == model.OK && !features[e.Feature] || strings.Contains(s, "/") {
			return x, model.Unspec
		}
		x.Lower, x.Upper = e.Lower(), e.Upper()
		x.Uncertain, x.Approximate, x.Precision = e.Start.Uncertain, e.Start.Approximate, e.Start.Precision
		return x, e.Outcome
	}
	s := string(c.A) + "/" + string(c.B)
	a, ao := side(string(c.A))
	b, bo := side(string(c.B))
	sp, err := common.DateSpanFromEDTF(s)
	o.Class("%s / %s", ao, bo)
	if (sp == nil) == (err == nil) {
		o.Failf("the span of %q is %v, error %v", s, sp, err)
	}
	switch {
	case ao == model.Unspec || bo == model.Unspec || a.Lower.State != model.Dated && b.Lower.State != model.Dated:
		return
	case ao != model.OK || bo != model.OK:
		o.NonTrivial()
		if err == nil {
			o.Failf("%q has the span %s, but one of its ends names no date", s, oracle.Describe(&edtf.EDTFDate{Start: sp.Start, End: sp.End}))
		}
		return
	}
	o.NonTrivial()
	if err != nil {
		o.Failf("%q has no span: %v", s, err)
	}
	e := model.Expect{Outcome: model.OK, Start: a, End: b}
	if f := oracle.Compare(s, e, &edtf.EDTFDate{Start: sp.Start, End: sp.End}, oracle.Bounds|oracle.YMD|oracle.Flags|oracle.Precision|oracle.Inclusivity); f != "" {
		o.Failf("span of %s", f)
	}
}

func drawEnd(t *rapid.T) engine.Str {
	switch gen.Int(t, "end", 0, 9) {
	case 0:
		return ".."
	case 1:
		return ""
	case 2, 3, 4:
		return engine.Str(gen.Mask(t))
	case 5, 6:
		return engine.Str(gen.Qualified(t))
	case 7:
		return engine.Str(gen.LooseDate(t))
	}
	return engine.Str(gen.Date(t))
}

type notation struct {
	Neg  bool   `json:"neg"`
	Mant string `json:"mantissa"`
	Exp  string `json:"exponent"`
}

func checkNotation(c notation, o *engine.Obs) {
	s := c.Mant + "E" + c.Exp
	if c.Neg {
		s = "-" + s
	}
	want, inRange, known := model.Exponential(c.Neg, c.Mant, c.Exp)
	got, err := common.ParseExponentialNotation(s)
	if !known {
		return
	}
	o.NonTrivial()
	if !inRange {
		o.Class("out of range")
		if !oracle.Has(err, edtf.IsUnsupported) {
			o.Failf("%s is %d, error %v; it is to be refused as unsupported", oracle.Quote(s), got, err)
		}
		return
	}
	o.Class("in range")
	if err != nil || got != want {
		o.Failf("%s is %d, error %v; expected %d", oracle.Quote(s), got, err, want)
	}
}

func drawNotation(t *rapid.T) notation {
	c := notation{Neg: gen.Chance(t, "negative", 3)}
	switch gen.Int(t, "kind", 0, 3) {
	case 0: // in range
		e := gen.Int(t, "exponent", 0, 4)
		top := 9999
		for i := 0; i < e; i++ {
			top /= 10
		}
		c.Mant, c.Exp = fmt.Sprint(gen.Int(t, "mantissa", 0, top)), fmt.Sprint(e)
	case 1: // near the limit
		e := gen.Int(t, "exponent", 0, 4)
		v := big.NewInt(int64(gen.Int(t, "value", 9900, 10100)))
		c.Mant, c.Exp = v.String(), fmt.Sprint(e)
		for ; e > 0 && len(c.Mant) > 1; e-- {
			c.Mant = c.Mant[:len(c.Mant)-1]
		}
	case 2: // beyond
		c.Mant, c.Exp = rapid.StringMatching(`[0-9]{1,40}`).Draw(t, "mantissa"), rapid.StringMatching(`[0-9]{1,12}`).Draw(t, "exponent")
	case 3:
		c.Mant, c.Exp = rapid.StringMatching(`[0-9]{1,4}`).Draw(t, "mantissa"), rapid.StringMatching(`[0-9]{1,3}`).Draw(t, "exponent")
	}
	if gen.Chance(t, "zeroes", 4) {
		c.Mant = strings.Repeat("0", gen.Int(t, "zeroes", 1, 5)) + c.Mant
	}
	if gen.Chance(t, "exponent zeroes", 4) {
		c.Exp = strings.Repeat("0", gen.Int(t, "zeroes", 1, 5)) + c.Exp
	}
	return c
}

// marked checks one date of a span made by a constructor.
func marked(d *edtf.Date, open, unknown bool) bool {
	return d != nil && reflect.DeepEqual(*d, edtf.Date{Open: open, Unknown: unknown})
}

type history struct {
	Calls []int   `json:"calls"`
	Times []int64 `json:"times"`
}

// checkConstructors takes a history of calls, after each of which the result is modified: no later one may show it.
func checkConstructors(c history, o *engine.Obs) {
	if len(c.Calls) > 1 {
		o.NonTrivial()
	}
	for _, k := range c.Calls {
		var rs []*edtf.DateRange
		open, unknown := k%3 == 2, k%3 == 1
		name := ""
		switch k {
		case 0:
			name, rs = "EmptyDateRange", []*edtf.DateRange{common.EmptyDateRange()}
		case 1:
			name, rs = "UnknownDateRange", []*edtf.DateRange{common.UnknownDateRange()}
		case 2:
			name, rs = "OpenDateRange", []*edtf.DateRange{common.OpenDateRange()}
		default:
			f := map[int]func() *edtf.DateSpan{3: common.EmptyDateSpan, 4: common.UnknownDateSpan, 5: common.OpenDateSpan}[k]
			name = [...]string{"EmptyDateSpan", "UnknownDateSpan", "OpenDateSpan"}[k-3]
			sp := f()
			if sp == nil || sp.Start == sp.End {
				o.Failf("%s yields %v", name, sp)
			}
			rs = []*edtf.DateRange{sp.Start, sp.End}
		}
		o.Class("%s", name)
		for _, r := range rs {
			if r == nil || r.EDTF != "" || !marked(r.Lower, open, unknown) || !marked(r.Upper, open, unknown) || r.Lower == r.Upper {
				o.Failf("%s, in the history %v, yields %v (lower %+v, upper %+v)", name, c.Calls, r, r.Lower, r.Upper)
			}
		}
		for _, r := range rs {
			r.EDTF = "modified"
			for _, d := range []*edtf.Date{r.Lower, r.Upper} {
				for _, sec := range c.Times {
					now := time.Unix(sec, 0).UTC()
					d.SetTime(&now)
					if d.DateTime != model.RFC3339(sec) || d.Timestamp == nil || d.Timestamp.Unix() != sec {
						o.Failf("SetTime(%v), of the times %v, makes %v, %q", now, c.Times, d.Timestamp, d.DateTime)
					}
					if now.Unix() != sec {
						o.Failf("SetTime has changed its argument to %v", now)
					}
					// the date does not follow what becomes of the argument
					now = time.Unix(sec^0x5555, 0).In(time.FixedZone("other", 3600))
					if t := d.Timestamp.Time(); d.DateTime != model.RFC3339(sec) || d.Timestamp.Unix() != sec || t.Unix() != sec || t.Location() != time.UTC {
						o.Failf("SetTime(%d) makes %v, %v, %q once its argument is modified", sec, d.Timestamp, t, d.DateTime)
					}
					// nor does it follow what becomes of its time
					t := d.Timestamp.Time()
					*t = now
					if t = d.Timestamp.Time(); d.Timestamp.Unix() != sec || t.Unix() != sec {
						o.Failf("the timestamp of %d is %v, %v once its time is modified", sec, d.Timestamp, t)
					}
					// elsewhere, at the same moment
					there := time.Unix(sec, 999999999).In(time.FixedZone("elsewhere", int(sec%57)*900))
					d.SetTime(&there)
					if text, err := time.Parse(time.RFC3339, d.DateTime); d.Timestamp.Unix() != sec || d.Timestamp.Time().Unix() != sec || there.Year() > 0 && there.Year() < 9999 && (err != nil || text.Unix() != sec) {
						o.Failf("SetTime(%v), at %d, makes %v, %q", there, sec, d.Timestamp, d.DateTime)
					}
				}
				d.Open, d.Unknown, d.YMD = !d.Open, !d.Unknown, &edtf.YMD{Year: 1}
				d.Precision.AddFlag(edtf.DAY)
			}
		}
	}
}

type texts struct {
	A [3]string `json:"a"`
	B [3]string `json:"b"`
}

func checkEqual(c texts, o *engine.Obs) {
	a := &common.StringDate{Year: c.A[0], Month: c.A[1], Day: c.A[2]}
	b := &common.StringDate{Year: c.B[0], Month: c.B[1], Day: c.B[2]}
	want := c.A == c.B
	o.Class("equal %v", want)
	o.NonTrivial()
	if a.Equals(b) != want || b.Equals(a) != want || !a.Equals(a) {
		o.Failf("%v and %v: equal is %v and %v", a, b, a.Equals(b), b.Equals(a))
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C25",
		Assumptions: []string{
			"the reference model in harness/internal/model is right",
			"what the span and the range of forms other than dates, qualified dates, unspecified digits and their intervals are is left open",
		},
		Legs: oracle.WithHistory("spans", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression; non-trivial if the model knows the span or refuses the string",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: checkSpan,
			},
			engine.Leg[engine.Str]{
				Name: "spans",
				Rule: "random dates, qualified dates, unspecified digits and intervals of these, and loose and mutated ones; non-trivial if the model knows the span or refuses the string",
				Gen: func(t *rapid.T) engine.Str {
					switch gen.Int(t, "kind", 0, 5) {
					case 0:
						return engine.Str(gen.Date(t))
					case 1:
						return engine.Str(gen.Qualified(t))
					case 2:
						return engine.Str(gen.Mask(t))
					case 3:
						return engine.Str(gen.Interval(t))
					case 4:
						return engine.Str(gen.LooseDate(t))
					}
					return engine.Str(gen.String(t))
				},
				Quick: 150000, Thorough: 4000000,
				Check: checkSpan,
			},
			engine.Leg[ends]{
				Name: "ends",
				Rule: "intervals of any two of dates, qualified dates, unspecified digits, open and unknown ends, whose sides are compared with what each end is on its own; non-trivial if this is known of both and one is a date",
				Gen: func(t *rapid.T) ends {
					c := ends{drawEnd(t), drawEnd(t)}
					if gen.Chance(t, "same", 8) {
						c.B = c.A
					}
					return c
				},
				Quick: 100000, Thorough: 3000000,
				Check: checkEnds,
			},
			engine.Leg[notation]{
				Name:  "notations",
				Rule:  "numbers in exponential notation, within, near and far beyond the supported years, with superfluous zeroes; non-trivial if the model knows the value",
				Gen:   drawNotation,
				Quick: 100000, Thorough: 3000000,
				Check: checkNotation,
			},
			engine.Leg[history]{
				Name: "constructors",
				Rule: "histories of calls of the constructors of empty, unknown and open ranges and spans, each result being modified and its time set to several, in any order; non-trivial if there are two calls",
				Gen: func(t *rapid.T) history {
					c := history{Calls: rapid.SliceOfN(rapid.IntRange(0, 5), 1, 8).Draw(t, "calls")}
					for i := gen.Int(t, "times", 1, 4); i > 0; i-- {
						y, m := gen.Year(t), gen.Month(t)
						sec := model.Sec(y, m, gen.Day(t, y, m), gen.Int(t, "hh", 0, 23), gen.Int(t, "mm", 0, 59), gen.Int(t, "ss", 0, 59))
						c.Times = append(c.Times, gen.Pick(t, "time", sec, sec, 0, -1, 1))
					}
					return c
				},
				Quick: 10000, Thorough: 300000,
				Check: checkConstructors,
			},
			engine.Leg[texts]{
				Name: "equality",
				Rule: "pairs of dates of texts, which differ in few or no components; non-trivial always",
				Gen: func(t *rapid.T) texts {
					var c texts
					for i := range c.A {
						c.A[i] = gen.Pick(t, "component", "", "2004", "-2004", "04", "4", "12", "0X", "XX", "?04")
						c.B[i] = c.A[i]
						if gen.Chance(t, "different", 5) {
							c.B[i] = gen.Pick(t, "other", "", "2004", "-2004", "04", "4", "12", "0X", "XX", "?04")
						}
					}
					return c
				},
				Quick: 20000, Thorough: 300000,
				Check: checkEqual,
			},
		),
	})
}
