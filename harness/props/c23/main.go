// C23: the precision of unspecified digits names the first known unit.
package main

import (
	"strings"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

// mask is an expression of one of the documented forms, and its precision.
type mask struct {
	S    string         `json:"s"`
	Want edtf.Precision `json:"precision"`
}

var byX = [4]edtf.Precision{0, 128, 256, 512}

// masked returns the form of a date which keeps n digits of the year, or masks the month or day.
func masked(y, m, d, form int) mask {
	ys, ms, ds := model.Pad(y, 4), model.Pad(m, 2), model.Pad(d, 2)
	switch {
	case form < 9:
		x := form%3 + 1
		s := ys[:4-x] + "XXX"[:x]
		switch form / 3 {
		case 1:
			s += "-" + ms
		case 2:
			s += "-" + ms + "-" + ds
		}
		return mask{s, byX[x]}
	case form == 9:
		return mask{ys + "-XX", 64}
	case form == 10:
		return mask{ys + "-XX-XX", 64}
	case form == 11:
		return mask{ys + "-" + ms + "-XX", 32}
	case form == 12:
		return mask{ys + "-1X", 32}
	}
	return mask{ys + "-0X", 32}
}

const forms = 14

// day is one which exists in every year.
func draw(t *rapid.T) mask {
	y, m := gen.PositiveYear(t), gen.Month(t)
	d := gen.Day(t, 2001, m)
	return masked(y, m, d, gen.Int(t, "form", 0, forms-1))
}

func side(s, name string, r *edtf.DateRange, want edtf.Precision, o *engine.Obs) {
	for _, x := range []struct {
		name string
		d    *edtf.Date
	}{{" lower", r.Lower}, {" upper", r.Upper}} {
		if x.d.Precision != want {
			o.Failf("%q: the precision of %s is %d, expected %d", s, name+x.name, x.d.Precision, want)
		}
	}
}

func checkAlone(c mask, o *engine.Obs) {
	o.NonTrivial()
	o.Class("precision %d", c.Want)
	d, err := parser.ParseString(c.S)
	defer oracle.Overwrite(d)
	if err != nil {
		o.Failf("%q: %v", c.S, err)
	}
	side(c.S, "start", d.Start, c.Want, o)
	side(c.S, "end", d.End, c.Want, o)
	if c.Want != d.Start.Lower.Precision || !d.Start.Lower.Precision.HasFlag(c.Want) {
		o.Failf("%q: the precision %d is denied", c.S, c.Want)
	}
}

// leftQualified puts a qualifier before some of the components.
func leftQualified(t *rapid.T, s string) string {
	parts := strings.Split(s, "-")
	for i := range parts {
		if rapid.Bool().Draw(t, "qualified") {
			parts[i] = gen.Pick(t, "qualifier", "?", "~", "%") + parts[i]
		}
	}
	return strings.Join(parts, "-")
}

type pair struct {
	A mask `json:"a"`
	B mask `json:"b"`
}

// checkPair: in an interval, each side has the precision of its own mask.
func checkPair(c pair, o *engine.Obs) {
	s := c.A.S + "/" + c.B.S
	d, err := parser.ParseString(s)
	defer oracle.Overwrite(d)
	if err != nil {
		o.Failf("%q: %v", s, err)
	}
	if c.A.Want != c.B.Want {
		o.NonTrivial()
	}
	o.Class("precisions %d and %d", c.A.Want, c.B.Want)
	if c.A.Want != 0 {
		side(s, "start", d.Start, c.A.Want, o)
	}
	if c.B.Want != 0 {
		side(s, "end", d.End, c.B.Want, o)
	}
	// the precision of a side without unspecified digits does not depend on the other one
	for _, x := range []struct {
		name string
		m    mask
		r    *edtf.DateRange
	}{{"start", c.A, d.Start}, {"end", c.B, d.End}} {
		if x.m.Want != 0 {
			continue
		}
		twice := x.m.S + "/" + x.m.S
		e, err := parser.ParseString(twice)
		if err != nil {
			o.Failf("%q: %v", twice, err)
		}
		r := e.Start
		if x.name == "end" {
			r = e.End
		}
		if x.r.Lower.Precision != r.Lower.Precision || x.r.Upper.Precision != r.Upper.Precision {
			o.Failf("%q: the %s has precision %d, %d; but in %q %d, %d", s, x.name, x.r.Lower.Precision, x.r.Upper.Precision, twice, r.Lower.Precision, r.Upper.Precision)
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C23",
		Assumptions: []string{
			"the precision of other forms (digits unspecified elsewhere, several components with unspecified digits, dates without any) is left open",
		},
		Exhaustive: true,
		Legs: oracle.WithHistory("model", 20000, 600000,
			engine.Leg[mask]{
				Name: "years",
				Rule: "all years from 0000 to 9999 with one to three unspecified trailing digits, alone, with every month, and with the first and last day of every month and with unspecified months or days; non-trivial always",
				Sweep: func(_ bool, emit func(mask) bool) {
					for y := 0; y <= 9999; y++ {
						for form := 0; form < forms; form++ {
							// the digits which are unspecified make no difference
							if form < 9 && form%3 > 0 && y%[3]int{1, 10, 100}[form%3] != 0 {
								continue
							}
							if form == 9 || form == 10 || form > 11 || form < 3 {
								if !emit(masked(y, 1, 1, form)) {
									return
								}
								continue
							}
							for m := 1; m <= 12; m++ {
								if !emit(masked(y, m, 1, form)) {
									return
								}
								if form >= 6 && form < 9 && !emit(masked(y, m, model.MonthDays(2001, m), form)) {
									return
								}
							}
						}
					}
				},
				Gen:   draw,
				Quick: 100000, Thorough: 500000,
				Check: checkAlone,
			},
			engine.Leg[pair]{
				Name: "intervals",
				Rule: "pairs of these forms, and of one of them and a date without unspecified digits, as the sides of an interval, some of them with qualifiers before their components; non-trivial if the sides have different precisions",
				Gen: func(t *rapid.T) pair {
					p := pair{draw(t), draw(t)}
					if gen.Chance(t, "plain", 4) {
						p.B = mask{gen.PositiveDate(t), 0}
						if rapid.Bool().Draw(t, "first") {
							p.A, p.B = p.B, p.A
						}
					}
					if gen.Chance(t, "decorated", 3) {
						if p.A.Want != 0 {
							p.A.S = leftQualified(t, p.A.S)
						}
						if p.B.Want != 0 {
							p.B.S = leftQualified(t, p.B.S)
						}
					}
					return p
				},
				Quick: 120000, Thorough: 1000000,
				Check: checkPair,
			},
			oracle.ModelLeg("model", "random masks, alone and as an end of an interval", func(t *rapid.T) string {
				s := gen.Mask(t)
				switch gen.Int(t, "where", 0, 3) {
				case 0:
					return s + "/" + gen.Date(t)
				case 1:
					return gen.Date(t) + "/" + s
				}
				return s
			}, 40000, 1000000, oracle.Precision),
		),
	})
}
