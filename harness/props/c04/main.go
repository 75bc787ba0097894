// C04: seasons and sub-year groupings cover exactly their months.
package main

import (
	"fmt"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds | oracle.YMD

func codes(_ bool, emit func(string) bool) {
	for y := -9999; y <= 9999; y++ {
		last := 41
		if y < 0 {
			last = 24
		}
		for c := 21; c <= last; c++ {
			if !emit(model.YearText(y) + "-" + model.Pad(c, 2)) {
				return
			}
		}
	}
}

type spelled struct {
	Name string `json:"name"`
	Year int    `json:"year"`
	Code int    `json:"code"`
}

func allSpelled(_ bool, emit func(spelled) bool) {
	for i, n := range []string{"spring", "summer", "fall", "winter"} {
		for y := 0; y <= 9998; y++ {
			name := n
			if y%2 == 0 {
				name = string(n[0]-32) + n[1:]
			}
			if y%11 == 0 {
				name = gen.Upper(n)
			}
			if !emit(spelled{name + ", ", y, 21 + i}) {
				return
			}
		}
	}
}

func equal(a, b *edtf.Date) bool {
	u, ok := oracle.SecondsOf(a)
	v, ok2 := oracle.SecondsOf(b)
	return ok && ok2 && u == v && a.DateTime == b.DateTime
}

func checkSpelled(c spelled, o *engine.Obs) {
	named := c.Name + model.Pad(c.Year, 4)
	numeric := model.YearText(c.Year) + "-" + model.Pad(c.Code, 2)
	e := oracle.Parses(o, named, aspects)
	if e.Outcome != model.OK {
		return
	}
	oracle.Parses(o, numeric, aspects)
	a, err := parser.ParseString(named)
	if err != nil {
		o.Failf("%q does not parse: %v", named, err)
	}
	b, err := parser.ParseString(numeric)
	if err != nil {
		o.Failf("%q does not parse: %v", numeric, err)
	}
	if !equal(a.Start.Lower, b.Start.Lower) || !equal(a.Start.Upper, b.Start.Upper) || !equal(a.End.Lower, b.End.Lower) || !equal(a.End.Upper, b.End.Upper) {
		o.Failf("%s", fmt.Sprintf("%q is %s, but %q is %s", named, oracle.Describe(a), numeric, oracle.Describe(b)))
	}
	o.NonTrivial()
}

func main() {
	names := []string{"spring", "summer", "fall", "winter"}
	engine.Main(engine.Check{
		ID:         "C04",
		Exhaustive: true,
		Assumptions: []string{
			"the reference model in harness/internal/model is right",
			"the inner two bounds of a grouping, groupings 25 to 41 of negative years, and the winter of year 9999 are left open",
		},
		Legs: oracle.WithHistory("random", 40000, 600000,
			oracle.SweepLeg("codes", "all codes 21 to 41 of all years 0..9999 and 21 to 24 of all years -9999..-1", codes, aspects),
			engine.Leg[spelled]{
				Name:  "spelled",
				Rule:  "seasons spelled out, in several letter cases, compared with the model and with their numeric form; all years 0..9998 and random ones; non-trivial if the model specifies the outcome",
				Sweep: allSpelled,
				Gen: func(t *rapid.T) spelled {
					i := gen.Int(t, "season", 0, 3)
					return spelled{gen.Letters(t, names[i]) + "," + gen.Pick(t, "space", " ", "", "  "), gen.PositiveYear(t), 21 + i}
				},
				Quick: 150000, Thorough: 1000000,
				Check: checkSpelled,
			},
			oracle.ModelLeg("random", "random seasons and sub-year groupings, and codes out of range", func(t *rapid.T) string {
				if gen.Chance(t, "loose", 4) {
					return gen.Y(t) + "-" + model.Pad(gen.Int(t, "code", 13, 99), 2)
				}
				if rapid.Bool().Draw(t, "season") {
					return gen.Season(t)
				}
				return gen.SubYear(t)
			}, 40000, 1000000, aspects),
		),
	})
}
