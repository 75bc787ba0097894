// C05: unspecified digits span all and only the dates they match.
package main

import (
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds | oracle.YMD

var monthMasks, dayMasks []string

func init() {
	for m := 1; m <= 12; m++ {
		monthMasks = append(monthMasks, model.Pad(m, 2))
	}
	monthMasks = append(monthMasks, "XX", "0X", "1X", "2X", "9X")
	for d := 0; d <= 9; d++ {
		monthMasks = append(monthMasks, "X"+model.Pad(d, 1))
	}
	for d := 0; d <= 32; d++ {
		dayMasks = append(dayMasks, model.Pad(d, 2))
	}
	dayMasks = append(dayMasks, "XX", "0X", "1X", "2X", "3X", "4X")
	for d := 0; d <= 9; d++ {
		dayMasks = append(dayMasks, "X"+model.Pad(d, 1))
	}
}

// masks enumerates all masks of a selection of years (in the thorough tier a much larger one).
func masks(thorough bool, emit func(string) bool) {
	years := []string{"2004", "1900", "2000", "0000", "1999", "9999"}
	step := 397
	if thorough {
		step = 37
	}
	for y := 13; y <= 9999; y += step {
		years = append(years, model.Pad(y, 4))
	}
	seen := map[string]bool{}
	for _, base := range years {
		for bits := 0; bits < 8; bits++ {
			b := []byte(base)
			for i := 0; i < 3; i++ {
				if bits>>i&1 == 1 {
					b[3-i] = 'X'
				}
			}
			y := string(b)
			if seen[y] {
				continue
			}
			seen[y] = true
			if bits > 0 && !emit(y) {
				return
			}
			// masks which leave a thousand years to try are slow: take fewer
			sparse := bits == 7 && !thorough && base != "2004"
			for i, m := range monthMasks {
				if sparse && i%3 != 0 {
					continue
				}
				if (bits > 0 || i >= 12) && !emit(y+"-"+m) {
					return
				}
				for j, d := range dayMasks {
					if sparse && j%3 != 0 {
						continue
					}
					if bits == 0 && i < 12 && j < 33 {
						continue
					}
					if !emit(y + "-" + m + "-" + d) {
						return
					}
				}
			}
		}
	}
}

// forms enumerates the documented masks: unspecified trailing digits of all years, with every month, and unspecified
// months and days of every year.
func forms(_ bool, emit func(string) bool) {
	for x, by := range []int{1, 10, 100, 1000} {
		for y := 0; y <= 9999; y += by {
			ys := model.Pad(y, 4)[:4-x] + "XXX"[:x]
			if x > 0 && !emit(ys) || !emit(ys+"-XX") || !emit(ys+"-XX-XX") || !emit(ys+"-0X") || !emit(ys+"-1X") {
				return
			}
			for m := 1; m <= 12; m++ {
				ms := ys + "-" + model.Pad(m, 2)
				if x > 0 && !emit(ms) || !emit(ms+"-XX") || !emit(ms+"-3X") || !emit(ms+"-X9") {
					return
				}
				if x > 0 && (!emit(ms+"-01") || !emit(ms+"-28") || !emit(ms+"-29") || !emit(ms+"-31")) {
					return
				}
			}
		}
	}
}

// inInterval compares a mask on its own with the same mask as one end of an interval.
func inInterval(c engine.Str, o *engine.Obs) {
	s := string(c)
	alone := oracle.Parses(o, s, 0)
	if alone.Outcome != model.OK && !alone.Outcome.Refuses() {
		return
	}
	o.NonTrivial()
	for _, t := range []string{s + "/2004", "1066-10/" + s, s + "/" + s} {
		if e := oracle.Parses(o, t, aspects); e.Outcome == model.Unspec {
			o.Failf("the model does not specify %q", t)
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C05",
		Assumptions: []string{
			"the reference model in harness/internal/model is right: it tries all dates of all years which match",
			"qualified masks, and masks of negative years outside of intervals, are left open",
		},
		Legs: oracle.WithHistory("random", 60000, 600000,
			oracle.SweepLeg("masks", "all ways to mask year digits two to four, with all month and day masks including impossible ones, for a selection of years", masks, aspects),
			oracle.SweepLeg("forms", "unspecified trailing digits of all years from 0000 to 9999, with every month and the last days of months, and unspecified months and days of all years", forms, aspects),
			oracle.ModelLeg("random", "random masks, one in 25 with a masked first digit of the year", gen.Mask, 300000, 5000000, aspects),
			engine.Leg[engine.Str]{
				Name:  "in-interval",
				Rule:  "random masks as the first, second and both ends of an interval; non-trivial if the model specifies the mask",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Mask(t)) },
				Quick: 120000, Thorough: 1000000,
				Check: inInterval,
			},
			oracle.ModelLeg("negative", "masks of negative years in intervals", func(t *rapid.T) string {
				s := gen.NegativeMask(t) + "/" + gen.Date(t)
				if rapid.Bool().Draw(t, "second") {
					s = gen.Date(t) + "/" + gen.NegativeMask(t)
				}
				return s
			}, 40000, 1000000, aspects),
		),
	})
}
