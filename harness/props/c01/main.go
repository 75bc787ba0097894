// C01: calendar dates denote their exact UTC span.
package main

import (
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds | oracle.YMD | oracle.Texts

// calendar enumerates years, months and days.
func calendar(_ bool, emit func(string) bool) {
	for y := -9999; y <= 9999; y++ {
		ys := model.YearText(y)
		if !emit(ys) {
			return
		}
		for m := 1; m <= 12; m++ {
			ms := ys + "-" + model.Pad(m, 2)
			if !emit(ms) {
				return
			}
			for d := 0; d <= 32; d++ {
				if !emit(ms + "-" + model.Pad(d, 2)) {
					return
				}
			}
		}
		for _, m := range []string{"00", "13", "20", "42", "99"} {
			if !emit(ys+"-"+m) || !emit(ys+"-"+m+"-01") {
				return
			}
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID:         "C01",
		Exhaustive: true,
		Assumptions: []string{
			"the reference calendar in harness/internal/model is right; it is written without package time",
			"the text -0000 is left open",
		},
		Legs: oracle.WithHistory("random", 20000, 600000,
			oracle.SweepLeg("calendar", "all years -9999..9999, their months 00 to 12 and some beyond, and their days 00 to 32", calendar, aspects),
			oracle.ModelLeg("random", "dates of any precision with existing or nonexistent months and days, drawn at random", func(t *rapid.T) string {
				if gen.Chance(t, "loose", 2) {
					return gen.LooseDate(t)
				}
				return gen.Date(t)
			}, 120000, 4000000, aspects),
		),
	})
}
