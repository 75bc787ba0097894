// C08: Y-prefixed, exponential and significant-digit years are exact.
package main

import (
	"strconv"

	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds | oracle.YMD

func years(_ bool, emit func(string) bool) {
	for y := -9999; y <= 9999; y++ {
		if !emit("Y" + model.YearText(y)) {
			return
		}
		for n := 1; n <= 4; n++ {
			suffix := "S" + strconv.Itoa(n)
			if !emit(model.YearText(y)+suffix) || !emit("Y"+model.YearText(y)+suffix) || !emit("Y"+strconv.Itoa(y)+"E0"+suffix) {
				return
			}
		}
	}
	for y := 10000; y < 12000000; y += 1 + y/50 {
		if !emit("Y"+strconv.Itoa(y)) || !emit("Y-"+strconv.Itoa(y)) {
			return
		}
	}
}

func exponents(thorough bool, emit func(string) bool) {
	for m := 1; m <= 10500; m++ {
		if !thorough && m > 120 && m%9 != 0 && m%50 != 0 && m < 9990 {
			continue
		}
		for e := 0; e <= 6; e++ {
			for _, sign := range []string{"", "-"} {
				s := "Y" + sign + strconv.Itoa(m) + "E" + strconv.Itoa(e)
				if !emit(s) {
					return
				}
			}
		}
	}
	for m := 1; m <= 30; m++ {
		for e := 0; e <= 80; e++ {
			if !emit("Y"+strconv.Itoa(m)+"E"+strconv.Itoa(e)) || !emit("Y-"+strconv.Itoa(m)+"E"+strconv.Itoa(e)) || !emit("Y"+strconv.Itoa(m)+"E"+strconv.Itoa(e)+"S1") {
				return
			}
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C08",
		Assumptions: []string{
			"the reference model in harness/internal/model is right; it uses big integers",
			"lower-case y and e, a zero mantissa, zero or padded counts of digits, counts larger than the number of digits of the year, -0000 and Y-prefixed years with leading zeroes are left open",
		},
		Legs: oracle.WithHistory("random", 60000, 600000,
			oracle.SweepLeg("years", "all years -9999..9999 with Y prefix, with all counts of significant digits in three spellings, and years beyond", years, aspects),
			oracle.SweepLeg("exponents", "mantissas 1..10500 (quick: a sample) with exponents 0 to 6, small mantissas with exponents up to 80", exponents, aspects),
			oracle.ModelLeg("random", "random Y-prefixed, exponential and significant-digit years, with redundant zeroes, very long numbers and exponents", func(t *rapid.T) string {
				switch gen.Int(t, "kind", 0, 2) {
				case 0:
					return gen.Exponential(t)
				case 1:
					return gen.Significant(t)
				}
				return gen.LetterYear(t)
			}, 400000, 5000000, aspects),
		),
	})
}
