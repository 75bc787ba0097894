// C03: intervals combine the spans of their two ends exactly.
package main

import (
	"strings"

	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds | oracle.YMD | oracle.Texts

var ends = []string{
	"..", "", "2004", "0000", "-0001", "-0004", "9999", "-9999", "1985-02", "2004-02", "1900-02", "-0004-02", "0000-02", "1999-12",
	"2004-02-29", "1999-12-31", "-0001-12-31", "0000-01-01", "-0333-06-15", "2021-02-29", "2021-13", "2021-00", "2021-04-31", "2021-04-00",
	"19XX", "199X", "1XXX", "-19XX", "-010X", "200X-02", "2004-XX", "2004-02-XX", "1900-02-XX", "2004-XX-XX", "2004-1X", "2004-X2-3X", "1999-02-3X",
	"200X-02-29", "190X-02-29", "-200X-02-29", "2004-06-X1", "-2004-XX-31", "XXXX", "X004-01",
	"?2004", "2004-?06-11", "2004-06-%11", "~-0004-02", "?2004-~06-%15",
	"Y2004", "junk", "2004-21", "0004", "1600-02-29", "1700-02-29", "2000-02", "-0100-02", "-0400-02-29",
}

func pairs(thorough bool, emit func(string) bool) {
	for _, a := range ends {
		for _, b := range ends {
			if !emit(a + "/" + b) {
				return
			}
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C03",
		Assumptions: []string{
			"the reference model in harness/internal/model is right",
			"intervals whose ends are groupings, sets, Y-prefixed years or qualified to the right, and those open or unknown at both ends or open at one end with a decorated date at the other, are left open: the package does not document them",
		},
		Legs: oracle.WithHistory("random", 40000, 600000,
			oracle.SweepLeg("pairs", "all pairs of ends from a list of dates of all precisions and signs, masks, qualified dates, open and unknown ends and nonexistent dates", pairs, aspects),
			oracle.SweepLeg("years", "the intervals among the following: "+gen.YearsRule, func(_ bool, emit func(string) bool) {
				gen.EveryYear(func(s string) bool { return !(strings.Contains(s, "/")) || emit(s) })
			}, aspects),
			oracle.ModelLeg("random", "intervals of random ends of all these kinds", gen.Interval, 500000, 8000000, aspects),
			oracle.ModelLeg("plain", "intervals of random dates", func(t *rapid.T) string { return gen.Date(t) + "/" + gen.Date(t) }, 200000, 3000000, aspects),
			oracle.ModelLeg("masks", "intervals of random masks, also of negative years", func(t *rapid.T) string {
				one := func() string {
					switch gen.Int(t, "kind", 0, 2) {
					case 0:
						return gen.Mask(t)
					case 1:
						return gen.NegativeMask(t)
					}
					return gen.Date(t)
				}
				return one() + "/" + one()
			}, 160000, 3000000, aspects),
		),
	})
}
