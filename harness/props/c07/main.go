// C07: sets span their earliest to their latest member.
package main

import (
	"strings"

	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds | oracle.YMD | oracle.Inclusivity

var members = []string{"1960", "1960-12", "1960-12-31", "-0050", "0000", "-0050-06", "0050-01-01", "1667-12", "1672", "-0004-02-29", "2004-02", "9999", "1960-01"}

// small enumerates all small sets, of both kinds and with all forms of openness.
func small(thorough bool, emit func(string) bool) {
	wrap := func(body string) bool { return emit("["+body+"]") && emit("{"+body+"}") }
	forms := func(toks ...string) bool {
		body := strings.Join(toks, ",")
		return wrap(body) && wrap(".."+body) && wrap(body+"..") && wrap(".."+body+"..")
	}
	for _, a := range members {
		if !forms(a) {
			return
		}
		for _, b := range members {
			if !forms(a, b) || !forms(a+".."+b) {
				return
			}
			for i, c := range members {
				if !thorough && i%3 != 0 {
					continue
				}
				if !forms(a, b, c) || !forms(a+".."+b, c) || !forms(a, b+".."+c) {
					return
				}
				if !thorough {
					continue
				}
				for _, d := range members {
					if !forms(a, b, c, d) || !forms(a, b+".."+c, d) {
						return
					}
				}
			}
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C07",
		Assumptions: []string{
			"the reference model in harness/internal/model is right",
			"the inner bounds of sets of one member, of members which begin or end at the same moment, and of sets open on both sides are left open, as are sets with members other than plain dates",
		},
		Legs: oracle.WithHistory("random", 20000, 600000,
			oracle.SweepLeg("small", "all sets of up to three members (thorough: four) from a list of dates of all precisions and both eras, in every order, with ranges and every form of openness", small, aspects),
			oracle.SweepLeg("years", "the sets among the following: "+gen.YearsRule, func(_ bool, emit func(string) bool) {
				gen.EveryYear(func(s string) bool { return !(strings.HasPrefix(s, "[") || strings.HasPrefix(s, "{")) || emit(s) })
			}, aspects),
			oracle.ModelLeg("random", "random sets of up to five members and ranges, some of them contained in each other, some nonexistent", gen.Set, 200000, 6000000, aspects),
		),
	})
}
