// C06: qualifiers flag exactly the components they apply to.
package main

import (
	"strings"

	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Flags | oracle.Bounds | oracle.YMD

// placements enumerates all ways to put qualifiers before and after the components of dates.
func placements(thorough bool, emit func(string) bool) {
	dates := []string{"2004", "2004-06", "2004-06-11", "-2004", "-2004-06", "-2004-02-29"}
	if thorough {
		dates = append(dates, "0000", "0000-02-29", "1900-02", "9999-12-31", "-0001-12-31", "0001-01-01", "1985-10", "-9999-01")
	}
	qs := []string{"", "?", "~", "%"}
	for _, d := range dates {
		neg := strings.HasPrefix(d, "-")
		parts := strings.Split(strings.TrimPrefix(d, "-"), "-")
		if neg {
			parts[0] = "-" + parts[0]
		}
		n := 1
		for range parts {
			n *= 16
		}
		for i := 1; i < n; i++ {
			k := i
			out := make([]string, len(parts))
			for j := range parts {
				out[j] = qs[k%4] + parts[j] + qs[k/4%4]
				k /= 16
			}
			if !emit(strings.Join(out, "-")) {
				return
			}
		}
	}
}

func strip(s string) string { return strings.NewReplacer("?", "", "~", "", "%", "").Replace(s) }

// unmoved compares a qualified expression with the model and with its unqualified form.
func unmoved(s engine.Str, o *engine.Obs) {
	e := oracle.Parses(o, string(s), aspects)
	if e.Outcome == model.Unspec {
		return
	}
	if gen.HasQualifier(string(s)) {
		o.NonTrivial()
	}
	if e.Outcome != model.OK {
		return
	}
	d, err := parser.ParseString(string(s))
	if err != nil {
		o.Failf("%v", err)
	}
	plain := strip(string(s))
	p, err := parser.ParseString(plain)
	if err != nil {
		o.Failf("%q parses, but %q does not: %v", s, plain, err)
	}
	if a, b := oracle.Describe(d), oracle.Describe(p); a[strings.Index(a, "start"):] != b[strings.Index(b, "start"):] {
		o.Failf("%q is %s, but %q is %s", s, a, plain, b)
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C06",
		Assumptions: []string{
			"the reference model in harness/internal/model is right",
			"dates which are qualified both to the left and to the right of components, qualified masks, and interval ends qualified to the right are left open",
		},
		Legs: oracle.WithHistory("random", 40000, 600000,
			oracle.SweepLeg("placements", "all ways to put a qualifier before and after each component of dates of all precisions and both signs", placements, aspects),
			oracle.SweepLeg("years", "the qualified dates among the following: "+gen.YearsRule, func(_ bool, emit func(string) bool) {
				gen.EveryYear(func(s string) bool { return !(gen.HasQualifier(s)) || emit(s) })
			}, aspects),
			engine.Leg[engine.Str]{
				Name:  "random",
				Rule:  "qualified dates, and intervals with ends qualified to the left; compared with the model and with the unqualified expression; non-trivial if there is a qualifier and the model specifies the outcome",
				Quick: 300000, Thorough: 5000000,
				Gen: func(t *rapid.T) engine.Str {
					end := func() string {
						switch gen.Int(t, "end", 0, 3) {
						case 0:
							return gen.Date(t)
						case 1:
							return gen.Mask(t)
						}
						return gen.LeftQualified(t)
					}
					if rapid.Bool().Draw(t, "interval") {
						return engine.Str(end() + "/" + end())
					}
					return engine.Str(gen.Qualified(t))
				},
				Check: unmoved,
			},
		),
	})
}
