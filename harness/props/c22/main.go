// C22: less specific expressions contain more specific ones, and tile time.
package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

// relation says that B contains A, that B follows A without a gap, or that A and B are the same.
type relation struct {
	Kind string `json:"kind"`
	A    string `json:"a"`
	B    string `json:"b"`
	Why  string `json:"why"`
}

// span returns the overall bounds; an open bound is infinite.
func span(s string, o *engine.Obs) (lo, hi int64) {
	d, err := parser.ParseString(s)
	if err != nil {
		o.Failf("%q: %v", s, err)
	}
	lo, ok := oracle.SecondsOf(d.Start.Lower)
	if !ok {
		if !d.Start.Lower.Open {
			o.Failf("%q has no lower bound", s)
		}
		lo = math.MinInt64
	}
	hi, ok = oracle.SecondsOf(d.End.Upper)
	if !ok {
		if !d.End.Upper.Open {
			o.Failf("%q has no upper bound", s)
		}
		hi = math.MaxInt64
	}
	return lo, hi
}

func text(n int64) string {
	switch n {
	case math.MinInt64, math.MaxInt64:
		return "open"
	}
	return model.RFC3339(n)
}

func check(c relation, o *engine.Obs) {
	if c.A == c.B {
		return
	}
	o.NonTrivial()
	o.Class("%s: %s", c.Kind, c.Why)
	a, b := span(c.A, o)
	x, y := span(c.B, o)
	ok := false
	switch c.Kind {
	case "contains":
		ok = x <= a && b <= y && a <= b
	case "follows":
		ok = b != math.MaxInt64 && x == b+1
	case "same":
		ok = a == x && b == y
	}
	if !ok {
		o.Failf("%q (%s to %s) and %q (%s to %s): the second one is expected to be %s the first one", c.A, text(a), text(b), c.B, text(x), text(y), map[string]string{"contains": "containing", "follows": "following", "same": "the same as"}[c.Kind])
	}
}

// general draws a date and something which contains it.
func general(t *rapid.T) relation {
	switch gen.Int(t, "kind", 0, 5) {
	case 0: // drop components
		s := gen.YMD(t)
		k := strings.LastIndexByte(s, '-')
		if rapid.Bool().Draw(t, "month") {
			s = s[:k]
			k = strings.LastIndexByte(s, '-')
		}
		return relation{"contains", s, s[:k], "dropped"}
	case 1, 2: // replace digits by X
		s := strings.TrimPrefix(gen.Date(t), "-")
		var at []int
		for i := 1; i < len(s); i++ {
			if s[i] != '-' {
				at = append(at, i)
			}
		}
		mask := func(s string) string {
			p := gen.Pick(t, "digit", at...)
			return s[:p] + "X" + s[p+1:]
		}
		n := gen.Int(t, "before", 0, 3)
		for i := 0; i < n; i++ {
			s = mask(s)
		}
		m := s
		for i := 0; m == s && i < 8; i++ {
			m = mask(s)
		}
		return relation{"contains", s, m, "digit replaced"}
	case 3: // more varying digits
		y := gen.Year(t)
		limit := len(strconv.Itoa(abs(y)))
		s := gen.Pick(t, "spelling", model.YearText(y), "Y"+model.YearText(y), "Y"+strconv.Itoa(y)+"E0")
		if y == 0 {
			s = "0000"
		}
		k := gen.Int(t, "digits", 0, limit-1)
		if y < 0 && abs(y) < pow(k+1) {
			// the years sharing no digit with a negative year include the year 0
			k = 0
			if abs(y) < 10 {
				return relation{"contains", s, s, "more varying digits"}
			}
		}
		a := s
		if k > 0 {
			a += "S" + strconv.Itoa(k)
		}
		return relation{"contains", a, s + "S" + strconv.Itoa(k+1), "more varying digits"}
	case 4: // a decade has the same digits unspecified, or varying
		y := gen.PositiveYear(t)
		k := gen.Int(t, "digits", 1, 3)
		if y < pow(k-1) {
			k = 1
		}
		s := model.Pad(y, 4)
		return relation{"same", s[:4-k] + "XXX"[:k], s + "S" + strconv.Itoa(k), "unspecified and varying digits"}
	}
	// add a member to a set
	n := gen.Int(t, "members", 1, 4)
	var ms []string
	for i := 0; i < n; i++ {
		m := gen.Date(t)
		if gen.Chance(t, "range", 4) {
			m += ".." + gen.Date(t)
		}
		ms = append(ms, m)
	}
	at := gen.Int(t, "at", 0, n)
	added := append(append(append([]string{}, ms[:at]...), gen.Date(t)), ms[at:]...)
	open := gen.Pick(t, "open", "", "", "", "before", "after")
	wrap := func(ms []string) string {
		s := strings.Join(ms, ",")
		switch {
		case open == "before" && !strings.Contains(ms[0], ".."):
			s = ".." + s
		case open == "after" && !strings.Contains(ms[len(ms)-1], ".."):
			s += ".."
		}
		return s
	}
	if open == "before" && (at == 0 || strings.Contains(ms[0], "..")) || open == "after" && (at == n || strings.Contains(ms[n-1], "..")) {
		open = ""
	}
	l, r := "[", "]"
	if rapid.Bool().Draw(t, "all") {
		l, r = "{", "}"
	}
	return relation{"contains", l + wrap(ms) + r, l + wrap(added) + r, "member added"}
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func pow(n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= 10
	}
	return p
}

func pad(n int) string { return model.Pad(n, 2) }

// tiles emits, for a year, every unit of the calendar which begins in it, with its predecessor.
func tiles(y int, withDays bool, emit func(relation) bool) bool {
	ys, before := model.YearText(y), model.YearText(y-1)
	first := y == -9999
	ok := true
	put := func(why, a, b string) {
		ok = ok && emit(relation{"follows", a, b, why})
	}
	if !first {
		put("year", before, ys)
		put("month", before+"-12", ys+"-01")
		put("day", before+"-12-31", ys+"-01-01")
		if y > 0 {
			put("quarter", before+"-36", ys+"-33")
			put("quadrimester", before+"-39", ys+"-37")
			put("semester", before+"-41", ys+"-40")
		}
		if y > 0 && y%10 == 0 {
			put("decade", before[:3]+"X", ys[:3]+"X")
			put("decade", before+"S1", ys+"S1")
		}
		if y > 0 && y%100 == 0 {
			put("century", before[:2]+"XX", ys[:2]+"XX")
		}
		if y > 0 && y%1000 == 0 {
			put("millenium", before[:1]+"XXX", ys[:1]+"XXX")
		}
		if y < -9 && -y%10 == 9 {
			if y-1 > -9990 || y == -9989 {
				put("decade", before+"S1", ys+"S1")
			}
		}
	}
	for m := 1; m <= 12; m++ {
		ms := ys + "-" + pad(m)
		if m > 1 {
			put("month", ys+"-"+pad(m-1), ms)
			put("day", ys+"-"+pad(m-1)+"-"+pad(model.MonthDays(y, m-1)), ms+"-01")
		}
		if withDays {
			for d := 2; d <= model.MonthDays(y, m); d++ {
				put("day", ms+"-"+pad(d-1), ms+"-"+pad(d))
			}
		}
		if !ok {
			return false
		}
	}
	if y >= 0 {
		for code := 34; code <= 36; code++ {
			put("quarter", ys+"-"+pad(code-1), ys+"-"+pad(code))
		}
		put("quadrimester", ys+"-37", ys+"-38")
		put("quadrimester", ys+"-38", ys+"-39")
		put("semester", ys+"-40", ys+"-41")
	}
	// the units of a year and the year as a whole
	if y >= 0 {
		for _, r := range []relation{
			{"contains", ys + "-40", ys, "semester of a year"}, {"contains", ys + "-41", ys, "semester of a year"},
			{"contains", ys + "-33", ys + "-37", "quarter of a quadrimester"}, {"contains", ys + "-36", ys + "-41", "quarter of a semester"},
			{"contains", ys + "-33", ys + "-40", "quarter of a semester"},
			{"contains", ys + "-35", ys, "quarter of a year"}, {"contains", ys + "-38", ys, "quadrimester of a year"},
		} {
			ok = ok && emit(r)
		}
	}
	return ok
}

// spelling draws a date and another notation for it.
func spelling(t *rapid.T) relation {
	switch gen.Int(t, "kind", 0, 6) {
	case 0:
		s := gen.Y(t)
		return relation{"same", s, "Y" + s, "Y prefix"}
	case 1:
		y := gen.Year(t)
		if rapid.Bool().Draw(t, "round") {
			y -= y % gen.Pick(t, "by", 10, 100, 1000)
		}
		if y == 0 {
			y = 1
		}
		m, e := y, 0
		most := gen.Int(t, "exponent", 0, 3)
		for e < most && m%10 == 0 {
			m /= 10
			e++
		}
		return relation{"same", model.YearText(y), "Y" + strconv.Itoa(m) + "E" + strconv.Itoa(e), "exponent"}
	case 2:
		s := gen.Date(t)
		return relation{"same", s, "[" + s + "]", "one-member set"}
	case 3:
		s := gen.Date(t)
		return relation{"same", s, "{" + s + "}", "one-member set"}
	case 4:
		s := gen.Date(t)
		if rapid.Bool().Draw(t, "masked") {
			var at []int
			s = strings.TrimPrefix(s, "-")
			for i := 1; i < len(s); i++ {
				if s[i] != '-' {
					at = append(at, i)
				}
			}
			p := gen.Pick(t, "digit", at...)
			s = s[:p] + "X" + s[p+1:]
		}
		return relation{"same", s, s + "/" + s, "interval with itself"}
	case 5:
		y := gen.Int(t, "season-year", 0, 9998)
		i := gen.Int(t, "season", 0, 3)
		return relation{"same", model.Pad(y, 4) + "-" + pad(21+i), gen.Letters(t, []string{"spring", "summer", "fall", "winter"}[i]) + ", " + model.Pad(y, 4), "season by name"}
	}
	// northern seasons by their independent codes, and southern seasons as the opposite ones
	y := model.Pad(gen.Int(t, "season-year", 0, 9998), 4)
	i := gen.Int(t, "season", 0, 3)
	b := pad(25 + i)
	if rapid.Bool().Draw(t, "south") {
		b = pad(29 + (i+2)%4)
	}
	return relation{"same", y + "-" + pad(21+i), y + "-" + b, "season by hemisphere"}
}

func main() {
	engine.Main(engine.Check{
		ID: "C22",
		Assumptions: []string{
			"only relations between results of the library are used, no expected dates",
			"negative years with unspecified digits outside of intervals, and groupings 25 to 41 of negative years, are left open",
		},
		Exhaustive: true,
		Legs: oracle.Legs(
			engine.Leg[relation]{
				Name: "tiles",
				Rule: "the years, months, quarters, quadrimesters, semesters, decades, centuries, millenia and last days of months of all years from -9999 to 9999 with their predecessors, with all days of the years from 1501 to 2199 and every 25th other year (thorough: of all years); non-trivial always",
				Sweep: func(thorough bool, emit func(relation) bool) {
					for y := -9999; y <= 9999; y++ {
						if !tiles(y, thorough || y%25 == 0 || y > 1500 && y < 2200, emit) {
							return
						}
					}
				},
				Check: check,
			},
			engine.Leg[relation]{
				Name:  "containment",
				Rule:  "a random date, mask, significant-digit year or set, and what it becomes by dropping a component, replacing a digit by X, widening the number of varying digits or adding a member; non-trivial if the two differ",
				Gen:   general,
				Quick: 120000, Thorough: 3000000,
				Check: check,
			},
			engine.Leg[relation]{
				Name:  "spelling",
				Rule:  "a random date or season in two notations; non-trivial if they differ",
				Gen:   spelling,
				Quick: 100000, Thorough: 2000000,
				Check: check,
			},
			engine.History(engine.Leg[relation]{
				Name:  "containment",
				Gen:   general,
				Check: check,
			}, 40000, 300000, func(t *rapid.T, c relation) relation {
				if rapid.Bool().Draw(t, "spelling") {
					return spelling(t)
				}
				return general(t)
			}),
		),
	})
}
