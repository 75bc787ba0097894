package gen

import (
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/harness/internal/dict"
	"verif/harness/internal/model"
)

// fresh draws, sometimes, one of the new constants of the code under test which lies in a range, or a neighbour of one.
func fresh(t *rapid.T, lo, hi int) (int, bool) {
	var xs []int
	add := func(v int64) {
		if v >= int64(lo) && v <= int64(hi) {
			xs = append(xs, int(v))
		}
	}
	for _, v := range dict.New().Ints {
		add(v)
		if v < 0 {
			add(-v)
		}
	}
	if len(xs) == 0 || !Chance(t, "fresh", 4) {
		return 0, false
	}
	x := rapid.SampledFrom(xs).Draw(t, "constant")
	if Chance(t, "neighbour", 4) {
		x = min(max(x+Pick(t, "offset", -1, 1), lo), hi)
	}
	return x, true
}

// freshDay draws, sometimes, the day of one of the new constants, taken for a number of seconds or of the form 20060102.
func freshDay(t *rapid.T) (y, m, d int, ok bool) {
	type day struct{ y, m, d int }
	var xs []day
	add := func(v time.Time) {
		for o := -1; o <= 1; o++ {
			u := v.AddDate(0, 0, o)
			if u.Year() >= -9999 && u.Year() <= 9999 {
				xs = append(xs, day{u.Year(), int(u.Month()), u.Day()})
			}
		}
	}
	for _, v := range dict.New().Ints {
		if v > 1e6 || v < -1e6 {
			add(time.Unix(v, 0).UTC())
			if v > 0 && v < 1e8 {
				add(time.Date(int(v/10000), time.Month(v/100%100), int(v%100), 0, 0, 0, 0, time.UTC))
			}
			if v > 1e10 || v < -1e10 {
				add(time.UnixMilli(v).UTC())
			}
		}
	}
	if len(xs) == 0 || !Chance(t, "fresh", 6) {
		return 0, 0, 0, false
	}
	x := rapid.SampledFrom(xs).Draw(t, "constant")
	return x.y, x.m, x.d, true
}

// freshDigits draws, sometimes, one of the new constants as a text of digits.
func freshDigits(t *rapid.T, lo, hi int) (string, bool) {
	var xs []string
	for _, v := range dict.New().Ints {
		if s := strings.TrimPrefix(strconv.FormatInt(v, 10), "-"); len(s) >= lo && len(s) <= hi {
			xs = append(xs, s)
		}
	}
	if len(xs) == 0 || !Chance(t, "fresh", 4) {
		return "", false
	}
	return rapid.SampledFrom(xs).Draw(t, "constant"), true
}

// texts are the new texts, and for the numbers among the constants the texts they have in expressions.
func texts() []string {
	w := dict.New()
	xs := append([]string{}, w.Strings...)
	for _, v := range w.Ints {
		xs = append(xs, strconv.FormatInt(v, 10))
		if v >= 0 && v < 1000 {
			xs = append(xs, model.Pad(int(v), 2), model.Pad(int(v), 4))
		}
	}
	return xs
}

// overlay writes one of the new texts over a part of an expression.
func overlay(t *rapid.T, s string) string {
	xs := texts()
	if len(xs) == 0 {
		return s
	}
	x := rapid.SampledFrom(xs).Draw(t, "constant")
	switch Int(t, "overlay", 0, 6) {
	case 0:
		return x
	case 1:
		return x + s
	case 2:
		return s + x
	case 3: // over the beginning
		if len(x) < len(s) {
			return x + s[len(x):]
		}
		return x
	case 4: // over the end
		if len(x) < len(s) {
			return s[:len(s)-len(x)] + x
		}
		return x
	case 5:
		p := Int(t, "at", 0, len(s))
		return s[:p] + x + s[p:]
	}
	p := Int(t, "at", 0, len(s))
	return s[:p] + x + s[min(p+len(x), len(s)):]
}

// freshString draws a string which a new pattern matches, or with a new text, or of a length which is a new number.
func freshString(t *rapid.T, s string) string {
	w := dict.New()
	switch Int(t, "freshkind", 0, 3) {
	case 0:
		if len(w.Patterns) > 0 {
			p := rapid.SampledFrom(w.Patterns).Draw(t, "pattern")
			if _, err := regexp.Compile(p); err == nil {
				if x := rapid.StringMatching(p).Draw(t, "matching"); len(x) < 1000 {
					return x
				}
			}
		}
	case 1:
		var ns []int
		for _, v := range w.Ints {
			if v > 4 && v < 20000 {
				ns = append(ns, int(v))
			}
		}
		if len(ns) > 0 {
			return sized(t, rapid.SampledFrom(ns).Draw(t, "length")+Int(t, "offset", -1, 1), s)
		}
	}
	return overlay(t, s)
}

// sized draws a string of some length, often a well-formed expression.
func sized(t *rapid.T, n int, s string) string {
	switch Int(t, "sized", 0, 3) {
	case 0: // a set
		x := Date(t)
		b := "[" + x
		for len(b)+len(x)+2 <= n {
			b += "," + x
		}
		return b + "]"
	case 1: // a season
		x := Letters(t, Pick(t, "season", seasonNames...)) + ","
		y := model.Pad(PositiveYear(t), 4)
		return x + strings.Repeat(" ", max(0, n-len(x)-4)) + y
	case 2: // an exponential year
		y := model.Pad(Int(t, "m", 1, 99), 1) + "E" + model.Pad(Int(t, "e", 0, 2), 1)
		return "Y" + strings.Repeat("0", max(0, n-1-len(y))) + y
	}
	if s == "" {
		s = "X"
	}
	return strings.Repeat(s, n/len(s)+1)[:max(n, 0)]
}

// anyFresh reports whether there are new constants.
func anyFresh() bool {
	w := dict.New()
	return len(w.Ints)+len(w.Strings)+len(w.Patterns) > 0
}

// FreshText draws, sometimes, one of the new texts of the code under test.
func FreshText(t *rapid.T) (string, bool) {
	xs := texts()
	if len(xs) == 0 || !Chance(t, "fresh", 6) {
		return "", false
	}
	return rapid.SampledFrom(xs).Draw(t, "constant"), true
}

// FreshInt draws, sometimes, one of the new numbers of the code under test which lies in a range.
func FreshInt(t *rapid.T, lo, hi int) (int, bool) { return fresh(t, lo, hi) }
