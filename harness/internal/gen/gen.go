// Package gen generates EDTF expressions, by feature, and strings which are nearly EDTF expressions. All choices are
// made by rapid generators.
package gen

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/internal/model"
)

// Pick draws one of some values, shrinking to the first one.
func Pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// Int draws a number between lo and hi, favouring small ones.
func Int(t *rapid.T, label string, lo, hi int) int {
	if hi-lo > 10 {
		if x, ok := fresh(t, lo, hi); ok {
			return x
		}
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Chance is true with a chance of about 1 in n, shrinking to false.
func Chance(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, 4*n-1).Draw(t, label)%n == n-1
}

func digit(t *rapid.T) int { return rapid.IntRange(0, 9).Draw(t, "digit") }

var specialYears = []int{2000, 1900, 2004, 2023, 1, 0, 4, 5, 99, 100, 101, 399, 400, 401, 999, 1000, 1582, 1583, 1600, 1899, 1901, 1969, 1970, 1972, 1985, 1999, 2001, 2100, 2400, 8, 9, 10, 9999, 9998, 9996, 9900, 9899, 9000, 8999, 40, 44, 1752, 1776, 2038}

// PositiveYear draws a year from 0 to 9999.
func PositiveYear(t *rapid.T) int {
	if x, ok := fresh(t, 0, 9999); ok {
		return x
	}
	if Chance(t, "special", 4) {
		return rapid.SampledFrom(specialYears).Draw(t, "year")
	}
	y := 0
	for i := 0; i < 4; i++ {
		y = 10*y + digit(t)
	}
	return y
}

// Year draws a year from -9999 to 9999, one in three of them negative.
func Year(t *rapid.T) int {
	y := PositiveYear(t)
	if Chance(t, "bce", 3) {
		return -y
	}
	return y
}

// Y, YM and YMD draw valid dates, as text.

func Y(t *rapid.T) string { return model.YearText(Year(t)) }

func YM(t *rapid.T) string {
	return Y(t) + "-" + model.Pad(Month(t), 2)
}

func Month(t *rapid.T) int { return Int(t, "month", 1, 12) }

// Day draws a day of a month, with the first and last days more often than others.
func Day(t *rapid.T, y, m int) int {
	n := model.MonthDays(y, m)
	switch Int(t, "daykind", 0, 5) {
	case 0:
		return 1
	case 1:
		return n
	}
	return Int(t, "day", 1, n)
}

func YMD(t *rapid.T) string {
	if y, m, d, ok := freshDay(t); ok {
		return model.YearText(y) + "-" + model.Pad(m, 2) + "-" + model.Pad(d, 2)
	}
	y := Year(t)
	m := Month(t)
	return model.YearText(y) + "-" + model.Pad(m, 2) + "-" + model.Pad(Day(t, y, m), 2)
}

// Date draws a valid date of any precision.
func Date(t *rapid.T) string {
	switch Int(t, "precision", 0, 2) {
	case 0:
		return Y(t)
	case 1:
		return YM(t)
	}
	return YMD(t)
}

// PositiveDate draws a valid date of a year which is not negative.
func PositiveDate(t *rapid.T) string {
	return strings.TrimPrefix(Date(t), "-")
}

// LooseDate draws a date which need not exist.
func LooseDate(t *rapid.T) string {
	s := Y(t)
	if Chance(t, "yearonly", 8) {
		return s
	}
	m := Int(t, "loosemonth", 0, 14)
	if Chance(t, "bigmonth", 6) {
		m = Int(t, "bigmonth", 13, 99)
	}
	s += "-" + model.Pad(m, 2)
	if Chance(t, "monthonly", 4) {
		return s
	}
	d := Pick(t, "looseday", 0, 1, 28, 29, 30, 31, 32, 40, 99, 15)
	if Chance(t, "anyday", 3) {
		d = Int(t, "day", 0, 99)
	}
	return s + "-" + model.Pad(d, 2)
}

func Clock(t *rapid.T) string {
	switch Int(t, "clockkind", 0, 5) {
	case 0:
		return "00:00:00"
	case 1:
		return "23:59:59"
	}
	return model.Pad(Int(t, "hour", 0, 23), 2) + ":" + model.Pad(Int(t, "minute", 0, 59), 2) + ":" + model.Pad(Int(t, "second", 0, 59), 2)
}

func LooseClock(t *rapid.T) string {
	return model.Pad(Pick(t, "hour", 0, 12, 23, 24, 25, 60, 99), 2) + ":" + model.Pad(Pick(t, "minute", 0, 30, 59, 60, 61, 99), 2) + ":" + model.Pad(Pick(t, "second", 0, 30, 59, 60, 61, 99), 2)
}

// Shift draws a timeshift, or none.
func Shift(t *rapid.T) string {
	switch Int(t, "shiftkind", 0, 3) {
	case 0:
		return ""
	case 1:
		return "Z"
	}
	s := Pick(t, "sign", "+", "-")
	if Chance(t, "far", 3) {
		s += model.Pad(Int(t, "shifthour", 0, 23), 2)
	} else {
		s += model.Pad(Int(t, "shifthour", 0, 14), 2)
	}
	if rapid.Bool().Draw(t, "minutes") {
		if rapid.Bool().Draw(t, "any") {
			s += ":" + model.Pad(Int(t, "shiftminute", 0, 59), 2)
		} else {
			s += ":" + Pick(t, "shiftminute", "00", "30", "45", "15", "59", "01")
		}
	}
	return s
}

// DateTime draws a valid date and time. Dates near the ends of months, years and eras are frequent.
func DateTime(t *rapid.T) string {
	d := YMD(t)
	switch Int(t, "edge", 0, 5) {
	case 0:
		d = Y(t) + Pick(t, "edge", "-01-01", "-12-31")
	case 1:
		d = Pick(t, "era", "0000-01-01", "-0001-12-31", "0001-01-01", "0000-12-31", "-9999-01-01", "9999-12-31", "-0001-01-01", "0000-02-29", "-0004-02-29", "-0004-03-01", "-0001-03-01")
	}
	return d + "T" + Clock(t) + Shift(t)
}

// Mask replaces at least one digit of a date by X. The first digit of the year mostly stays.
func Mask(t *rapid.T) string {
	var b []byte
	switch Int(t, "maskkind", 0, 9) {
	case 0: // documented forms
		s := model.YearText(PositiveYear(t))
		m := model.Pad(Month(t), 2)
		return Pick(t, "form", s[:3]+"X", s[:2]+"XX", s+"-XX", s+"-"+m+"-XX", s+"-XX-XX", s[:1]+"XXX", s[:3]+"X-"+m, s[:2]+"XX-"+m+"-11", s+"-XX-12", s+"-1X", s+"-0X", s[:1]+"XXX-XX", s[:1]+"XXX-12-XX", s[:1]+"X"+s[2:3]+"X-XX-X3")
	case 1: // only digits X
		b = []byte(Pick(t, "all", "1XXX-XX-XX", "0XXX-XX-XX", "19XX-XX-XX", "9XXX-XX", "2XXX"))
		return string(b)
	case 2: // leap day
		s := model.YearText(PositiveYear(t))
		b = []byte(s + Pick(t, "leap", "-02-29", "-02-2X", "-02-X9", "-XX-31", "-0X-31", "-X2-29", "-X2-3X", "-X1-31", "-1X-31", "-02-3X", "-XX-3X", "-XX-30"))
		if Chance(t, "exact", 3) && strings.Contains(string(b), "X") {
			return string(b)
		}
		b[Int(t, "pos", 1, 3)] = 'X'
		if Chance(t, "second", 2) {
			b[Int(t, "pos", 1, 3)] = 'X'
		}
		return string(b)
	}
	s := LooseDate(t)
	if Chance(t, "exists", 2) {
		s = Date(t)
	}
	s = strings.TrimPrefix(s, "-")
	b = []byte(s)
	n := Int(t, "masked", 1, 4)
	for i := 0; i < n; i++ {
		p := Int(t, "pos", 1, len(b)-1)
		if b[p] != '-' {
			b[p] = 'X'
		} else {
			b[len(b)-1] = 'X'
		}
	}
	if Chance(t, "leading", 25) {
		b[0] = 'X'
	}
	return string(b)
}

// NegativeMask draws a mask of a negative year, as used in intervals.
func NegativeMask(t *rapid.T) string { return "-" + Mask(t) }

func qual(t *rapid.T) string { return Pick(t, "qualifier", "?", "~", "%") }

// Qualified draws a date with qualifiers, to the left or to the right of its components.
func Qualified(t *rapid.T) string {
	s := PositiveDate(t)
	if Chance(t, "bce", 5) {
		s = "-" + s
	}
	neg := strings.HasPrefix(s, "-")
	parts := strings.Split(strings.TrimPrefix(s, "-"), "-")
	if neg {
		parts[0] = "-" + parts[0]
	}
	switch Int(t, "qualkind", 0, 3) {
	case 0: // the whole date
		return strings.Join(parts, "-") + qual(t)
	case 1: // groups
		any := false
		for i := range parts {
			if rapid.Bool().Draw(t, "here") {
				parts[i] += qual(t)
				any = true
			}
		}
		if !any {
			parts[0] += qual(t)
		}
	case 2: // single components
		any := false
		for i := range parts {
			if rapid.Bool().Draw(t, "here") {
				parts[i] = qual(t) + parts[i]
				any = true
			}
		}
		if !any {
			parts[len(parts)-1] = qual(t) + parts[len(parts)-1]
		}
	case 3: // one component, anywhere
		i := Int(t, "which", 0, len(parts)-1)
		if rapid.Bool().Draw(t, "right") {
			parts[i] += qual(t)
		} else {
			parts[i] = qual(t) + parts[i]
		}
	}
	return strings.Join(parts, "-")
}

// LeftQualified draws a date with qualifiers to the left of components, as used in intervals.
func LeftQualified(t *rapid.T) string {
	parts := strings.Split(PositiveDate(t), "-")
	if Chance(t, "bce", 5) {
		parts[0] = "-" + parts[0]
	}
	i := Int(t, "which", 0, len(parts)-1)
	for k := range parts {
		if k == i || Chance(t, "also", 3) {
			parts[k] = qual(t) + parts[k]
		}
	}
	return strings.Join(parts, "-")
}

// IntervalEnd draws an end of an interval.
func IntervalEnd(t *rapid.T) string {
	switch Int(t, "endkind", 0, 5) {
	case 0:
		return ".."
	case 1:
		return ""
	case 2:
		return Mask(t)
	case 3:
		if Chance(t, "negative", 2) {
			return NegativeMask(t)
		}
		return LeftQualified(t)
	}
	return Date(t)
}

// Related draws a date, mask or qualified date which has much in common with a date.
func Related(t *rapid.T, s string) string {
	sign := ""
	if strings.HasPrefix(s, "-") {
		sign, s = "-", s[1:]
	}
	parts := strings.Split(s, "-")
	last := len(parts) - 1
	step := func(i int) {
		n, err := strconv.Atoi(parts[i])
		if err != nil {
			return
		}
		n += Pick(t, "by", -1, 1, -1, 1, 2, 10)
		lo, hi, width := 0, 9999, 4
		if i > 0 {
			lo, hi, width = 1, []int{12, 31}[i-1], 2
		}
		if n < lo {
			n = hi
		} else if n > hi {
			n = lo
		}
		parts[i] = model.Pad(n, width)
	}
	switch Int(t, "relation", 0, 9) {
	case 0: // the same
	case 1: // the next one, or the one before
		step(last)
	case 2:
		step(Int(t, "which", 0, last))
	case 3: // less precise
		parts = parts[:Int(t, "keep", 1, len(parts))]
	case 4: // more precise
		for len(parts) < 3 {
			parts = append(parts, Pick(t, "more", "01", "12", "02", "10"))
			if rapid.Bool().Draw(t, "enough") {
				break
			}
		}
	case 5: // the other era
		if sign == "" {
			sign = "-"
		} else {
			sign = ""
		}
	case 6: // with an unspecified digit
		i := Int(t, "which", 0, last)
		b := []byte(parts[i])
		b[len(b)-1] = 'X'
		if i > 0 && rapid.Bool().Draw(t, "both") {
			b[0] = 'X'
		}
		parts[i] = string(b)
	case 7: // with a qualifier
		i := Int(t, "which", 0, last)
		q := Pick(t, "qualifier", "?", "~", "%")
		if i == 0 {
			return q + sign + strings.Join(parts, "-")
		}
		parts[i] = q + parts[i]
	case 8: // month and day exchanged
		if len(parts) == 3 {
			parts[1], parts[2] = parts[2], parts[1]
		}
	case 9: // the same month and day of another year
		parts[0] = strings.TrimPrefix(Y(t), "-")
	}
	return sign + strings.Join(parts, "-")
}

// Interval draws an interval.
func Interval(t *rapid.T) string {
	if Chance(t, "related", 4) {
		a := Date(t)
		b := Related(t, a)
		if rapid.Bool().Draw(t, "swap") {
			a, b = b, a
		}
		return a + "/" + b
	}
	switch Int(t, "intervalkind", 0, 5) {
	case 0, 1:
		return Date(t) + "/" + Date(t)
	case 2:
		if rapid.Bool().Draw(t, "start") {
			return Pick(t, "open", "..", "") + "/" + Date(t)
		}
		return Date(t) + "/" + Pick(t, "open", "..", "")
	case 3:
		return LooseDate(t) + "/" + Date(t)
	case 4:
		end := func() string {
			switch Int(t, "endkind", 0, 3) {
			case 0:
				return Date(t)
			case 1:
				return Mask(t)
			case 2:
				return NegativeMask(t)
			}
			return LeftQualified(t)
		}
		return end() + "/" + end()
	}
	return IntervalEnd(t) + "/" + IntervalEnd(t)
}

var seasonNames = []string{"spring", "summer", "fall", "winter"}

// Letters draws a spelling of a word in upper and lower case.
func Letters(t *rapid.T, word string) string {
	switch Int(t, "case", 0, 3) {
	case 0:
		return strings.ToUpper(word[:1]) + word[1:]
	case 1:
		return word
	case 2:
		return strings.ToUpper(word)
	}
	b := []byte(word)
	for i := range b {
		if rapid.Bool().Draw(t, "upper") {
			b[i] -= 32
		}
	}
	return string(b)
}

// Season draws a season, spelled out or not.
func Season(t *rapid.T) string {
	if rapid.Bool().Draw(t, "spelled") {
		return Letters(t, Pick(t, "season", seasonNames...)) + "," + Pick(t, "space", " ", " ", " ", "", "  ", "        ", strings.Repeat(" ", 200)) + model.Pad(PositiveYear(t), 4)
	}
	return Y(t) + "-" + model.Pad(Int(t, "code", 21, 24), 2)
}

// SubYear draws a sub-year grouping.
func SubYear(t *rapid.T) string {
	return model.Pad(PositiveYear(t), 4) + "-" + model.Pad(Int(t, "code", 25, 41), 2)
}

// LetterYear draws a Y-prefixed year.
func LetterYear(t *rapid.T) string {
	if s, ok := freshDigits(t, 4, 20); ok {
		return "Y" + Pick(t, "sign", "", "-") + s
	}
	if Chance(t, "wrapped", 8) {
		return "Y" + Pick(t, "sign", "", "-") + wrapped(t)
	}
	if Chance(t, "long", 4) {
		s := "Y" + Pick(t, "sign", "", "-") + Pick(t, "lead", "1", "9", "2", "5")
		n := Int(t, "len", 4, 12)
		if Chance(t, "longer", 3) {
			n = Int(t, "len", 13, 60)
		}
		for i := 0; i < n; i++ {
			s += model.Pad(digit(t), 1)
		}
		return s
	}
	return "Y" + Y(t)
}

// wrapped draws a number which becomes a year in range, or close to it, when cut to some number of bits, or which is
// at the limit of what they can hold.
func wrapped(t *rapid.T) string {
	bits := Pick(t, "bits", 15, 16, 31, 32, 53, 63, 64, 128)
	n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if Chance(t, "times", 3) {
		n.Mul(n, big.NewInt(int64(Int(t, "factor", 1, 9))))
	}
	d := Int(t, "offset", -3, 3)
	if Chance(t, "far", 2) {
		d = Int(t, "year", -9999, 9999)
	}
	return n.Add(n, big.NewInt(int64(d))).String()
}

// Exponential draws an exponential year, mostly one in range.
func Exponential(t *rapid.T) string {
	sign := Pick(t, "sign", "", "", "-")
	switch Int(t, "expkind", 0, 4) {
	case 0: // anything
		return "Y" + sign + digits(t, 1, 6) + "E" + digits(t, 1, 4)
	case 1: // huge
		if Chance(t, "wrapped", 3) {
			if Chance(t, "exponent", 2) {
				return "Y" + sign + digits(t, 1, 4) + "E" + wrapped(t)
			}
			return "Y" + sign + wrapped(t) + "E" + Pick(t, "e", "0", "1", "2", "00")
		}
		return "Y" + sign + digits(t, 1, 24) + "E" + digits(t, 1, 24)
	}
	e := Int(t, "exp", 0, 4)
	m := ""
	if e < 4 {
		m = Pick(t, "m", "1", "9", "2", "5", "7", "3", "4", "6", "8") + digits(t, 0, 3-e)
	} else {
		m = "0"
	}
	zeros := Pick(t, "zeros", "", "", "", "", "0", "00", "000000", strings.Repeat("0", 150))
	ezeros := Pick(t, "ezeros", "", "", "", "", "0", "00", strings.Repeat("0", 150))
	return "Y" + sign + zeros + m + "E" + ezeros + model.Pad(e, 1)
}

func digits(t *rapid.T, lo, hi int) string {
	if s, ok := freshDigits(t, lo, hi); ok {
		return s
	}
	n := Int(t, "len", lo, hi)
	s := ""
	for i := 0; i < n; i++ {
		s += model.Pad(digit(t), 1)
	}
	return s
}

// Significant draws a year with a number of varying digits.
func Significant(t *rapid.T) string {
	s := ""
	switch Int(t, "sigkind", 0, 4) {
	case 0:
		s = Exponential(t)
	case 1:
		s = LetterYear(t)
	default:
		s = Y(t)
	}
	if Chance(t, "odd", 8) {
		if Chance(t, "wrapped", 3) {
			return s + "S" + wrapped(t)
		}
		return s + "S" + digits(t, 1, 3)
	}
	return s + "S" + model.Pad(Int(t, "n", 1, 4), 1)
}

// Member draws a member of a set.
func Member(t *rapid.T) string { return Date(t) }

// Set draws a set, mostly a well-formed one.
func Set(t *rapid.T) string {
	n := Int(t, "members", 1, 5)
	if Chance(t, "many", 40) {
		n = Int(t, "members", 6, 48)
	}
	if x, ok := fresh(t, 6, 3000); ok && Chance(t, "sized", 8) {
		n = x
	}
	few := min(n, 48)
	toks := make([]string, n)
	near := ""
	if Chance(t, "near", 3) {
		near = Date(t) // dates which contain each other or coincide
	}
	member := func() string {
		if near != "" {
			if parts := strings.Split(strings.TrimPrefix(near, "-"), "-"); Chance(t, "cut", 2) {
				k := Int(t, "parts", 1, len(parts))
				s := strings.Join(parts[:k], "-")
				if strings.HasPrefix(near, "-") {
					s = "-" + s
				}
				return s
			}
		}
		return Member(t)
	}
	for i := range toks {
		if i >= few {
			toks[i] = toks[i%few]
			continue
		}
		toks[i] = member()
		if Chance(t, "range", 4) {
			toks[i] += ".." + member()
		}
	}
	if n < 300 && Chance(t, "very many", 150) {
		// the same members again and again, the last one of which need not be an extreme
		once := toks
		for i := Int(t, "times", 2, 200); i > 0; i-- {
			toks = append(toks, once...)
		}
		if Chance(t, "another", 2) {
			toks = append(toks, Date(t))
		}
		n = len(toks)
	}
	switch Int(t, "openness", 0, 9) {
	case 0:
		toks[0] = ".." + strings.SplitN(toks[0], "..", 2)[0]
	case 1:
		toks[n-1] = strings.SplitN(toks[n-1], "..", 2)[0] + ".."
	case 2:
		if n > 1 {
			toks[0] = ".." + strings.SplitN(toks[0], "..", 2)[0]
			toks[n-1] = strings.SplitN(toks[n-1], "..", 2)[0] + ".."
		}
	}
	if Chance(t, "loose", 10) {
		toks[Int(t, "where", 0, n-1)] = LooseDate(t)
	}
	if rapid.Bool().Draw(t, "all") {
		return "{" + strings.Join(toks, ",") + "}"
	}
	return "[" + strings.Join(toks, ",") + "]"
}

// Feature is a named generator.
type Feature struct {
	Name string
	Draw func(*rapid.T) string
}

// Features are the generators of all kinds of expressions.
var Features = []Feature{
	{"date", Date},
	{"date-time", DateTime},
	{"interval", Interval},
	{"mask", Mask},
	{"qualified", Qualified},
	{"season", Season},
	{"sub-year", SubYear},
	{"letter-year", LetterYear},
	{"exponential", Exponential},
	{"significant", Significant},
	{"set", Set},
	{"bare", func(t *rapid.T) string { return Pick(t, "bare", "..", "", "open", "uuuu", "/", "../..", "/..", "../") }},
	{"loose", LooseDate},
}

// Any draws an expression of any kind.
func Any(t *rapid.T) string {
	s := Features[rapid.IntRange(0, len(Features)-1).Draw(t, "feature")].Draw(t)
	if anyFresh() && Chance(t, "fresh", 6) {
		return freshString(t, s)
	}
	return s
}

// Valid draws an expression which parses according to the model. Others are replaced by a plain date.
func Valid(t *rapid.T) string {
	s := Any(t)
	if model.Evaluate(s).Outcome != model.OK {
		return Date(t)
	}
	return s
}

var alphabet = []string{"0", "1", "9", "-", "X", "/", ".", "..", "?", "~", "%", ",", "[", "]", "{", "}", "Y", "E", "S", "T", "Z", ":", "+", " ", "\n", "x", "t", "z", "u", "y", "e", "s", "2", "3", "4", "00", "12", "31", "29", "21", "41", "\x00", "\xff", "é", "٣", "１", "ſ", "K", "\u00a0", "\u2028", "\r", "\t", "--", "//", "spring", "winter", "Fall,", "open", "uuuu", "23:59:59", "T00:00:00"}

// Mutate applies a few edits to a string.
func Mutate(t *rapid.T, s string) string {
	n := Int(t, "edits", 1, 3)
	for i := 0; i < n; i++ {
		s = mutateOnce(t, s)
	}
	return s
}

func mutateOnce(t *rapid.T, s string) string {
	at := func(hi int) int {
		// ends are the more interesting places
		switch Int(t, "place", 0, 3) {
		case 0:
			return hi
		case 1:
			return 0
		}
		return Int(t, "at", 0, hi)
	}
	if anyFresh() && Chance(t, "fresh", 6) {
		return overlay(t, s)
	}
	switch Int(t, "edit", 0, 8) {
	case 0: // insert
		p := at(len(s))
		return s[:p] + Pick(t, "token", alphabet...) + s[p:]
	case 1: // delete
		if s == "" {
			return s
		}
		p := at(len(s) - 1)
		return s[:p] + s[p+1:]
	case 2: // replace
		if s == "" {
			return s
		}
		p := at(len(s) - 1)
		return s[:p] + Pick(t, "token", alphabet...) + s[p+1:]
	case 3: // duplicate a stretch
		if s == "" {
			return s
		}
		p := Int(t, "from", 0, len(s)-1)
		q := Int(t, "to", p, len(s))
		return s[:q] + s[p:q] + s[q:]
	case 4: // exchange neighbours
		if len(s) < 2 {
			return s
		}
		p := Int(t, "at", 0, len(s)-2)
		return s[:p] + s[p+1:p+2] + s[p:p+1] + s[p+2:]
	case 5: // cut
		if Chance(t, "front", 2) {
			return s[at(len(s)):]
		}
		return s[:at(len(s))]
	case 6: // append another expression
		return s + Pick(t, "sep", "", "/", ",", " ", "\n", "..", "-") + Any(t)
	case 7: // change the case of a letter
		for i := 0; i < len(s); i++ {
			if c := s[i]; c >= 'A' && c <= 'Z' {
				return s[:i] + strings.ToLower(s[i:i+1]) + s[i+1:]
			}
		}
		return s + Pick(t, "token", alphabet...)
	case 8: // change a digit
		for i := at(len(s)); i < len(s); i++ {
			if s[i] >= '0' && s[i] <= '9' {
				return s[:i] + model.Pad(digit(t), 1) + s[i+1:]
			}
		}
		return s + model.Pad(digit(t), 1)
	}
	return s
}

// Tokens draws a sequence of fragments of EDTF expressions.
func Tokens(t *rapid.T) string {
	n := Int(t, "tokens", 0, 10)
	s := ""
	for i := 0; i < n; i++ {
		if Chance(t, "fragment", 3) {
			s += Pick(t, "fragment", "1985", "-1985", "2004-02-29", "1985-04", "19XX", "Y", "T12:00:00Z", "..", "/", "-21", "-24", "-41", "E3", "S2", "?", "2004")
		} else {
			s += Pick(t, "token", alphabet...)
		}
	}
	return s
}

// Raw draws arbitrary bytes.
func Raw(t *rapid.T) string {
	if rapid.Bool().Draw(t, "unicode") {
		return rapid.String().Draw(t, "text")
	}
	return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
}

// String draws any string: valid expressions, mutated ones, sequences of fragments, and arbitrary bytes.
func String(t *rapid.T) string {
	switch Int(t, "stringkind", 0, 9) {
	case 0, 1, 2:
		return Any(t)
	case 3, 4, 5, 6:
		return Mutate(t, Any(t))
	case 7, 8:
		return Tokens(t)
	}
	return Raw(t)
}

// Upper is strings.ToUpper.
func Upper(s string) string { return strings.ToUpper(s) }

// HasQualifier reports whether a string contains a qualifier.
func HasQualifier(s string) bool { return strings.ContainsAny(s, "?~%") }

// Twin draws a string which is easily taken for another one.
func Twin(t *rapid.T, s string) string {
	if s == "" {
		return ".."
	}
	cut := Int(t, "cut", 0, len(s)-1)
	switch Int(t, "twin", 0, 9) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2: // another sign
		if strings.HasPrefix(s, "-") {
			return s[1:]
		}
		return "-" + s
	case 3: // without qualifiers
		return strings.NewReplacer("?", "", "~", "", "%", "").Replace(s)
	case 4: // with one
		return s + Pick(t, "qualifier", "?", "~", "%")
	case 5: // space around it
		return Pick(t, "before", "", " ") + s + Pick(t, "after", " ", "\n")
	case 6: // the same beginning
		return s[:cut] + Pick(t, "other", "0", "1", "9", "X", "-", "?")
	case 7: // the same end
		return Pick(t, "other", "0", "1", "9", "X", "-", "?") + s[cut:]
	case 8: // the same length, beginning and end
		return s[:cut] + Pick(t, "other", "0", "1", "2", "3", "9", "X") + s[cut+1:]
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		return s[i+1:] + "/" + s[:i]
	}
	return s + "/" + s
}

var plain = regexp.MustCompile(`^-?[0-9X]{4}(-[0-9X]{2}){0,2}$`)

// Alike draws a string which has much in common with another one.
func Alike(t *rapid.T, s string) string {
	sides := strings.Split(s, "/")
	side := Int(t, "side", 0, len(sides)-1)
	if plain.MatchString(sides[side]) && rapid.Bool().Draw(t, "related") {
		sides[side] = Related(t, sides[side])
		return strings.Join(sides, "/")
	}
	if Chance(t, "mutant", 4) {
		return Mutate(t, s)
	}
	return Twin(t, s)
}
