package model

import (
	"math/big"
	"strings"
)

// Outcome is what the model demands of a string.
type Outcome int

const (
	// OK: the string parses, to exactly the described result.
	OK Outcome = iota
	// Refused: the string does not parse, with any error.
	Refused
	// Unsupported: the string is refused as unsupported.
	Unsupported
	// NotImplemented: the string is refused as not implemented.
	NotImplemented
	// Unspec: neither the specification nor the package's documentation settle the outcome.
	Unspec
)

func (o Outcome) String() string {
	return [...]string{"ok", "refused", "unsupported", "not-implemented", "unspecified"}[o]
}

// Refuses reports whether the outcome is one of the refusals.
func (o Outcome) Refuses() bool { return o == Refused || o == Unsupported || o == NotImplemented }

// Flags, with the values documented in the README.
const (
	ALL       = 2
	ANY       = 4
	DAY       = 8
	MONTH     = 32
	YEAR      = 64
	DECADE    = 128
	CENTURY   = 256
	MILLENIUM = 512
)

type State int

const (
	Dated State = iota
	Open
	Unknown
)

// Bound is one of the four bounds of a result.
type Bound struct {
	State State
	// Any: the moment of the bound is not specified (but its State is)
	Any     bool
	Sec     int64
	Y, M, D int // of the bound; valid unless NoYMD or Any
	NoYMD   bool
}

// Side is the start or the end of a result.
type Side struct {
	Lower, Upper           Bound
	Uncertain, Approximate uint32
	Precision              uint32 // 0: not specified
	Inclusivity            uint32
	EDTF                   string
	EDTFKnown              bool
}

// LeadingXEmpty is the kind of masks which begin with X and which no date matches: these are refused, but whether as
// not implemented is left open.
const LeadingXEmpty = "leading-x-empty"

// Expect is the reference result.
type Expect struct {
	Outcome    Outcome
	Level      int
	Feature    string
	Start, End Side
	// Kind is a label for classification, set for every outcome
	Kind string
}

// Formless are the kinds of refused strings which have the form of no expression, whatever the values of their
// components.
var Formless = map[string]bool{
	"junk": true, "bad-date-time": true, "bad-exponential": true, "bad-significant": true, "bad-letter-year": true, "lower-case-year": true,
	"many-parts": true, "bad-set": true, "bad-season": true, "double-qualified": true,
}

func refused(kind string) Expect { return Expect{Outcome: Refused, Kind: kind} }
func unspec(kind string) Expect  { return Expect{Outcome: Unspec, Kind: kind} }

// Lower and Upper return the overall bounds.
func (e Expect) Lower() Bound { return e.Start.Lower }
func (e Expect) Upper() Bound { return e.End.Upper }

// Day is a calendar day.
type Day struct{ Y, M, D int }

func (d Day) first() Bound {
	return Bound{Sec: Sec(d.Y, d.M, d.D, 0, 0, 0), Y: d.Y, M: d.M, D: d.D}
}

func (d Day) last() Bound {
	return Bound{Sec: Sec(d.Y, d.M, d.D, 23, 59, 59), Y: d.Y, M: d.M, D: d.D}
}

// single fills in the shape of the result of an expression which is not an interval.
func single(e *Expect, a, b Day) {
	if a == b {
		e.Start.Lower, e.Start.Upper = a.first(), a.first()
		e.End.Lower, e.End.Upper = b.last(), b.last()
		return
	}
	e.Start.Lower, e.Start.Upper = a.first(), a.last()
	e.End.Lower, e.End.Upper = b.first(), b.last()
}

// span is the extent of one date, from its first to its last day.
type span struct{ a, b Day }

func (s span) lower() int64 { return s.a.first().Sec }
func (s span) upper() int64 { return s.b.last().Sec }

func (s span) side() Side { return Side{Lower: s.a.first(), Upper: s.b.last()} }

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func digits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			return false
		}
	}
	return true
}

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func isQual(c byte) bool { return c == '?' || c == '~' || c == '%' }

// comp is one component of a date expression.
type comp struct {
	left, right byte // qualifiers, or 0
	neg         bool
	text        string // digits and X
}

// comps splits a date expression [q][-]YYYY[q][-[q]MM[q][-[q]DD[q]]] in to its components.
func comps(s string) ([]comp, bool) {
	var out []comp
	i := 0
	for n := 0; ; n++ {
		var c comp
		if n == 3 {
			return nil, false
		}
		if i < len(s) && isQual(s[i]) {
			c.left = s[i]
			i++
		}
		w := 2
		if n == 0 {
			w = 4
			if i < len(s) && s[i] == '-' {
				c.neg = true
				i++
			}
		}
		if len(s)-i < w {
			return nil, false
		}
		c.text = s[i : i+w]
		for k := 0; k < w; k++ {
			if !isDigit(c.text[k]) && c.text[k] != 'X' {
				return nil, false
			}
		}
		i += w
		if i < len(s) && isQual(s[i]) {
			c.right = s[i]
			i++
		}
		out = append(out, c)
		if i == len(s) {
			return out, true
		}
		if s[i] != '-' {
			return nil, false
		}
		i++
	}
}

func masked(cs []comp) bool {
	for _, c := range cs {
		if strings.Contains(c.text, "X") {
			return true
		}
	}
	return false
}

// maskMatches reports whether the number n, written with len(mask) digits, matches a mask.
func maskMatches(mask string, n int) bool {
	for i := len(mask) - 1; i >= 0; i-- {
		if mask[i] != 'X' && int(mask[i]-'0') != n%10 {
			return false
		}
		n /= 10
	}
	return n == 0
}

func maskMin(mask string) int { return num(strings.ReplaceAll(mask, "X", "0")) }
func maskMax(mask string) int { return num(strings.ReplaceAll(mask, "X", "9")) }

// negZero reports whether the year of an expression is, or may be, a negative zero.
func negZero(c comp) bool { return c.neg && maskMin(c.text) == 0 }

// dateSpan returns the first and last existing calendar day which match the components, ignoring qualifiers.
// The month must be a calendar month.
func dateSpan(cs []comp) (span, bool) {
	var sp span
	sign := 1
	if cs[0].neg {
		sign = -1
	}
	lo, hi := maskMin(cs[0].text), maskMax(cs[0].text)
	mm, dd := "", ""
	if len(cs) > 1 {
		mm = cs[1].text
	}
	if len(cs) > 2 {
		dd = cs[2].text
	}
	inYear := func(y int, last bool) (Day, bool) {
		best, found := Day{}, false
		for m := 1; m <= 12; m++ {
			if mm != "" && !maskMatches(mm, m) {
				continue
			}
			for d := 1; d <= MonthDays(y, m); d++ {
				if dd != "" && !maskMatches(dd, d) {
					continue
				}
				if !found || last {
					best, found = Day{y, m, d}, true
				}
			}
		}
		return best, found
	}
	ys := make([]int, 0, 1)
	for y := lo; y <= hi; y++ {
		if maskMatches(cs[0].text, y) {
			ys = append(ys, sign*y)
		}
	}
	if sign < 0 {
		for i, j := 0, len(ys)-1; i < j; i, j = i+1, j-1 {
			ys[i], ys[j] = ys[j], ys[i]
		}
	}
	ok := false
	for _, y := range ys {
		if d, found := inYear(y, false); found {
			sp.a, ok = d, true
			break
		}
	}
	if !ok {
		return sp, false
	}
	for i := len(ys) - 1; i >= 0; i-- {
		if d, found := inYear(ys[i], true); found {
			sp.b = d
			break
		}
	}
	return sp, true
}

// flags returns the uncertain and approximate flags of the components.
func flags(cs []comp) (unc, app uint32) {
	unit := [3]uint32{YEAR, MONTH, DAY}
	add := func(q byte, f uint32) {
		if q == '?' || q == '%' {
			unc |= f
		}
		if q == '~' || q == '%' {
			app |= f
		}
	}
	for i, c := range cs {
		if c.left != 0 {
			add(c.left, unit[i])
		}
		if c.right != 0 {
			for j := 0; j <= i; j++ {
				add(c.right, unit[j])
			}
		}
	}
	return unc, app
}

// precision returns the documented precision of a masked date, or 0 where it is not documented.
func precision(cs []comp) uint32 {
	y := cs[0].text
	x := strings.Count(y, "X")
	if x > 0 {
		if strings.TrimRight(y, "X") != y[:4-x] || x == 4 {
			return 0
		}
		for _, c := range cs[1:] {
			if strings.Contains(c.text, "X") {
				return 0
			}
		}
		return [4]uint32{0, DECADE, CENTURY, MILLENIUM}[x]
	}
	switch len(cs) {
	case 2:
		switch {
		case cs[1].text == "XX":
			return YEAR
		case cs[1].text == "0X" || cs[1].text == "1X":
			return MONTH
		}
	case 3:
		if cs[2].text == "XX" {
			if cs[1].text == "XX" {
				return YEAR
			}
			if digits(cs[1].text) {
				return MONTH
			}
		}
	}
	return 0
}

// IsPlain reports whether a string has the form of a date [-]YYYY[-MM[-DD]], whatever the numbers.
func IsPlain(s string) bool {
	cs, ok := comps(s)
	return ok && plain(cs)
}

func plain(cs []comp) bool {
	for _, c := range cs {
		if c.left != 0 || c.right != 0 {
			return false
		}
	}
	return !masked(cs)
}

// Evaluate returns what the model demands of a string given to the general parser.
func Evaluate(s string) Expect {
	switch {
	case s == "":
		e := Expect{Level: -1, Feature: "Unknown", Kind: "bare-unknown"}
		e.Start.Lower.State, e.Start.Upper.State = Unknown, Unknown
		e.End.Lower.State, e.End.Upper.State = Unknown, Unknown
		return e
	case s == "..":
		e := Expect{Level: -1, Feature: "Open", Kind: "bare-open"}
		e.Start.Lower.State, e.Start.Upper.State = Open, Open
		e.End.Lower.State, e.End.Upper.State = Open, Open
		return e
	case s[0] == '[' || s[0] == '{':
		return set(s)
	}
	if e, ok := namedSeason(s); ok {
		return e
	}
	switch {
	case strings.Contains(s, "/"):
		return interval(s)
	case s[0] == 'Y' || s[0] == 'y':
		return letterYear(s)
	case strings.Contains(s, "T"):
		return dateTime(s)
	case strings.Contains(s, "S"):
		return plainSignificant(s)
	}
	return date(s)
}

// date evaluates everything which consists of year, month and day components.
func date(s string) Expect {
	cs, ok := comps(s)
	if !ok {
		return refused("junk")
	}
	left, right, both := 0, 0, false
	for _, c := range cs {
		if c.left != 0 {
			left++
		}
		if c.right != 0 {
			right++
		}
		if c.left != 0 && c.right != 0 {
			both = true
		}
	}
	if both {
		return refused("double-qualified")
	}
	if left > 0 && right > 0 {
		return unspec("mixed-qualifiers")
	}
	if negZero(cs[0]) {
		return unspec("negative-zero")
	}
	last := cs[len(cs)-1]
	neg := cs[0].neg

	// grouping codes

	if len(cs) >= 2 && digits(cs[1].text) {
		if code := num(cs[1].text); code < 1 || code > 12 {
			if code < 21 || code > 41 || len(cs) == 3 {
				return refused("bad-month")
			}
			if left+right > 0 || masked(cs) {
				return unspec("decorated-grouping")
			}
			return grouping(cs, code)
		}
	}

	if masked(cs) {
		if left+right > 0 || neg {
			return unspec("decorated-mask")
		}
		return mask(cs)
	}

	sp, exists := dateSpan(cs)
	if !exists {
		return refused("nonexistent")
	}

	e := Expect{}
	single(&e, sp.a, sp.b)
	e.Start.EDTF, e.Start.EDTFKnown = s, true
	e.End.EDTF, e.End.EDTFKnown = s, true

	unc, app := flags(cs)
	e.Start.Uncertain, e.End.Uncertain = unc, unc
	e.Start.Approximate, e.End.Approximate = app, app

	switch {
	case left+right == 0:
		e.Level, e.Feature, e.Kind = 0, "Date", "date"
	case right == 1 && last.right != 0:
		e.Level, e.Feature, e.Kind = 1, "Qualification of a date (complete)", "qualified-date"
	case neg:
		return unspec("negative-qualified")
	case right > 0:
		e.Level, e.Feature, e.Kind = 2, "Qualification (Group)", "group-qualified"
	default:
		e.Level, e.Feature, e.Kind = 2, "Qualification (Individual)", "individually-qualified"
	}
	return e
}

func mask(cs []comp) Expect {
	y := cs[0].text
	if y[0] == 'X' {
		// any year will do: take the search over all years as satisfiable or not
		if _, ok := dateSpan(cs); ok {
			return Expect{Outcome: NotImplemented, Kind: "leading-x"}
		}
		return refused(LeadingXEmpty)
	}
	sp, ok := dateSpan(cs)
	if !ok {
		return refused("empty-mask")
	}
	e := Expect{Level: 2, Feature: "Unspecified Digit", Kind: "mask"}
	l1 := false
	switch len(cs) {
	case 1:
		l1 = digits(y[:3]) && y[3] == 'X' || digits(y[:2]) && y[2:] == "XX"
	case 2:
		l1 = digits(y) && cs[1].text == "XX"
	case 3:
		l1 = digits(y) && cs[2].text == "XX" && (cs[1].text == "XX" || digits(cs[1].text))
	}
	if l1 {
		e.Level, e.Feature = 1, "Unspecified digit(s) from the right"
	}
	single(&e, sp.a, sp.b)
	p := precision(cs)
	e.Start.Precision, e.End.Precision = p, p
	return e
}

// first and last month of the codes 25 to 41, in year or (months above 12) the following year
var groupings = map[int][2]int{
	21: {3, 5}, 22: {6, 8}, 23: {9, 11}, 24: {12, 14},
	25: {3, 5}, 26: {6, 8}, 27: {9, 11}, 28: {12, 14},
	29: {9, 11}, 30: {12, 14}, 31: {3, 5}, 32: {6, 8},
	33: {1, 3}, 34: {4, 6}, 35: {7, 9}, 36: {10, 12},
	37: {1, 4}, 38: {5, 8}, 39: {9, 12},
	40: {1, 6}, 41: {7, 12},
}

// GroupingSpan returns the first and last day of a grouping code.
func GroupingSpan(y, code int) (Day, Day) {
	g := groupings[code]
	a := Day{y, g[0], 1}
	y2, m2 := y, g[1]
	if m2 > 12 {
		y2, m2 = y+1, m2-12
	}
	return a, Day{y2, m2, MonthDays(y2, m2)}
}

func grouping(cs []comp, code int) Expect {
	y := num(cs[0].text)
	if cs[0].neg {
		y = -y
		if code > 24 {
			return unspec("negative-sub-year")
		}
	}
	return groupingExpect(y, code)
}

func groupingExpect(y, code int) Expect {
	a, b := GroupingSpan(y, code)
	if b.Y > 9999 {
		return unspec("winter-9999")
	}
	e := Expect{Level: 1, Feature: "Seasons", Kind: "season"}
	if code > 24 {
		e.Level, e.Feature, e.Kind = 2, "Sub-year groupings", "sub-year"
	}
	e.Start.Lower, e.End.Upper = a.first(), b.last()
	e.Start.Upper, e.End.Lower = Bound{Any: true}, Bound{Any: true}
	return e
}

func namedSeason(s string) (Expect, bool) {
	names := map[string]int{"spring": 21, "summer": 22, "fall": 23, "winter": 24}
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
		i++
	}
	code, ok := names[asciiLower(s[:i])]
	if asciiLower(s[:i]) == "autumn" && strings.Contains(s, ",") {
		return unspec("autumn"), true
	}
	if !ok {
		// Unicode case folding equates the long s with s: whether that counts as a letter case is left open
		if t := strings.ReplaceAll(s, "\u017f", "s"); t != s {
			if _, season := namedSeason(t); season {
				return unspec("folded-season"), true
			}
		}
		return Expect{}, false
	}
	rest := s[i:]
	k := strings.IndexByte(rest, ',')
	if k < 0 {
		return refused("bad-season"), true
	}
	pre, post := rest[:k], rest[k+1:]
	post2 := strings.TrimLeft(post, " \t\n\f\r\v")
	if strings.TrimLeft(pre, " \t\n\f\r\v") != "" {
		return refused("bad-season"), true
	}
	if len(post2) != 4 || !digits(post2) {
		if strings.HasPrefix(post2, "-") {
			return unspec("negative-named-season"), true
		}
		return refused("bad-season"), true
	}
	if strings.Trim(pre+post[:len(post)-4], " ") != "" || pre != "" {
		return unspec("season-spacing"), true
	}
	return groupingExpect(num(post2), code), true
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// yearExpect is the result for a spelled-out year.
func yearExpect(y int, e Expect) Expect {
	single(&e, Day{y, 1, 1}, Day{y, 12, 31})
	return e
}

var maxYear = big.NewInt(9999)

// Exponential evaluates mEn: ok is false if the year is out of range, known is false where the model does not say.
func Exponential(neg bool, mant, exp string) (y int, ok, known bool) {
	m := strings.TrimLeft(mant, "0")
	x := strings.TrimLeft(exp, "0")
	if m == "" {
		return 0, true, !neg && len(x) <= 8
	}
	if len(x) > 3 {
		return 0, false, true
	}
	v, _ := new(big.Int).SetString(m, 10)
	v.Mul(v, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(num(x))), nil))
	if v.Cmp(maxYear) > 0 {
		return 0, false, true
	}
	y = int(v.Int64())
	if neg {
		y = -y
	}
	return y, true, true
}

func letterYear(s string) Expect {
	body, sig, hasSig := strings.Cut(s[1:], "S")
	neg := strings.HasPrefix(body, "-")
	t := strings.TrimPrefix(body, "-")
	lower := s[0] == 'y' || strings.Contains(t, "e")
	if hasSig && !digits(sig) {
		return refused("bad-significant")
	}
	var y int
	e := Expect{}
	mant, exp, isExp := strings.Cut(strings.ReplaceAll(t, "e", "E"), "E")
	switch {
	case isExp:
		if !digits(mant) || !digits(exp) {
			return refused("bad-exponential")
		}
		if lower {
			return unspec("lower-case-year")
		}
		v, ok, known := Exponential(neg, mant, exp)
		if !known {
			return unspec("zero-exponential")
		}
		if !ok {
			return Expect{Outcome: Unsupported, Kind: "exponential-out-of-range"}
		}
		y = v
		e.Level, e.Feature, e.Kind = 2, "Exponential year", "exponential"
	case digits(t):
		if s[0] == 'y' {
			return refused("lower-case-year")
		}
		if len(t) > 4 && t[0] == '0' {
			return unspec("padded-long-year")
		}
		if len(t) < 4 {
			return unspec("short-letter-year")
		}
		if neg && num(t[:4]) == 0 {
			return unspec("negative-zero")
		}
		if len(t) > 4 {
			return Expect{Outcome: Unsupported, Kind: "year-out-of-range"}
		}
		y = num(t)
		if neg {
			y = -y
		}
		e.Level, e.Feature, e.Kind = 1, "Letter-prefixed calendar year", "letter-year"
	default:
		return refused("bad-letter-year")
	}
	if hasSig {
		return significant(y, sig)
	}
	return yearExpect(y, e)
}

func plainSignificant(s string) Expect {
	body, sig, _ := strings.Cut(s, "S")
	neg := strings.HasPrefix(body, "-")
	t := strings.TrimPrefix(body, "-")
	if len(t) != 4 || !digits(t) || !digits(sig) {
		return refused("bad-significant")
	}
	y := num(t)
	if neg {
		if y == 0 {
			return unspec("negative-zero")
		}
		y = -y
	}
	return significant(y, sig)
}

func significant(y int, sig string) Expect {
	n := strings.TrimLeft(sig, "0")
	switch {
	case n == "" || n != sig:
		return unspec("odd-significant-count")
	case len(n) > 1 || num(n) > 4:
		return refused("too-many-significant")
	}
	k := num(n)
	a := y
	if a < 0 {
		a = -a
	}
	p := 1
	for i := 0; i < k; i++ {
		p *= 10
	}
	if k > 1 && a < p/10 {
		return unspec("more-digits-than-year")
	}
	lo := a - a%p
	hi := lo + p - 1
	if y < 0 {
		if lo == 0 {
			return unspec("negative-zero")
		}
		lo, hi = -hi, -lo
	}
	e := Expect{Level: 2, Feature: "Significant digits", Kind: "significant"}
	e.Start = span{Day{lo, 1, 1}, Day{lo, 12, 31}}.side()
	e.End = span{Day{hi, 1, 1}, Day{hi, 12, 31}}.side()
	return e
}

func dateTime(s string) Expect {
	d, t, _ := strings.Cut(s, "T")
	cs, ok := comps(d)
	if !ok || !plain(cs) {
		return refused("bad-date-time")
	}
	if len(t) < 8 || t[2] != ':' || t[5] != ':' || !digits(t[:2]) || !digits(t[3:5]) || !digits(t[6:8]) {
		return refused("bad-date-time")
	}
	hh, mm, ss := num(t[:2]), num(t[3:5]), num(t[6:8])
	zone := t[8:]
	off := 0
	odd := false
	switch {
	case zone == "" || zone == "Z":
	case (zone[0] == '+' || zone[0] == '-') && (len(zone) == 3 && digits(zone[1:]) || len(zone) == 6 && zone[3] == ':' && digits(zone[1:3]) && digits(zone[4:])):
		oh, om := num(zone[1:3]), 0
		if len(zone) == 6 {
			om = num(zone[4:])
		}
		odd = oh > 23 || om > 59
		off = oh*3600 + om*60
		if zone[0] == '-' {
			off = -off
		}
	default:
		return refused("bad-date-time")
	}
	if len(cs) < 3 {
		return refused("reduced-date-time")
	}
	if m := num(cs[1].text); m < 1 || m > 12 {
		return refused("nonexistent")
	}
	if hh > 23 || mm > 59 || ss > 59 {
		return refused("bad-time")
	}
	if negZero(cs[0]) {
		return unspec("negative-zero")
	}
	sp, exists := dateSpan(cs)
	if !exists {
		return refused("nonexistent")
	}
	if odd {
		return unspec("odd-timeshift")
	}
	b := Bound{Sec: Sec(sp.a.Y, sp.a.M, sp.a.D, hh, mm, ss) - int64(off), NoYMD: true}
	if y, _, _, _, _, _ := Civil(b.Sec); y > 9999 || y < -9999 {
		return unspec("shifted-out-of-range")
	}
	e := Expect{Level: 0, Feature: "Date and Time", Kind: "date-time"}
	e.Start.Lower, e.Start.Upper, e.End.Lower, e.End.Upper = b, b, b, b
	return e
}

// end is one half of an interval.
type end struct {
	text   string
	state  State
	plain  bool
	lx     bool
	sp     span
	unc    uint32
	app    uint32
	prec   uint32
	result Expect // for anything but a proper end: outcome and kind
}

func intervalEnd(s string) end {
	x := end{text: s}
	switch s {
	case "":
		x.state = Unknown
		return x
	case "..":
		x.state = Open
		return x
	}
	cs, ok := comps(s)
	if !ok {
		switch e := Evaluate(s); {
		case e.Kind == "date-time":
			x.result = refused("date-time-end")
		case e.Outcome == OK || e.Outcome == Unspec || e.Outcome == Unsupported:
			x.result = unspec("odd-interval-end")
		default:
			x.result = refused("bad-interval-end")
		}
		return x
	}
	x.plain = plain(cs)
	x.lx = cs[0].text[0] == 'X'
	for _, c := range cs {
		if c.left != 0 && c.right != 0 {
			x.result = refused("double-qualified")
			return x
		}
	}
	for _, c := range cs {
		if c.right != 0 {
			x.result = unspec("right-qualified-end")
			return x
		}
	}
	if len(cs) >= 2 && digits(cs[1].text) {
		if m := num(cs[1].text); m < 1 || m > 12 {
			if m >= 21 && m <= 41 && len(cs) == 2 {
				x.result = unspec("grouping-end")
			} else {
				x.result = refused("bad-month")
			}
			return x
		}
	}
	if negZero(cs[0]) {
		x.result = unspec("negative-zero")
		return x
	}
	sp, exists := dateSpan(cs)
	if !exists {
		x.result = refused("nonexistent")
		if cs[0].text[0] == 'X' {
			x.result.Kind = LeadingXEmpty
		}
		return x
	}
	if cs[0].text[0] == 'X' {
		x.result = Expect{Outcome: NotImplemented, Kind: "leading-x"}
		return x
	}
	x.sp = sp
	x.unc, x.app = flags(cs)
	if masked(cs) {
		x.prec = precision(cs)
	}
	return x
}

// leadingX reports whether the end is a mask which begins with X.
func (x end) leadingX() bool { return x.lx }

// wellFormed reports whether nothing is wrong with the end but that there is no such date.
func (x end) wellFormed() bool {
	switch x.result.Kind {
	case "nonexistent", "bad-month", LeadingXEmpty:
		return true
	}
	return x.result.Outcome != Refused
}

func (x end) side() Side {
	s := Side{EDTF: x.text, EDTFKnown: true}
	if x.state != Dated {
		s.Lower.State, s.Upper.State = x.state, x.state
		return s
	}
	s.Lower, s.Upper = x.sp.a.first(), x.sp.b.last()
	s.Uncertain, s.Approximate, s.Precision = x.unc, x.app, x.prec
	return s
}

func interval(s string) Expect {
	parts := strings.Split(s, "/")
	if len(parts) != 2 {
		return refused("many-parts")
	}
	a, b := intervalEnd(parts[0]), intervalEnd(parts[1])
	ao, bo := a.result.Outcome, b.result.Outcome
	switch {
	case (a.leadingX() || b.leadingX()) && a.wellFormed() && b.wellFormed() && (ao == Refused || bo == Refused):
		return refused(LeadingXEmpty)
	case ao == Refused || bo == Refused:
		return refused("bad-interval")
	case ao == Unspec || bo == Unspec:
		return unspec("odd-interval")
	case ao == NotImplemented || bo == NotImplemented:
		// any refusal will do if the other end is open or unknown
		if a.state != Dated || b.state != Dated {
			return unspec("leading-x-open")
		}
		return Expect{Outcome: NotImplemented, Kind: "leading-x"}
	}
	e := Expect{}
	switch {
	case a.state != Dated && b.state != Dated:
		return unspec("open-open")
	case a.state != Dated:
		if !b.plain {
			return unspec("extended-open")
		}
		e.Level, e.Feature, e.Kind = 1, "Extended Interval (Start)", "open-start"
	case b.state != Dated:
		if !a.plain {
			return unspec("extended-open")
		}
		e.Level, e.Feature, e.Kind = 1, "Extended Interval (End)", "open-end"
	case a.plain && b.plain:
		e.Level, e.Feature, e.Kind = 0, "Time Interval", "interval"
	default:
		e.Level, e.Feature, e.Kind = 2, "Interval", "level2-interval"
	}
	e.Start, e.End = a.side(), b.side()
	return e
}

func set(s string) Expect {
	close := byte(']')
	incl := uint32(ANY)
	if s[0] == '{' {
		close = '}'
		incl = ALL
	}
	if len(s) < 2 || s[len(s)-1] != close {
		return refused("bad-set")
	}
	toks := strings.Split(s[1:len(s)-1], ",")
	var spans []span
	startOpen, endOpen, odd := false, false, false
	kind := "bad-set"
	one := func(t string) bool {
		if !IsPlain(t) {
			e := Evaluate(t)
			if e.Outcome == Refused && !Formless[e.Kind] {
				kind = "bad-set-member"
			}
			if t != "" && t != ".." && t[0] != '[' && t[0] != '{' && !strings.Contains(t, "/") && (e.Outcome == OK || e.Outcome == Unspec || e.Outcome == Unsupported || e.Outcome == NotImplemented) {
				odd = true
				return true
			}
			return false
		}
		kind = "bad-set-member"
		cs, _ := comps(t)
		if negZero(cs[0]) {
			odd = true
			return true
		}
		if len(cs) >= 2 {
			if m := num(cs[1].text); m >= 21 && m <= 41 && len(cs) == 2 {
				odd = true
				return true
			} else if m < 1 || m > 12 {
				return false
			}
		}
		sp, ok := dateSpan(cs)
		if !ok {
			return false
		}
		spans = append(spans, sp)
		kind = "bad-set"
		return true
	}
	for i, t := range toks {
		switch {
		case strings.HasPrefix(t, ".."):
			if i != 0 || !one(t[2:]) {
				return refused(kind)
			}
			startOpen = true
		case strings.HasSuffix(t, ".."):
			if i != len(toks)-1 || !one(t[:len(t)-2]) {
				return refused(kind)
			}
			endOpen = true
		default:
			if a, b, ok := strings.Cut(t, ".."); ok {
				if !one(a) || !one(b) {
					return refused(kind)
				}
			} else if !one(t) {
				return refused(kind)
			}
		}
	}
	if odd {
		return unspec("odd-set-member")
	}
	e := Expect{Level: 2, Feature: "Set representation", Kind: "set"}
	lo, hi := spans[0], spans[0]
	loTie, hiTie := false, false
	for _, sp := range spans[1:] {
		if sp.lower() < lo.lower() {
			lo, loTie = sp, false
		} else if sp.lower() == lo.lower() && sp != lo {
			loTie = true
		}
		if sp.upper() > hi.upper() {
			hi, hiTie = sp, false
		} else if sp.upper() == hi.upper() && sp != hi {
			hiTie = true
		}
	}
	any := Bound{Any: true}
	e.Start.Lower, e.Start.Upper = lo.a.first(), any
	e.End.Lower, e.End.Upper = any, hi.b.last()
	if !startOpen && !endOpen && lo != hi && !loTie && !hiTie {
		e.Start.Upper = lo.b.last()
		e.End.Lower = hi.a.first()
	}
	if lo == hi && !loTie && !hiTie && !spansDiffer(spans) {
		single(&e, lo.a, lo.b)
	}
	e.Start.Inclusivity, e.End.Inclusivity = incl, incl
	if startOpen {
		e.Start = Side{Lower: Bound{State: Open}, Upper: Bound{State: Open}}
		e.End.Lower = lo.a.first()
	}
	if endOpen {
		e.End = Side{Lower: Bound{State: Open}, Upper: Bound{State: Open}}
		if !startOpen {
			e.Start.Upper = hi.b.last()
		}
	}
	return e
}

// spansDiffer reports whether there are two different spans.
func spansDiffer(spans []span) bool {
	for _, sp := range spans {
		if sp != spans[0] {
			return true
		}
	}
	return false
}
