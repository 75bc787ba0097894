// Package model is an independent reference model of the EDTF expressions which go-edtf documents: what they denote,
// under which level and feature they are documented, or that they are to be refused. It uses no regular expressions,
// no package time and nothing of the code under test.
package model

// Leap reports whether a year of the proleptic Gregorian calendar, with astronomical numbering, is a leap year.
func Leap(y int) bool {
	return mod(y, 4) == 0 && (mod(y, 100) != 0 || mod(y, 400) == 0)
}

func mod(a, b int) int {
	r := a % b
	if r < 0 {
		r += b
	}
	return r
}

func floordiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// MonthDays returns the number of days in a month, or 0 if there is no such month.
func MonthDays(y, m int) int {
	switch m {
	case 1, 3, 5, 7, 8, 10, 12:
		return 31
	case 4, 6, 9, 11:
		return 30
	case 2:
		if Leap(y) {
			return 29
		}
		return 28
	}
	return 0
}

var cumulative = [13]int{0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}

// DayNumber returns the number of days from 1970-01-01.
func DayNumber(y, m, d int) int64 {
	// days before year y, counted from year 0
	p := y - 1
	n := 365*y + floordiv(p, 4) - floordiv(p, 100) + floordiv(p, 400)
	n += cumulative[m] + d - 1
	if m > 2 && Leap(y) {
		n++
	}
	return int64(n) - epoch
}

var epoch int64

func init() {
	epoch = 0
	epoch = DayNumber(1970, 1, 1)
}

// FromDayNumber is the inverse of DayNumber.
func FromDayNumber(n int64) (y, m, d int) {
	y = 1970 + int(floordiv(int(n), 366))
	for DayNumber(y+1, 1, 1) <= n {
		// converge from below, in big steps first
		gap := int((n - DayNumber(y+1, 1, 1)) / 366)
		y += 1 + gap
	}
	for DayNumber(y, 1, 1) > n {
		y--
	}
	rest := int(n - DayNumber(y, 1, 1))
	m = 1
	for rest >= MonthDays(y, m) {
		rest -= MonthDays(y, m)
		m++
	}
	return y, m, rest + 1
}

// Sec returns the Unix timestamp of a moment.
func Sec(y, m, d, hh, mm, ss int) int64 {
	return DayNumber(y, m, d)*86400 + int64(hh*3600+mm*60+ss)
}

// Civil is the inverse of Sec.
func Civil(sec int64) (y, m, d, hh, mm, ss int) {
	day := sec / 86400
	rest := sec % 86400
	if rest < 0 {
		rest += 86400
		day--
	}
	y, m, d = FromDayNumber(day)
	return y, m, d, int(rest / 3600), int(rest / 60 % 60), int(rest % 60)
}

// YearText returns the four-digit spelling of a year.
func YearText(y int) string {
	s := ""
	if y < 0 {
		s = "-"
		y = -y
	}
	return s + Pad(y, 4)
}

// Pad returns n, which must not be negative, with at least w digits.
func Pad(n, w int) string {
	b := make([]byte, 0, 8)
	for n > 0 || w > 0 {
		b = append(b, byte('0'+n%10))
		n /= 10
		w--
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// RFC3339 returns the UTC text of a moment, with a sign for years before 0.
func RFC3339(sec int64) string {
	y, m, d, hh, mm, ss := Civil(sec)
	return YearText(y) + "-" + Pad(m, 2) + "-" + Pad(d, 2) + "T" + Pad(hh, 2) + ":" + Pad(mm, 2) + ":" + Pad(ss, 2) + "Z"
}
