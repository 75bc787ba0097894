// C21: calendar helpers follow the proleptic Gregorian calendar.
package main

import (
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/common"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

type ym struct {
	Y int `json:"y"`
	M int `json:"m"`
}

// leap: a BCE year counts as its magnitude, of which the model's calendar is a mirror image.
func days(y, m int) int { return model.MonthDays(y, m) }

func checkMonth(c ym, o *engine.Obs) {
	n, err := calendar.DaysInMonth(c.Y, c.M)
	if c.M < 1 || c.M > 12 {
		o.Class("no such month")
		o.NonTrivial()
		if err == nil {
			o.Failf("month %d of year %d has %d days", c.M, c.Y, n)
		}
		if c.M < 0 {
			return
		}
		s := model.YearText(c.Y) + "-" + model.Pad(c.M, 2)
		if n, err := calendar.DaysInMonthWithString(s); err == nil {
			o.Failf("%s has %d days", s, n)
		}
		return
	}
	want := days(c.Y, c.M)
	if c.M == 2 || c.Y <= 0 || c.M == 12 {
		o.NonTrivial()
	}
	if err != nil || n != want {
		o.Failf("month %d of year %d: %d days, %v; expected %d", c.M, c.Y, n, err, want)
	}
	s := model.YearText(c.Y) + "-" + model.Pad(c.M, 2)
	texts := []string{s}
	if c.Y == 0 {
		texts = append(texts, "-"+s)
	}
	for _, s := range texts {
		n, err = calendar.DaysInMonthWithString(s)
		if err != nil || n != want {
			o.Failf("%s: %d days, %v; expected %d", s, n, err, want)
		}
	}
}

func checkMonthText(c engine.Str, o *engine.Obs) {
	o.NonTrivial()
	if n, err := calendar.DaysInMonthWithString(string(c)); err == nil {
		o.Failf("%q has %d days", c, n)
	}
}

// parts are the components of a date: those which are negative are missing, unless it is the year.
type parts struct {
	Y int `json:"y"`
	M int `json:"m"`
	D int `json:"d"`
	// Short leaves out the leading zeroes of months and days.
	Short bool `json:"short,omitempty"`
}

func same(what string, got *edtf.YMD, err error, y, m, d int, ok bool, o *engine.Obs) {
	switch {
	case (got == nil) == (err == nil):
		o.Failf("%s yields %v and %v", what, got, err)
	case ok && err != nil:
		o.Failf("%s is refused: %v", what, err)
	case !ok && err == nil:
		o.Failf("%s yields %v", what, got)
	case ok && (got.Year != y || got.Month != m || got.Day != d):
		o.Failf("%s yields %v, expected %d %d %d", what, got, y, m, d)
	}
}

func checkParts(c parts, o *engine.Obs) {
	sy, sm, sd := model.YearText(c.Y), "", ""
	width := 2
	if c.Short {
		width = 1
	}
	y, m, d := c.Y, 1, 0
	ok := y >= -9999 && y <= 9999
	if c.M >= 0 {
		sm = model.Pad(c.M, width)
		m = c.M
		ok = ok && m >= 1 && m <= 12
	} else if c.D >= 0 {
		ok = false
	}
	if ok {
		d = days(y, m)
	}
	if c.D >= 0 {
		sd = model.Pad(c.D, width)
		ok = ok && c.D >= 1 && c.D <= d
		d = c.D
	}
	if ok {
		o.Class("exists")
	} else {
		o.Class("does not exist")
	}
	if !ok || c.M < 0 || c.D < 0 || y < 0 {
		o.NonTrivial()
	}

	got, err := common.YMDFromStrings(sy, sm, sd)
	same("YMDFromStrings("+sy+", "+sm+", "+sd+")", got, err, y, m, d, ok, o)
	got, err = common.YMDFromStringDate(&common.StringDate{Year: sy, Month: sm, Day: sd})
	same("YMDFromStringDate("+sy+", "+sm+", "+sd+")", got, err, y, m, d, ok, o)

	if c.M >= 0 || c.D < 0 {
		s := sy
		if sm != "" {
			s += "-" + sm
		}
		if sd != "" {
			s += "-" + sd
		}
		got, err = common.YMDFromString(s)
		same("YMDFromString("+s+")", got, err, y, m, d, ok, o)
	}
}

// moment is a day and a time of day.
type moment struct {
	Y    int `json:"y"`
	M    int `json:"m"`
	D    int `json:"d"`
	H    int `json:"hh"`
	Min  int `json:"mm"`
	S    int `json:"ss"`
	Nano int `json:"nano"`
	Zone int `json:"zone"`
}

func checkMoment(c moment, o *engine.Obs) {
	exists := c.M >= 1 && c.M <= 12 && c.D >= 1 && c.D <= days(c.Y, c.M)
	hms := model.Pad(c.H, 2) + ":" + model.Pad(c.Min, 2) + ":" + model.Pad(c.S, 2)
	timed := c.H <= 23 && c.Min <= 59 && c.S <= 59
	text := model.YearText(c.Y) + "-" + model.Pad(c.M, 2) + "-" + model.Pad(c.D, 2) + " " + hms
	if c.Y <= 0 || c.D > 28 || !timed {
		o.NonTrivial()
	}

	expect := func(what string, t *time.Time, err error) {
		if (t == nil) == (err == nil) {
			o.Failf("%s of %s yields %v and %v", what, text, t, err)
		}
		if !exists || !timed {
			if err == nil {
				o.Failf("%s of %s, which does not exist, yields %v", what, text, t)
			}
			return
		}
		if err != nil {
			o.Failf("%s of %s: %v", what, text, err)
		}
		if want := model.Sec(c.Y, c.M, c.D, c.H, c.Min, c.S); t.Unix() != want || t.Nanosecond() != 0 || t.Location() != time.UTC {
			o.Failf("%s of %s yields %v (%d), expected %s", what, text, t, t.Unix(), model.RFC3339(want))
		}
	}
	t, err := common.TimeWithYMDString(model.YearText(c.Y), model.Pad(c.M, 2), model.Pad(c.D, 2), hms)
	expect("TimeWithYMDString", t, err)
	ymd := &edtf.YMD{Year: c.Y, Month: c.M, Day: c.D}
	t, err = common.TimeWithYMD(ymd, hms)
	expect("TimeWithYMD", t, err)
	if ymd.Year != c.Y || ymd.Month != c.M || ymd.Day != c.D {
		o.Failf("TimeWithYMD has changed its argument to %v", ymd)
	}

	if !exists || !timed {
		o.Class("refused")
		return
	}
	o.Class("exists")
	loc := time.UTC
	if c.Zone != 0 {
		loc = time.FixedZone("zone", c.Zone*60)
	}
	a := time.Date(c.Y, time.Month(c.M), c.D, c.H, c.Min, c.S, c.Nano, loc)
	b := common.TimeToBCE(a)
	if b.Year() != -c.Y || int(b.Month()) != c.M || b.Day() != c.D || b.Hour() != c.H || b.Minute() != c.Min || b.Second() != c.S || b.Nanosecond() != c.Nano || b.Location() != loc {
		o.Failf("%v turned to BCE is %v", a, b)
	}
	if got := common.FlipYear(c.Y); got != -c.Y {
		o.Failf("the year %d is flipped to %d", c.Y, got)
	}
}

type two struct {
	A parts `json:"a"`
	B parts `json:"b"`
}

func checkEquals(c two, o *engine.Obs) {
	a := &edtf.YMD{Year: c.A.Y, Month: c.A.M, Day: c.A.D}
	b := &edtf.YMD{Year: c.B.Y, Month: c.B.M, Day: c.B.D}
	o.NonTrivial()
	o.Class("equal: %v", c.A == c.B)
	if a.Equals(b) != (c.A == c.B) || b.Equals(a) != (c.A == c.B) || !a.Equals(a) {
		o.Failf("%v equals %v: %v", a, b, a.Equals(b))
	}
}

func someParts(t *rapid.T) parts {
	p := parts{gen.Year(t), gen.Int(t, "month", -1, 13), gen.Int(t, "day", -1, 32), gen.Chance(t, "short", 3)}
	switch gen.Int(t, "kind", 0, 9) {
	case 0:
		p.Y = gen.Pick(t, "far", 10000, -10000, 12004, 99999, -99999, 10001, 1000000)
	case 1:
		p.M = gen.Int(t, "month", 13, 99)
	case 2:
		p.D = gen.Int(t, "day", 32, 99)
	case 3:
		p.M, p.D = 2, gen.Pick(t, "day", 28, 29, 30, -1)
	}
	// what a day or a month of 00 means is left open
	if p.M == 0 {
		p.M = 1
	}
	if p.D == 0 {
		p.D = 31
	}
	return p
}

var malformed = []string{"", "-", "2004", "-2004", "2004-13", "2004-00", "-2004-13", "-2004-00", "2004-99", "2004-02-01", "-2004-02-01", "2004-02-01-01", "2004/02", "XXXX-02", "2004-XX", "200X-02", "2004-1X", "2004-", "-02", "--02", "Y2004-02", "2004-02?", "2004-ab", "abcd-02", "0000-13", "0000-00", "9999-13", "2004-02-"}

func main() {
	engine.Main(engine.Check{
		ID: "C21",
		Assumptions: []string{
			"the reference calendar of harness/internal/model is right",
			"what a month or day of '00' means, and unpadded years, are left open",
		},
		Exhaustive: true,
		Legs: oracle.Legs(
			engine.Leg[ym]{
				Name: "months",
				Rule: "the months -1 to 14 of every year from -9999 to 9999, as numbers and as strings; non-trivial if there is no such month, it is February or December, or the year is not positive",
				Sweep: func(_ bool, emit func(ym) bool) {
					for y := -9999; y <= 9999; y++ {
						for m := -1; m <= 14; m++ {
							if !emit(ym{y, m}) {
								return
							}
						}
					}
				},
				Gen: func(t *rapid.T) ym {
					return ym{gen.Year(t), gen.Pick(t, "month", 0, 13, -1, 15, 99, 24, 100, -12, 25, 1<<31, -1<<31)}
				},
				Quick: 5000, Thorough: 50000,
				Check: checkMonth,
			},
			engine.Leg[engine.Str]{
				Name: "malformed-months",
				Rule: "strings which are not of the form YYYY-MM; non-trivial always",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					for _, s := range malformed {
						if !emit(engine.Str(s)) {
							return
						}
					}
				},
				Gen: func(t *rapid.T) engine.Str {
					y, m := gen.Y(t), model.Pad(gen.Month(t), 2)
					return engine.Str(gen.Pick(t, "form", y, y+"-"+m+"-"+model.Pad(gen.Int(t, "day", 1, 31), 2), y+"/"+m, y+"-"+m+"-", "X"+y+"-"+m, y+"-"+m+"X", y+"-1"+m, y+"--"+m, "--"+y+"-"+m))
				},
				Quick: 5000, Thorough: 50000,
				Check: checkMonthText,
			},
			engine.Leg[parts]{
				Name: "all-dates",
				Rule: "conversion of the days 01 to 32 of the months 01 to 13, and of missing days and months, of every year from -9999 to 9999, and of some beyond; non-trivial if a component is missing, the date does not exist, or the year is negative",
				Sweep: func(_ bool, emit func(parts) bool) {
					years := []int{-10001, -10000, 10000, 10001, 12004, 2004, 1900, 2000, 0, -4, -1, 1, -100, -400}
					for y := -9999; y <= 9999; y++ {
						years = append(years, y)
					}
					for _, y := range years {
						for m := -1; m <= 13; m++ {
							for d := -1; d <= 32; d++ {
								if m == 0 || d == 0 {
									continue
								}
								if !emit(parts{Y: y, M: m, D: d}) {
									return
								}
							}
						}
					}
				},
				Gen:   someParts,
				Quick: 60000, Thorough: 500000,
				Check: checkParts,
			},
			engine.Leg[parts]{
				Name: "negative-components",
				Rule: "conversion of dates with a negative month or day; non-trivial always",
				Gen: func(t *rapid.T) parts {
					p := parts{Y: gen.Year(t), M: -gen.Int(t, "month", 1, 12), D: gen.Int(t, "day", 1, 28)}
					if rapid.Bool().Draw(t, "which") {
						p.M, p.D = -p.M, -p.D
					}
					return p
				},
				Quick: 5000, Thorough: 50000,
				Check: func(c parts, o *engine.Obs) {
					o.NonTrivial()
					sign := func(n int) string {
						if n < 0 {
							return "-" + model.Pad(-n, 2)
						}
						return model.Pad(n, 2)
					}
					y, m, d := model.YearText(c.Y), sign(c.M), sign(c.D)
					got, err := common.YMDFromStrings(y, m, d)
					same("YMDFromStrings("+y+", "+m+", "+d+")", got, err, 0, 0, 0, false, o)
				},
			},
			engine.Leg[moment]{
				Name: "times",
				Rule: "times made from random days and times of day which mostly exist, turned to BCE in several zones, and years flipped; non-trivial if the year is not positive, the day is beyond the 28th or the time does not exist",
				Gen: func(t *rapid.T) moment {
					c := moment{Y: gen.Year(t), M: gen.Month(t), H: gen.Int(t, "hh", 0, 23), Min: gen.Int(t, "mm", 0, 59), S: gen.Int(t, "ss", 0, 59)}
					c.D = gen.Day(t, c.Y, c.M)
					if gen.Chance(t, "fraction", 3) {
						c.Nano = gen.Int(t, "nano", 0, 999999999)
					}
					c.Zone = gen.Pick(t, "zone", 0, 0, 60, -300, 330, 840, -660)
					switch gen.Int(t, "kind", 0, 9) {
					case 0:
						c.D = gen.Int(t, "day", 29, 32)
					case 1:
						c.M, c.D = 2, gen.Int(t, "day", 28, 30)
					case 2:
						c.H, c.Min, c.S = gen.Int(t, "hh", 23, 24), gen.Int(t, "mm", 59, 60), gen.Int(t, "ss", 59, 60)
					case 3:
						c.H, c.Min, c.S = 0, 0, 0
					case 4:
						c.H, c.Min, c.S = 23, 59, 59
					}
					return c
				},
				Quick: 100000, Thorough: 3000000,
				Check: checkMoment,
			},
			engine.Leg[two]{
				Name: "equality",
				Rule: "pairs of year-month-days which differ in none, one or more components; non-trivial always",
				Gen: func(t *rapid.T) two {
					a := someParts(t)
					b := a
					if gen.Chance(t, "year", 3) {
						b.Y = gen.Pick(t, "how", -a.Y, a.Y+1, gen.Year(t))
					}
					if gen.Chance(t, "month", 3) {
						b.M = gen.Int(t, "month", 0, 12)
					}
					if gen.Chance(t, "day", 3) {
						b.D = gen.Int(t, "day", 0, 31)
					}
					if gen.Chance(t, "none", 4) {
						*gen.Pick(t, "which", &a.M, &a.D, &a.Y) = 0
					}
					b.Short = a.Short
					return two{a, b}
				},
				Quick: 20000, Thorough: 300000,
				Check: checkEquals,
			},
			engine.History(engine.Leg[ym]{
				Name:  "months",
				Gen:   func(t *rapid.T) ym { return ym{gen.Year(t), gen.Int(t, "month", 0, 13)} },
				Check: checkMonth,
			}, 20000, 600000, func(t *rapid.T, c ym) ym {
				switch gen.Int(t, "as", 0, 5) {
				case 0:
					c.M = 2
				case 1:
					c.M = gen.Pick(t, "month", 1, 12, 0, 13, 11, 10)
				case 2:
					c.Y = -c.Y
				case 3:
					c.Y += gen.Pick(t, "years", 1, -1, 4, 10, 100, -100, 400, 1000, 1024, 4096, 256)
				case 4:
					c.Y, c.M = c.Y+gen.Pick(t, "year", 1, -1), gen.Pick(t, "month", 2, 12, 1)
				case 5:
					c.Y = gen.Year(t)
				}
				if c.Y < -9999 || c.Y > 9999 {
					c.Y %= 9999
				}
				return c
			}),
		),
	})
}
