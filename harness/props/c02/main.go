// C02: date-and-time expressions denote one exact instant.
package main

import (
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

const aspects = oracle.Bounds

func shifts(thorough bool, emit func(string) bool) {
	bases := []string{"0000-01-01T00:00:00", "-0001-12-31T23:59:59", "2004-02-29T12:30:15", "-0004-03-01T00:30:00", "1900-03-01T00:00:00", "9998-12-31T23:59:59", "-0100-02-28T23:00:00", "1969-12-31T23:59:59"}
	if thorough {
		bases = append(bases, "0001-01-01T00:00:00", "0000-12-31T23:59:59", "2000-02-28T23:59:59", "-0005-12-31T20:00:01", "-9998-01-01T00:00:00", "0000-02-29T06:00:00", "1582-10-15T00:00:00", "2038-01-19T03:14:08", "2021-03-28T02:30:00", "2021-11-07T01:30:00", "-0401-02-28T23:59:59", "0999-12-31T12:00:00")
	}
	for _, b := range bases {
		if !emit(b) || !emit(b+"Z") {
			return
		}
		for _, sign := range []string{"+", "-"} {
			for h := 0; h < 24; h++ {
				if !emit(b + sign + model.Pad(h, 2)) {
					return
				}
				for m := 0; m < 60; m++ {
					if !thorough && m%5 != 0 && m != 59 && m != 1 {
						continue
					}
					if !emit(b + sign + model.Pad(h, 2) + ":" + model.Pad(m, 2)) {
						return
					}
				}
			}
		}
	}
}

// days enumerates the first and last second of the days around the ends of February, of every year.
func days(_ bool, emit func(string) bool) {
	for y := -9998; y <= 9998; y++ {
		for _, s := range []string{"-02-28T23:59:59-01", "-02-29T00:00:00Z", "-03-01T00:00:00+00:01", "-01-01T00:00:00+12", "-12-31T23:59:59", "-12-31T12:00:00-13:45"} {
			if !emit(model.YearText(y) + s) {
				return
			}
		}
	}
}

// everyDay enumerates the days of all years, each with some time of day and some
// timeshift.
func everyDay(_ bool, emit func(string) bool) {
	n := uint32(0)
	for y := -9998; y <= 9998; y++ {
		for m := 1; m <= 12; m++ {
			for d := 1; d <= model.MonthDays(y, m); d++ {
				n++
				h := n * 2654435761
				s := model.YearText(y) + "-" + model.Pad(m, 2) + "-" + model.Pad(d, 2) + "T" + model.Pad(int(h>>8%24), 2) + ":" + model.Pad(int(h>>13%60), 2) + ":" + model.Pad(int(h>>19%60), 2)
				switch h >> 5 % 5 {
				case 0:
					s += "Z"
				case 1:
					s += "+" + model.Pad(int(h>>3%24), 2)
				case 2:
					s += "-" + model.Pad(int(h>>3%24), 2)
				case 3:
					s += "+" + model.Pad(int(h>>3%24), 2) + ":" + model.Pad(int(h>>11%60), 2)
				case 4:
					s += "-" + model.Pad(int(h>>3%24), 2) + ":" + model.Pad(int(h>>11%60), 2)
				}
				if !emit(s) {
					return
				}
			}
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C02",
		Assumptions: []string{
			"the reference calendar in harness/internal/model is right; it is written without package time",
			"timeshifts of more than 23 hours or 59 minutes, and shifts which leave the years -9999..9999, are left open",
		},
		Legs: oracle.WithHistory("random", 20000, 600000,
			oracle.SweepLeg("shifts", "every timeshift of hours and of hours and minutes (quick: every fifth minute), applied to dates at month, leap day, year and era boundaries; the workers run in different local time zones", shifts, aspects),
			oracle.SweepLeg("days", "shifts across the ends of February and of the year, for every year", days, aspects),
			oracle.SweepLeg("every-day", "every day of every year, with some time of day and timeshift", everyDay, aspects),
			oracle.ModelLeg("random", "valid dates and times with and without timeshift, and some with nonexistent dates or times; the workers run in different local time zones", func(t *rapid.T) string {
				switch gen.Int(t, "kind", 0, 7) {
				case 0:
					return gen.LooseDate(t) + "T" + gen.Clock(t) + gen.Shift(t)
				case 1:
					return gen.YMD(t) + "T" + gen.LooseClock(t) + gen.Shift(t)
				}
				return gen.DateTime(t)
			}, 300000, 8000000, aspects),
		),
	})
}
