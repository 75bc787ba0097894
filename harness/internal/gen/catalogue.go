package gen

import (
	"strconv"

	"verif/harness/internal/model"
)

// Catalogue holds well-formed expressions of every feature, starting points for the enumeration of near misses.
var Catalogue = []string{
	"1985", "1985-04", "1985-04-12", "-1985", "-1985-04", "-1985-04-12", "0000", "2004-02-29", "9999-12-31",
	"1985-04-12T23:20:30", "1985-04-12T23:20:30Z", "1985-04-12T23:20:30-04", "1985-04-12T23:20:30+04:30", "-0001-04-12T23:20:30-04:30",
	"1964/2008", "2004-06/2006-08", "2004-02-01/2005-02-08", "-0200/0030", "2005/2006-02", "2004-02-01/2005",
	"../1985-04-12", "/1985-04-12", "1985-04/..", "1985/", "-0044/..", "/-0044-03",
	"Y1985", "Y-1985", "Y170000002", "Y-17000000",
	"2001-21", "2001-24", "-0100-22", "Spring, 2001", "winter, 2001", "Fall,1985",
	"1984?", "2004-06~", "2004-06-11%", "201X", "20XX", "2004-XX", "1985-04-XX", "1985-XX-XX",
	"Y17E7", "Y1E3", "Y-2E3", "Y1985E0", "1950S2", "Y1950S1", "Y-1950S3", "Y3388E2S3", "Y1E3S2", "-1950S2",
	"2001-25", "2001-33", "2001-37", "2001-41",
	"[1667,1668,1670..1672]", "[..1760-12-03]", "[1760-12..]", "[1667,1760-12]", "{1667,1668,1670..1672}", "{1960,1961-12}", "[-0050,0050]", "[..1984]", "{..1960,1970..}", "[1667]",
	"156X-12-25", "15XX-12-25", "XXXX-12-XX", "1XXX-XX", "1XXX-12", "1984-1X", "19X0-X1-2X", "1985-X2-30",
	"2004-06~-11", "2004?", "?2004-06-~11", "2004-%06-11", "2004?-06-11", "?2004-06-04~", "~2004", "2011-~06~",
	"2004-06-~01/2004-06-~20", "2004-06-XX/2004-07-03", "?1985/..", "-19XX/19XX", "2004-XX/2005-02-3X", "..", "", "open", "uuuu", "../..", "/", "1985/../1986",
}

// Near enumerates the strings which differ from those of the catalogue by one edit, or by an addition at either end.
func Near(emit func(string) bool) {
	seen := map[string]bool{}
	out := func(s string) bool {
		if seen[s] {
			return true
		}
		seen[s] = true
		return emit(s)
	}
	for _, s := range Catalogue {
		if !out(s) {
			return
		}
		for i := 0; i <= len(s); i++ {
			for _, a := range alphabet {
				if !out(s[:i] + a + s[i:]) {
					return
				}
				if i < len(s) && !out(s[:i]+a+s[i+1:]) {
					return
				}
			}
			if i < len(s) && !out(s[:i]+s[i+1:]) {
				return
			}
			if !out(s[:i]) || !out(s[i:]) {
				return
			}
			if i < len(s)-1 && !out(s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:]) {
				return
			}
		}
		for _, x := range Catalogue {
			for _, sep := range []string{"", "/", ",", " ", "-", "..", "\n"} {
				if !out(s + sep + x) {
					return
				}
			}
		}
	}
}

// YearsRule describes what EveryYear enumerates.
const YearsRule = "an expression of every form for every year from -9999 to 9999: dates, times, seasons, groupings, intervals, sets, qualified dates, unspecified digits and Y-prefixed, exponential and significant-digit years"

// EveryYear enumerates expressions of every form for every year. The other components vary with the year.
func EveryYear(emit func(string) bool) {
	for y := -9999; y <= 9999; y++ {
		ys := model.YearText(y)
		h := uint32(y+10000) * 2654435761
		pick := func(n int) int {
			h = h*1664525 + 1013904223
			return int((h >> 8) % uint32(n))
		}
		m := pick(12) + 1
		d := pick(model.MonthDays(y, m)) + 1
		if pick(6) == 0 {
			m, d = 2, model.MonthDays(y, 2)
		}
		ms := ys + "-" + model.Pad(m, 2)
		ds := ms + "-" + model.Pad(d, 2)
		q := [3]string{"?", "~", "%"}[pick(3)]
		r := [3]string{"?", "~", "%"}[pick(3)]
		then := model.YearText(min(y+pick(60), 9999))
		out := []string{
			ys, ms, ds, ds + "T" + model.Pad(pick(24), 2) + ":" + model.Pad(pick(60), 2) + ":" + model.Pad(pick(60), 2) + [5]string{"", "Z", "+01", "-05:30", "+12:45"}[pick(5)],
			ys + "-" + model.Pad(21+pick(4), 2),
			ys + "/" + then, ms + "/" + then, ds + "/" + ds, ys + "/..", "../" + ms, ds + "/", "/" + ys, ms + "/" + r + then,
			ys + q, ms + q, ds + q, q + ys, ys + "-" + r + model.Pad(m, 2), ms + "-" + q + model.Pad(d, 2), q + ds, ys + q + "-" + model.Pad(m, 2) + "-" + model.Pad(d, 2), q + ys + "/" + then,
			"[" + ys + "]", "{" + ms + "," + then + "}", "[" + ys + ".." + then + "]", "{.." + ds + "}", "[" + then + "," + ms + "..]", "{" + ds + "}",
			"Y" + ys, ys + "S2", "Y" + ys + "S1", "Y" + strconv.Itoa(y) + "E" + strconv.Itoa(pick(3)), "Y" + strconv.Itoa(y*10+pick(10)),
		}
		if y >= 0 {
			x := ys[:3] + "X"
			out = append(out, ys+"-"+model.Pad(25+pick(17), 2), [4]string{"spring", "Summer", "Fall", "WINTER"}[pick(4)]+", "+ys,
				x, ys[:2]+"XX", ys[:1]+"XXX", ys+"-XX", ys+"-XX-XX", ms+"-XX", ys+"-1X", x+"-"+model.Pad(m, 2), x+ds[4:], ys[:2]+"XX"+ds[4:], "X"+ys[1:]+"-XX", ms+"-X9", x+"/"+then, ys+"/"+ms+"-XX", then+"-XX/"+x)
		}
		for _, s := range out {
			if !emit(s) {
				return
			}
		}
	}
}
