// C14: the JSON encoding of results is faithful and round-trips.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

// object decodes a JSON object, keeping numbers as they are written.
func object(b []byte, o *engine.Obs) map[string]any {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var m map[string]any
	if err := dec.Decode(&m); err != nil {
		o.Failf("the encoding %s is not a JSON object: %v", b, err)
	}
	return m
}

// fields checks that an object has certain keys, and no others but optional ones.
func fields(where string, m map[string]any, required, optional string, o *engine.Obs) {
	allowed := map[string]bool{}
	for _, k := range strings.Fields(required) {
		allowed[k] = true
		if _, ok := m[k]; !ok {
			o.Failf("%s lacks %q", where, k)
		}
	}
	for _, k := range strings.Fields(optional) {
		allowed[k] = true
	}
	for k := range m {
		if !allowed[k] {
			o.Failf("%s has %q", where, k)
		}
	}
}

func number(where string, v any, want int64, o *engine.Obs) {
	n, ok := v.(json.Number)
	if !ok || n.String() != strconv.FormatInt(want, 10) {
		o.Failf("%s is %v, expected %d", where, v, want)
	}
}

func text(where string, v any, want string, o *engine.Obs) {
	if s, ok := v.(string); !ok || s != want {
		o.Failf("%s is %v, expected %q", where, v, want)
	}
}

func encodedDate(where string, v any, d *edtf.Date, o *engine.Obs) {
	m, ok := v.(map[string]any)
	if !ok {
		o.Failf("%s is %v", where, v)
	}
	fields(where, m, "ymd", "datetime timestamp uncertain approximate unspecified precision open unknown inclusivity", o)
	if d.DateTime == "" {
		if _, ok := m["datetime"]; ok {
			o.Failf("%s has a datetime", where)
		}
	} else {
		text(where+" datetime", m["datetime"], d.DateTime, o)
	}
	if d.Timestamp == nil {
		if _, ok := m["timestamp"]; ok {
			o.Failf("%s has a timestamp", where)
		}
	} else {
		number(where+" timestamp", m["timestamp"], d.Timestamp.Unix(), o)
	}
	if d.YMD == nil {
		if m["ymd"] != nil {
			o.Failf("%s has the year-month-day %v", where, m["ymd"])
		}
	} else {
		y, ok := m["ymd"].(map[string]any)
		if !ok {
			o.Failf("%s has the year-month-day %v", where, m["ymd"])
		}
		fields(where+" ymd", y, "year month day", "", o)
		number(where+" year", y["year"], int64(d.YMD.Year), o)
		number(where+" month", y["month"], int64(d.YMD.Month), o)
		number(where+" day", y["day"], int64(d.YMD.Day), o)
	}
	for k, f := range map[string]edtf.Precision{"uncertain": d.Uncertain, "approximate": d.Approximate, "unspecified": d.Unspecified, "precision": d.Precision, "inclusivity": d.Inclusivity} {
		got, ok := m[k]
		if ok != (f != 0) {
			o.Failf("%s: %s is %v, expected %d", where, k, got, f)
		}
		if ok {
			number(where+" "+k, got, int64(f), o)
		}
	}
	for k, f := range map[string]bool{"open": d.Open, "unknown": d.Unknown} {
		got, ok := m[k]
		if ok != f || ok && got != true {
			o.Failf("%s: %s is %v, expected %v", where, k, got, f)
		}
	}
}

func encodedRange(where string, v any, r *edtf.DateRange, o *engine.Obs) {
	m, ok := v.(map[string]any)
	if !ok {
		o.Failf("%s is %v", where, v)
	}
	fields(where, m, "edtf lower upper", "", o)
	text(where+" edtf", m["edtf"], r.EDTF, o)
	encodedDate(where+" lower", m["lower"], r.Lower, o)
	encodedDate(where+" upper", m["upper"], r.Upper, o)
}

// schema checks that an encoding has the documented form and says what the result says.
func schema(d *edtf.EDTFDate, b []byte, o *engine.Obs) {
	m := object(b, o)
	fields("the encoding", m, "start end edtf level feature", "", o)
	text("edtf", m["edtf"], d.EDTF, o)
	text("feature", m["feature"], d.Feature, o)
	number("level", m["level"], int64(d.Level), o)
	encodedRange("start", m["start"], d.Start, o)
	encodedRange("end", m["end"], d.End, o)
}

func sameTime(a, b func() (*time.Time, error)) bool {
	t, err := a()
	u, err2 := b()
	if (err == nil) != (err2 == nil) {
		return false
	}
	return err != nil || t.Equal(*u)
}

func roundTrip(c engine.Str, o *engine.Obs) {
	s := string(c)
	d, err := parser.ParseString(s)
	if err != nil {
		o.Class("refused")
		return
	}
	o.NonTrivial()
	o.Class("%d %s", d.Level, d.Feature)
	for _, encode := range []func() ([]byte, error){
		func() ([]byte, error) { return json.Marshal(d) },
		func() ([]byte, error) { return json.Marshal(*d) },
		func() ([]byte, error) { return json.MarshalIndent(d, " ", "\t") },
	} {
		b, err := encode()
		if err != nil {
			o.Failf("encoding %s: %v", oracle.Quote(s), err)
		}
		schema(d, b, o)
		var back *edtf.EDTFDate
		if err := json.Unmarshal(b, &back); err != nil {
			o.Failf("decoding %s: %v", b, err)
		}
		if !reflect.DeepEqual(d, back) {
			o.Failf("%s is %s, but decodes to %s", oracle.Quote(s), oracle.Describe(d), oracle.Describe(back))
		}
		if !sameTime(d.Lower, back.Lower) || !sameTime(d.Upper, back.Upper) {
			o.Failf("%s: the overall bounds change in decoding", oracle.Quote(s))
		}
	}
}

// variant is a result made by hand, to reach combinations of fields.
type variant struct {
	Timestamp *int64 `json:"timestamp"`
	DateTime  string `json:"datetime"`
	YMD       []int  `json:"ymd"`
	Flags     []int  `json:"flags"`
	Open      bool   `json:"open"`
	Unknown   bool   `json:"unknown"`
	Text      string `json:"text"`
	Level     int    `json:"level"`
}

func timestampOf(n int64) *edtf.Timestamp {
	t := time.Unix(n, 0)
	return edtf.NewTimestampWithTime(&t)
}

func (v variant) date() *edtf.Date {
	d := &edtf.Date{DateTime: v.DateTime, Open: v.Open, Unknown: v.Unknown}
	if v.Timestamp != nil {
		d.Timestamp = timestampOf(*v.Timestamp)
	}
	if len(v.YMD) == 3 {
		d.YMD = &edtf.YMD{Year: v.YMD[0], Month: v.YMD[1], Day: v.YMD[2]}
	}
	for i, p := range []*edtf.Precision{&d.Uncertain, &d.Approximate, &d.Unspecified, &d.Precision, &d.Inclusivity} {
		if i < len(v.Flags) {
			*p = edtf.Precision(uint32(v.Flags[i]))
		}
	}
	return d
}

func handMade(v variant, o *engine.Obs) {
	o.NonTrivial()
	d := &edtf.EDTFDate{
		Start: &edtf.DateRange{EDTF: v.Text, Lower: v.date(), Upper: &edtf.Date{}},
		End:   &edtf.DateRange{EDTF: "x" + v.Text, Lower: &edtf.Date{}, Upper: v.date()},
		EDTF:  v.Text, Level: v.Level, Feature: v.Text,
	}
	b, err := json.Marshal(d)
	if err != nil {
		o.Failf("encoding: %v", err)
	}
	schema(d, b, o)
	var back *edtf.EDTFDate
	if err := json.Unmarshal(b, &back); err != nil {
		o.Failf("decoding %s: %v", b, err)
	}
	if !reflect.DeepEqual(d, back) || !sameTime(d.Lower, back.Lower) || !sameTime(d.Upper, back.Upper) {
		o.Failf("%s decodes to something else", b)
	}
}

func int64s(t *rapid.T) int64 {
	switch gen.Int(t, "kind", 0, 3) {
	case 0:
		return gen.Pick[int64](t, "edge", 0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1<<53, 1<<53+1, -(1<<53 + 1), 999999999999999999, math.MaxInt64-1, math.MinInt64+1, 10)
	case 1:
		return rapid.Int64().Draw(t, "any")
	}
	return rapid.Int64Range(-377705116800, 253402300799).Draw(t, "date")
}

// survives checks that a timestamp survives encoding and decoding, quoted or not.
func survives(n int64, o *engine.Obs) {
	o.NonTrivial()
	ts := timestampOf(n)
	if ts.Unix() != n {
		o.Failf("the timestamp made of %d is %d", n, ts.Unix())
	}
	want := strconv.FormatInt(n, 10)
	for _, v := range []any{ts, *ts} {
		b, err := json.Marshal(v)
		if err != nil || string(b) != want {
			o.Failf("%d is encoded as %s, %v", n, b, err)
		}
	}
	for _, enc := range []string{want, `"` + want + `"`, " " + want + "\n"} {
		var back edtf.Timestamp
		if err := json.Unmarshal([]byte(enc), &back); err != nil || back.Unix() != n {
			o.Failf("%s is decoded as %d, %v", enc, back.Unix(), err)
		}
		var d edtf.Date
		if err := json.Unmarshal([]byte(`{"ymd":null,"timestamp":`+enc+`}`), &d); err != nil || d.Timestamp == nil || d.Timestamp.Unix() != n {
			o.Failf("%s is decoded within a date as %v, %v", enc, d.Timestamp, err)
		}
	}
}

// kept makes a series of timestamps, encodes and decodes them directly, and keeps everything which is made: it is not
// changed by what comes later, nor by what becomes of its sources.
func kept(ns []int64, o *engine.Obs) {
	if len(ns) > 1 {
		o.NonTrivial()
	}
	var stamps, backs []*edtf.Timestamp
	var encs [][]byte
	var times []*time.Time
	used := &edtf.Timestamp{}
	for i, n := range ns {
		t := time.Unix(n, 0)
		ts := edtf.NewTimestampWithTime(&t)
		t = time.Unix(^n, 1)
		b, err := ts.MarshalJSON()
		want := strconv.FormatInt(n, 10)
		if err != nil || string(b) != want {
			o.Failf("%d is encoded as %s, %v", n, b, err)
		}
		src := []byte(want)
		if i%2 == 1 {
			src = []byte(`"` + want + `"`)
		}
		back := &edtf.Timestamp{}
		for _, ts := range []*edtf.Timestamp{back, used} {
			if err := ts.UnmarshalJSON(src); err != nil || ts.Unix() != n {
				o.Failf("%s is decoded as %d, %v", src, ts.Unix(), err)
			}
		}
		for i := range src {
			src[i] = '7'
		}
		stamps, backs, encs, times = append(stamps, ts), append(backs, back), append(encs, b), append(times, back.Time())
	}
	for round := 0; round < 2; round++ {
		for i, n := range ns {
			if string(encs[i]) != strconv.FormatInt(n, 10) || stamps[i].Unix() != n || backs[i].Unix() != n || times[i].Unix() != n {
				o.Failf("of %d, item %d is now %s, %d, %d, %v", ns, i, encs[i], stamps[i].Unix(), backs[i].Unix(), times[i])
			}
			u := backs[i].Time()
			*u = time.Unix(^n, 0)
			if backs[i].Unix() != n || times[i].Unix() != n || backs[i].Time().Unix() != n {
				o.Failf("%d is %d, %v after a time made of it was modified", n, backs[i].Unix(), times[i])
			}
			if used.Unix() != ns[len(ns)-1] {
				o.Failf("the last of %d is now %d", ns, used.Unix())
			}
		}
	}
	for i := range encs {
		for j := range encs[i] {
			encs[i][j] = 'x'
		}
	}
	if b, err := json.Marshal(stamps); err != nil || string(b) != strings.ReplaceAll(fmt.Sprint(ns), " ", ",") {
		o.Failf("%d are encoded as %s, %v", ns, b, err)
	}
	var all []edtf.Timestamp
	b, _ := json.Marshal(ns)
	if err := json.Unmarshal(b, &all); err != nil || len(all) != len(ns) {
		o.Failf("%s is decoded as %v, %v", b, all, err)
	}
	for i := range all {
		if all[i].Unix() != ns[i] {
			o.Failf("%s is decoded as %v", b, all)
		}
	}
}

// together encodes and decodes a list of results at once.
func together(c []engine.Str, o *engine.Obs) {
	var ds []*edtf.EDTFDate
	for _, s := range c {
		if d, err := parser.ParseString(string(s)); err == nil {
			ds = append(ds, d)
		}
	}
	if len(ds) > 1 {
		o.NonTrivial()
	}
	o.Class("%d results", len(ds))
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	m := map[string]any{}
	for i, d := range ds {
		if err := enc.Encode(d); err != nil {
			o.Failf("encoding %s: %v", oracle.Quote(d.EDTF), err)
		}
		m[strconv.Itoa(i)] = *d
	}
	dec := json.NewDecoder(&buf)
	var backs []*edtf.EDTFDate
	for range ds {
		back := &edtf.EDTFDate{}
		if err := dec.Decode(back); err != nil {
			o.Failf("decoding %q: %v", c, err)
		}
		backs = append(backs, back)
	}
	list, err := json.Marshal(ds)
	var values []edtf.EDTFDate
	if err == nil {
		err = json.Unmarshal(list, &values)
	}
	if err != nil || len(values) != len(ds) {
		o.Failf("the list of %q is decoded to %d results, %v", c, len(values), err)
	}
	mapped, err := json.Marshal(m)
	var again map[string]edtf.EDTFDate
	if err == nil {
		err = json.Unmarshal(mapped, &again)
	}
	if err != nil {
		o.Failf("a map of %q: %v", c, err)
	}
	for i, d := range ds {
		v := again[strconv.Itoa(i)]
		for _, x := range []*edtf.EDTFDate{backs[i], &values[i], &v} {
			if !reflect.DeepEqual(d, x) {
				o.Failf("%s is %s, but decodes together with %q to %s", oracle.Quote(d.EDTF), oracle.Describe(d), c, oracle.Describe(x))
			}
		}
	}
}

// malformed checks that something which is not a 64-bit integer is refused.
func malformed(c string, o *engine.Obs) {
	if !json.Valid([]byte(c)) || c == "null" {
		return
	}
	var s string
	if json.Unmarshal([]byte(c), &s) != nil {
		s = c
	}
	s = strings.Trim(s, `"`)
	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
		return
	}
	o.NonTrivial()
	var back edtf.Timestamp
	if err := json.Unmarshal([]byte(c), &back); err == nil {
		o.Failf("%s is decoded as %d", c, back.Unix())
	}
	var d edtf.Date
	if err := json.Unmarshal([]byte(`{"timestamp":`+c+`}`), &d); err == nil {
		o.Failf("%s is decoded within a date as %v", c, d.Timestamp)
	}
}

func main() {
	engine.Main(engine.Check{
		ID: "C14",
		Legs: oracle.WithHistory("features", 20000, 600000,
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: roundTrip,
			},
			engine.Leg[engine.Str]{
				Name: "years",
				Rule: gen.YearsRule + "; non-trivial if the string parses",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					gen.EveryYear(func(s string) bool { return emit(engine.Str(s)) })
				},
				Check: roundTrip,
			},
			engine.Leg[engine.Str]{
				Name: "features",
				Rule: "results of parsing random expressions of every feature, encoded in three ways, compared field by field, decoded and compared; non-trivial if the string parses",
				Gen: func(t *rapid.T) engine.Str {
					if gen.Chance(t, "epoch", 20) {
						return engine.Str(gen.Pick(t, "epoch", "1970", "1970-01", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1969-12-31", "1970/1970-01-01", "../1970", "1970/..", "[1970,1969-12-31]", "1969-12-31T19:00:00-05"))
					}
					return engine.Str(gen.Any(t))
				},
				Quick: 100000, Thorough: 2500000,
				Check: roundTrip,
			},
			engine.Leg[variant]{
				Name: "fields",
				Rule: "results made by hand, with any combination of fields, flags and texts; every case counts",
				Gen: func(t *rapid.T) variant {
					v := variant{DateTime: gen.Pick(t, "datetime", "", "2004-01-01T00:00:00Z"), Open: rapid.Bool().Draw(t, "open"), Unknown: rapid.Bool().Draw(t, "unknown"), Level: gen.Int(t, "level", -1, 2), Text: rapid.String().Draw(t, "text")}
					if rapid.Bool().Draw(t, "stamped") {
						n := int64s(t)
						v.Timestamp = &n
					}
					if rapid.Bool().Draw(t, "dated") {
						v.YMD = []int{gen.Year(t), gen.Int(t, "m", 0, 12), gen.Int(t, "d", 0, 31)}
					}
					for i := 0; i < 5; i++ {
						v.Flags = append(v.Flags, gen.Pick(t, "flag", 0, 0, 2, 4, 8, 16, 32, 64, 128, 256, 512, 96, 104, 1022))
					}
					return v
				},
				Quick: 40000, Thorough: 1000000,
				Check: handMade,
			},
			engine.Leg[int64]{
				Name: "timestamps",
				Rule: "64-bit timestamps, encoded and decoded on their own and within a date, quoted and unquoted; every case counts",
				Gen:  int64s, Quick: 60000, Thorough: 1500000,
				Check: survives,
			},
			engine.Leg[[]int64]{
				Name:  "kept",
				Rule:  "series of timestamps made, encoded and decoded, after which their sources are overwritten: nothing which was made changes; non-trivial if there are several",
				Gen:   func(t *rapid.T) []int64 { return rapid.SliceOfN(rapid.Custom(int64s), 1, 12).Draw(t, "timestamps") },
				Quick: 20000, Thorough: 500000,
				Check: kept,
			},
			engine.Leg[[]engine.Str]{
				Name: "together",
				Rule: "several results encoded and decoded as a stream, a list and a map; non-trivial if several parse",
				Gen: func(t *rapid.T) []engine.Str {
					var ss []engine.Str
					for i := gen.Int(t, "n", 1, 8); i > 0; i-- {
						if len(ss) > 0 && gen.Chance(t, "twin", 4) {
							ss = append(ss, engine.Str(gen.Twin(t, string(ss[0]))))
							continue
						}
						ss = append(ss, engine.Str(gen.Any(t)))
					}
					return ss
				},
				Quick: 8000, Thorough: 200000,
				Check: together,
			},
			engine.Leg[string]{
				Name: "malformed",
				Rule: "JSON values which are not 64-bit integers; non-trivial if valid JSON and not such an integer",
				Gen: func(t *rapid.T) string {
					switch gen.Int(t, "kind", 0, 4) {
					case 0:
						return gen.Pick(t, "value", `""`, `true`, `false`, `{}`, `[]`, `[1]`, `{"timestamp":1}`, `1.0`, `1.5`, `1e3`, `"1e3"`, `"abc"`, `" 1"`, `"1 "`, `"0x10"`, `"1_000"`, `9223372036854775808`, `-9223372036854775809`, `"9223372036854775808"`, `"12a"`, `"-"`, `"--1"`, `"1.0"`, `"1\""`, `"2004-01-01T00:00:00Z"`, `"१"`)
					case 1:
						b, _ := json.Marshal(rapid.String().Draw(t, "text"))
						return string(b)
					case 2:
						return strconv.FormatInt(int64s(t), 10) + gen.Pick(t, "tail", ".0", ".5", "e1", "E2", "00000000000000000000")
					case 3:
						return `"` + strconv.FormatInt(int64s(t), 10) + gen.Pick(t, "tail", " ", "a", ".", "-", "\\n", "\\u0000", "0000000000000000000000", ",", "Z") + `"`
					}
					return `"` + gen.Pick(t, "head", " ", "a", "--", "+-", "0x", "\\t") + strconv.FormatInt(int64s(t), 10) + `"`
				},
				Quick: 40000, Thorough: 1000000,
				Check: malformed,
			},
		),
	})
}
