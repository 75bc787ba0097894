// C09: any string is handled or refused cleanly, within bounded resources.
package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

// Allowances for the memory which a single call may allocate. Calls are observed to allocate up to 130 kB and, for long strings, 300
// bytes per byte. An
// allocation which follows the value of the numbers in a string exceeds any such allowance.
const (
	allowFixed   = 512 << 10
	allowPerByte = 4000
)

var sample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated is cheap, but counts whole spans of memory when they are taken in to use.
func allocated() uint64 {
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// exactly measures what a call allocates; of three calls, the one which allocates the least counts.
func exactly(e named, s string) uint64 {
	least := uint64(1 << 63)
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		e.call(s)
		runtime.ReadMemStats(&b)
		if n := b.TotalAlloc - a.TotalAlloc; n < least {
			least = n
		}
	}
	return least
}

// Allowances for the processor time of a single call. Calls are observed to take up to 20 ms and, for long strings,
// some microseconds per byte.
const (
	timeFixed   = 150 * time.Millisecond
	timePerByte = 50 * time.Microsecond
)

// threadTime is the processor time which the thread has used, which other threads and processes do not affect.
func threadTime() time.Duration {
	var ts syscall.Timespec
	const threadClock = 3
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, threadClock, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

// taken measures the processor time of a call; of five calls, the fastest one counts.
func taken(e named, s string) time.Duration {
	least := time.Hour
	for i := 0; i < 5; i++ {
		t := threadTime()
		e.call(s)
		least = min(least, threadTime()-t)
	}
	return least
}

type named struct {
	name string
	call func(s string) (result any, some bool, err error)
}

func parsed(f func(string) (*edtf.EDTFDate, error)) func(string) (any, bool, error) {
	return func(s string) (any, bool, error) {
		d, err := f(s)
		return d, d != nil, err
	}
}

// entries are the calls which yield a result or an error.
var entries []named

func init() {
	entries = append(entries, named{"parsing", parsed(parser.ParseString)})
	for _, l := range calls.Levels {
		entries = append(entries, named{fmt.Sprintf("parsing as level %d", l.Number), parsed(l.Parse)})
		entries = append(entries, named{fmt.Sprintf("matching with level %d", l.Number), func(s string) (any, bool, error) {
			n, err := l.Matches(s)
			return n, n != "", err
		}})
		entries = append(entries, named{fmt.Sprintf("recognising as level %d", l.Number), func(s string) (any, bool, error) {
			l.Is(s)
			return nil, true, nil
		}})
	}
	for _, f := range calls.Features {
		entries = append(entries, named{"parsing as " + f.Name, parsed(f.Parse)})
		entries = append(entries, named{"recognising as " + f.Name, func(s string) (any, bool, error) {
			f.Is(s)
			return nil, true, nil
		}})
	}
	entries = append(entries,
		named{"parsing as interval start", parsed(level1.ParseExtendedIntervalStart)},
		named{"parsing as interval end", parsed(level1.ParseExtendedIntervalEnd)},
		named{"matching", func(s string) (any, bool, error) {
			_, f, err := parser.Matches(s)
			return f, f != "", err
		}},
		named{"validating", func(s string) (any, bool, error) {
			parser.IsValid(s)
			return nil, true, nil
		}},
		named{"deriving ranges", func(s string) (any, bool, error) {
			ok, r, err := unix.DeriveRanges(s)
			if ok != (r != nil) || ok && (r.Inner == nil || r.Outer == nil) {
				return r, ok, fmt.Errorf("says %v, but yields %v", ok, r)
			}
			// neither a range nor an error is how it says that there is none
			return r, err == nil, err
		}},
		named{"comparing (after)", compared(func(s string) (bool, error) { return cmp.IsAfter(s, "2004-06") })},
		named{"comparing (before)", compared(func(s string) (bool, error) { return cmp.IsBefore(s, "2004-06") })},
		named{"comparing (after, second)", compared(func(s string) (bool, error) { return cmp.IsAfter("2004-06", s) })},
		named{"comparing (before, second)", compared(func(s string) (bool, error) { return cmp.IsBefore("2004-06", s) })},
		named{"comparing (between)", compared(func(s string) (bool, error) { return cmp.IsBetween(s, "1950", "2004-06") })},
		named{"comparing (inception)", compared(func(s string) (bool, error) { return cmp.IsBetween("1985", s, "..") })},
		named{"comparing (cessation)", compared(func(s string) (bool, error) { return cmp.IsBetween("1985", "1950", s) })},
	)
}

// compared wraps a comparison, which says no when it yields an error.
func compared(f func(string) (bool, error)) func(string) (any, bool, error) {
	return func(s string) (any, bool, error) {
		b, err := f(s)
		if err != nil && b {
			return b, true, err
		}
		return b, err == nil, err
	}
}

// running counts the goroutines, once those which are about to end have had time for it.
func running(atMost int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 200 && n > atMost; i++ {
		time.Sleep(time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

func openFiles() int {
	fs, _ := os.ReadDir("/proc/self/fd")
	return len(fs)
}

// try makes all calls, and sees whether they leave goroutines or open files behind.
func try(s string, o *engine.Obs) {
	routines, files := runtime.NumGoroutine(), openFiles()
	tryCalls(s, o)
	if runtime.NumGoroutine() <= routines && openFiles() <= files {
		return
	}
	if running(routines) <= routines && openFiles() <= files {
		return
	}
	// make sure that it is these calls
	const times = 20
	routines, files = runtime.NumGoroutine(), openFiles()
	for i := 0; i < times; i++ {
		tryCalls(s, o)
	}
	if n := running(routines); n >= routines+times {
		o.Failf("every call of all entry points with %s leaves %d goroutines behind", oracle.Quote(s), (n-routines)/times)
	}
	if n := openFiles(); n >= files+times {
		o.Failf("every call of all entry points with %s leaves %d files open", oracle.Quote(s), (n-files)/times)
	}
}

func tryCalls(s string, o *engine.Obs) {
	any := false
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	for _, e := range entries {
		before, start := allocated(), threadTime()
		result, some, err := call(e, s, o)
		used, spent := allocated()-before, threadTime()-start
		if some == (err != nil) {
			o.Failf("%s %s yields %v and error %v", e.name, oracle.Quote(s), result, err)
		}
		if limit := uint64(allowFixed + allowPerByte*len(s)); used > limit {
			if used = exactly(e, s); used > limit {
				o.Failf("%s %s allocates %d bytes of memory", e.name, oracle.Quote(s), used)
			}
		}
		if limit := timeFixed + timePerByte*time.Duration(len(s)); spent > limit {
			if spent = taken(e, s); spent > limit {
				o.Failf("%s %s takes %v of processor time", e.name, oracle.Quote(s), spent)
			}
		}
		any = any || e.name == "parsing" && err == nil
	}
	if any {
		o.Class("parses")
		// what is done with results must not fail either
		d, _ := parser.ParseString(s)
		_ = oracle.Describe(d)
		_ = d.String() + d.Start.String() + d.End.String() + d.Start.Lower.String()
		d.Lower()
		d.Upper()
		d.After(d)
		d.Before(d)
	} else {
		o.Class("refused")
	}
}

func call(e named, s string, o *engine.Obs) (r any, some bool, err error) {
	defer func() {
		if p := recover(); p != nil {
			o.Failf("%s %s panics: %v", e.name, oracle.Quote(s), p)
		}
	}()
	return e.call(s)
}

// long describes a long string.
type long struct {
	Pre  engine.Str `json:"pre"`
	Unit engine.Str `json:"unit"`
	N    int        `json:"n"`
	Post engine.Str `json:"post"`
}

func (l long) String() string {
	return string(l.Pre) + strings.Repeat(string(l.Unit), l.N) + string(l.Post)
}

var units = []string{"0", "9", "X", "-", "/", "1985/", "..", ",", "1985,", "1985..1986,", "?", "~", "[", "]", "{", " ", "\n", "é", "\xff", "\x00", "E9", "S1", "-01", "1985-01-01", "T", "Y", "a", "+", ":", "99"}

func lengths(thorough bool, emit func(long) bool) {
	ns := []int{50, 3000}
	if thorough {
		ns = []int{17, 64, 400, 5000, 40000}
	}
	pres := []string{"", "[", "{", "Y", "Y-", "Y1E", "Y1E-", "1985", "-1985", "1985-04-12T23:20:30+", "1985S", "Spring, ", "../", "1985/", "[..", "[1985", "Y1", "1985-0"}
	posts := []string{"", "]", "}", "/..", "1985]", "E1", "S2", "Z", "?"}
	for _, n := range ns {
		for _, u := range units {
			for _, pre := range pres {
				for _, post := range posts {
					if !thorough && n > 1000 && post != "" && post != "]" {
						continue
					}
					if n > 1000 && post != "" && post != "]" && post != "}" {
						continue
					}
					if !emit(long{engine.Str(pre), engine.Str(u), n, engine.Str(post)}) {
						return
					}
				}
			}
		}
	}
}

// many describes a string of very many distinct items, which differ by their number.
type many struct {
	Pre  string `json:"pre"`
	Item string `json:"item"`
	Sep  string `json:"sep"`
	Post string `json:"post"`
	N    int    `json:"n"`
}

func (m many) text(n int) string {
	var b strings.Builder
	b.WriteString(m.Pre)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(m.Sep)
		}
		y, mm, dd := i/336, i/28%12+1, i%28+1
		switch m.Item {
		case "year":
			fmt.Fprintf(&b, "%04d", i%10000)
		case "bce":
			fmt.Fprintf(&b, "-%04d", i%10000)
		case "month":
			fmt.Fprintf(&b, "%04d-%02d", i/12%10000, i%12+1)
		case "day":
			fmt.Fprintf(&b, "%04d-%02d-%02d", y, mm, dd)
		case "downwards":
			fmt.Fprintf(&b, "%04d-%02d-%02d", 9999-y, 13-mm, 29-dd)
		case "range":
			fmt.Fprintf(&b, "%04d-%02d-%02d..%04d-%02d-%02d", y, mm, dd, 9999-y, mm, dd)
		case "number":
			fmt.Fprint(&b, i)
		}
	}
	b.WriteString(m.Post)
	return b.String()
}

var (
	items  = []string{"year", "bce", "month", "day", "downwards", "range", "number"}
	frames = [][3]string{{"[", ",", "]"}, {"{", ",", "}"}, {"[..", ",", "]"}, {"{", ",", "..}"}, {"", "/", ""}, {"", ",", ""}, {"Y", "", ""}, {"1985-", "-", ""}, {"[", "..", "]"}}
)

func allMany(thorough bool, emit func(many) bool) {
	for _, f := range frames {
		for _, it := range items {
			n := 400
			if thorough {
				n = 1500
			}
			if !emit(many{f[0], it, f[1], f[2], n}) {
				return
			}
		}
	}
}

// The processor time of a call for a string sixteen times as long may grow by this factor, and by this much.
const (
	slowFixed  = 40 * time.Millisecond
	slowFactor = 60
)

// growth checks that the memory and the time which a call allocates for a string sixteen times as long grow about as much.
func growth(m many, o *engine.Obs) {
	o.NonTrivial()
	s, l := m.text(m.N), m.text(16*m.N)
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	for _, e := range entries {
		before, start := allocated(), threadTime()
		_, _, err := call(e, s, o)
		between, then := allocated(), threadTime()
		call(e, l, o)
		o.Class("parses %v", err == nil)
		short, much := between-before, allocated()-between
		if first, second := then-start, threadTime()-then; second > slowFixed+slowFactor*first/2 {
			if first, second = taken(e, s), taken(e, l); second > slowFixed+slowFactor*first {
				o.Failf("%s %s takes %v of processor time for %d items and %v for %d items", e.name, oracle.Quote(s), first, m.N, second, 16*m.N)
			}
		}
		if much <= allowFixed+48*short/2 {
			continue
		}
		if short, much = exactly(e, s), exactly(e, l); much > allowFixed+48*short {
			o.Failf("%s %s allocates %d bytes of memory for %d items and %d bytes for %d items", e.name, oracle.Quote(s), short, m.N, much, 16*m.N)
		}
	}
}

// batch is a kind of strings, ever more of which are given to all entry points.
type batch struct {
	Form string `json:"form"`
	From int    `json:"from"`
	Size int    `json:"size"`
}

var batchForms = []string{"%D", "%YX-%M", "%D/%D", "[%D,%N]", "{%D..%N}", "Y%N", "Y%NE2", "%YS2", "%D?", "?%Y-~%M", "%DT12:30:00Z", "junk%N", "%N", "Spring, %Y junk%N", "[%N", "\x00%N\xff"}

func (b batch) text(i int) string {
	i += b.From
	y, m, d := i/336%9999, i/28%12+1, i%28+1
	return strings.NewReplacer("%D", fmt.Sprintf("%04d-%02d-%02d", y, m, d), "%YX", fmt.Sprintf("%03dX", i%1000), "%Y", fmt.Sprintf("%04d", i%10000), "%M", fmt.Sprintf("%02d", i/1000%12+1), "%N", fmt.Sprint(i)).Replace(b.Form)
}

// A batch may leave slack bytes behind, and memory has to stop growing at some time.
const (
	slack   = 96 << 10
	batches = 12
)

func inUse() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// retained checks that strings which have been handled do not occupy memory for ever.
func retained(b batch, o *engine.Obs) {
	o.NonTrivial()
	o.Class("%s", b.Form)
	last := int64(1 << 62)
	for k := 0; k < batches; k++ {
		for i := 0; i < b.Size; i++ {
			s := b.text(k*b.Size + i)
			for _, e := range entries {
				call(e, s, o)
			}
		}
		n := inUse()
		if n < last+slack {
			if k > 0 {
				return
			}
		}
		last = n
	}
	o.Failf("each of %d batches of %d strings like %s leaves more than %d bytes of memory behind", batches, b.Size, oracle.Quote(b.text(0)), slack)
}

// magnitudes enumerates expressions whose numbers are large.
func magnitudes(_ bool, emit func(engine.Str) bool) {
	for n := 1; n <= 40; n++ {
		for _, d := range []string{"9", "1", "5", "0"} {
			big := strings.Repeat(d, n)
			for _, s := range []string{"Y1E%s", "Y-1E%s", "Y%sE1", "Y%sE%s", "Y-%sE%s", "Y%s", "Y-%s", "1950S%s", "Y1E1S%s", "Y%sS%s", "Y1985E%sS3", "-1950S%s", "%s", "%s-01", "1985-%s", "1985-01-%s", "[%s..1985]", "[1..%s]", "{1985..%s}", "1985-04-12T23:20:30+%s", "1985-04-12T%s:00:00", "1985/%s", "%sX", "%sXX", "1985-04-12T23:20:30-04:%s", "Spring, %s", "Y9999E%s", "Y%sE0", "Y1e%s"} {
				if !emit(engine.Str(strings.ReplaceAll(s, "%s", big))) {
					return
				}
			}
		}
	}
}

func main() {
	check := func(c engine.Str, o *engine.Obs) {
		if c != "" {
			o.NonTrivial()
		}
		try(string(c), o)
	}
	engine.Main(engine.Check{
		ID: "C09",
		Assumptions: []string{
			"a call which uses 30 seconds of processor time, or is blocked for 120 seconds, does not terminate: they normally take microseconds",
			"a call may allocate 512 kB and 4 kB per byte of the string; observed are up to 130 kB and 300 bytes per byte",
			"goroutines which have not ended 200 ms after a call, for twenty times the same call, do not end",
			"memory in use which grows by more than 96 kB with each of twelve batches of thousands of strings is retained",
			"a call may use 150 ms of processor time and 0.05 ms per byte of the string, and 40 ms and 60 times as much for a string sixteen times as long; observed are up to 20 ms, and factors of up to 36",
			"memory which grows by a factor of more than 48 between a string and one sixteen times as long is not proportional to the length",
		},
		Legs: oracle.Legs(
			engine.Leg[engine.Str]{
				Name:  "magnitudes",
				Rule:  "expressions of every feature with numbers of up to 40 digits; every case counts",
				Sweep: magnitudes,
				Check: check,
			},
			engine.Leg[long]{
				Name:  "lengths",
				Rule:  "long repetitions of fragments between prefixes and suffixes of expressions, up to 3 kB units (thorough: 400 kB); every case counts",
				Sweep: lengths,
				Gen: func(t *rapid.T) long {
					s := gen.Any(t)
					p := gen.Int(t, "split", 0, len(s))
					return long{engine.Str(s[:p]), engine.Str(gen.Pick(t, "unit", units...)), gen.Int(t, "n", 2, 700), engine.Str(s[p:])}
				},
				Quick: 6000, Thorough: 60000,
				Check: func(c long, o *engine.Obs) {
					o.NonTrivial()
					try(c.String(), o)
				},
			},
			engine.Leg[many]{
				Name:  "growth",
				Rule:  "sets and other sequences of hundreds, and sixteen times as many, distinct items: the memory allocated by every entry point grows by a factor of at most 48, and its processor time by one of at most 60; every case counts",
				Sweep: allMany,
				Gen: func(t *rapid.T) many {
					f := gen.Pick(t, "frame", frames...)
					return many{f[0], gen.Pick(t, "item", items...), f[1], f[2], gen.Int(t, "n", 200, 600)}
				},
				Quick: 16, Thorough: 400,
				Check: growth,
			},
			engine.Leg[batch]{
				Name: "retained",
				Rule: "batches of thousands of strings of one form given to all entry points: the memory in use afterwards stops growing at some time; every case counts",
				Sweep: func(thorough bool, emit func(batch) bool) {
					for i, f := range batchForms {
						size := 3000
						if thorough {
							size = 20000
						}
						if !emit(batch{f, i * 1000, size}) {
							return
						}
					}
				},
				Check: retained,
			},
			engine.Leg[engine.Str]{
				Name:  "near",
				Rule:  "a catalogue of expressions of every feature and all strings which differ from one by one edit, by a cut or by an appended expression; every case counts",
				Sweep: func(_ bool, emit func(engine.Str) bool) { gen.Near(func(s string) bool { return emit(engine.Str(s)) }) },
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "strings",
				Rule:  "valid expressions, mutated ones, sequences of fragments and random bytes, given to every entry point; non-trivial unless empty",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.String(t)) },
				Quick: 120000, Thorough: 4000000,
				Check: check,
			},
			engine.Leg[engine.Str]{
				Name:  "features",
				Rule:  "random expressions of every feature, given to every entry point; non-trivial unless empty",
				Gen:   func(t *rapid.T) engine.Str { return engine.Str(gen.Any(t)) },
				Quick: 60000, Thorough: 2000000,
				Check: check,
			},
		),
	})
}
