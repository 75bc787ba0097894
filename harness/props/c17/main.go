// C17: parsing is pure: no state, no aliasing, safe to share. This program is built with the race detector.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"pgregory.net/rapid"
	"verif/harness/internal/calls"
	"verif/harness/internal/dict"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

// call is one call of an entry point.
type call struct {
	Op string     `json:"op"`
	A  engine.Str `json:"a"`
	B  engine.Str `json:"b,omitempty"`
	C  engine.Str `json:"c,omitempty"`
}

// history is a sequence of calls. After each of the calls listed, its result is overwritten.
type history struct {
	Calls    []call `json:"calls"`
	Scribble []int  `json:"scribble,omitempty"`
}

// perform makes a call, and returns a description of its outcome, and its results if they are mutable.
func perform(c call) (outcome string, results []any) {
	s := string(c.A)
	fail := func(err error) string {
		k := ""
		for _, is := range []func(error) bool{edtf.IsNotSet, edtf.IsNotImplemented, edtf.IsInvalid, edtf.IsUnsupported, edtf.IsUnrecognized} {
			if oracle.Has(err, is) {
				k += "x"
			} else {
				k += "-"
			}
		}
		return fmt.Sprintf("error %T %s %v", err, k, err)
	}
	date := func(d *edtf.EDTFDate, err error) {
		if err != nil {
			outcome = fail(err)
			if d == nil {
				return
			}
		}
		outcome += snapshot(d)
		results = append(results, d)
		if d != nil && d.Start != nil && d.End != nil {
			// all methods leave the result as it is
			before := snapshot(d)
			lo, err1 := d.Lower()
			hi, err2 := d.Upper()
			_, err3 := d.After(d)
			_, err4 := d.Before(d)
			text := d.String() + d.Start.String()
			outcome += fmt.Sprint(lo, err1, hi, err2, err3, err4, len(text) > 0)
			if lo != nil {
				results = append(results, lo)
			}
			if hi != nil {
				results = append(results, hi)
			}
			if after := snapshot(d); before != after {
				outcome += " CHANGED BY ITS METHODS TO " + after
			}
		}
	}
	yes := func(y bool, err error) {
		if err != nil {
			outcome = fail(err) + " "
		}
		outcome += strconv.FormatBool(y)
	}
	switch c.Op {
	case "parse":
		date(parser.ParseString(s))
	case "valid":
		yes(parser.IsValid(s), nil)
	case "matches":
		l, f, err := parser.Matches(s)
		if err != nil {
			outcome = fail(err) + " "
		}
		outcome += fmt.Sprint(l, f)
	case "level":
		for _, l := range calls.Levels {
			name, err := l.Matches(s)
			outcome += fmt.Sprint(l.Is(s), name)
			if err != nil {
				outcome += fail(err)
			}
			d, err := l.Parse(s)
			if err != nil {
				outcome += fail(err)
				continue
			}
			outcome += snapshot(d)
			results = append(results, d)
		}
	case "feature":
		for _, f := range calls.Features {
			outcome += fmt.Sprint(f.Is(s))
			d, err := f.Parse(s)
			if err != nil {
				outcome += fail(err)
				continue
			}
			outcome += snapshot(d)
			results = append(results, d)
		}
	case "after":
		yes(cmp.IsAfter(s, string(c.B)))
	case "before":
		yes(cmp.IsBefore(s, string(c.B)))
	case "between":
		yes(cmp.IsBetween(s, string(c.B), string(c.C)))
	case "compare":
		d, err1 := parser.ParseString(s)
		u, err2 := parser.ParseString(string(c.B))
		if err1 != nil || err2 != nil {
			return "no operands", nil
		}
		x, y := snapshot(d), snapshot(u)
		after, err1 := d.After(u)
		before, err2 := d.Before(u)
		outcome = fmt.Sprint(after, err1, before, err2)
		if snapshot(d) != x || snapshot(u) != y {
			outcome += " THE OPERANDS WERE CHANGED BY BEING COMPARED"
		}
		results = append(results, d, u)
	case "unix":
		ok, r, err := unix.DeriveRanges(s)
		if err != nil {
			outcome = fail(err) + " "
		}
		outcome += strconv.FormatBool(ok)
		if r != nil {
			b, _ := json.Marshal(r)
			outcome += string(b)
			results = append(results, r)
		}
	case "words":
		outcome = fmt.Sprint(edtf.IsOpen(s), edtf.IsUnknown(s), edtf.IsUnspecified(s), edtf.IsDeprecated(s))
		r, err := edtf.ReplaceDeprecated(s)
		outcome += r
		if err != nil {
			outcome += " error"
		}
	case "calendar":
		n, err := calendar.DaysInMonthWithString(s)
		if err != nil {
			outcome = fail(err) + " "
		}
		outcome += strconv.Itoa(n)
		ymd, err := common.YMDFromString(s)
		if err != nil {
			outcome += fail(err)
			return
		}
		outcome += fmt.Sprint(*ymd)
		results = append(results, ymd)
		t, err := common.TimeWithYMD(ymd, "12:34:56")
		if err != nil {
			outcome += fail(err)
			return
		}
		outcome += fmt.Sprint(*t, *ymd)
		results = append(results, t)
	case "decode":
		d, err := parser.ParseString(s)
		if err != nil {
			return "does not parse", nil
		}
		b, err := json.Marshal(d)
		if err != nil {
			return fail(err), nil
		}
		var e edtf.EDTFDate
		if err := json.Unmarshal(b, &e); err != nil {
			return fail(err), nil
		}
		outcome = string(b) + snapshot(&e)
		results = append(results, d, &e)
	default:
		panic("unknown call " + c.Op)
	}
	return
}

// snapshot renders all there is in a result.
func snapshot(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("can not be encoded: %v", err)
	}
	if d, ok := v.(*edtf.EDTFDate); ok && d != nil {
		for _, r := range []*edtf.DateRange{d.Start, d.End} {
			if r != nil {
				for _, x := range []*edtf.Date{r.Lower, r.Upper} {
					if x != nil {
						b = fmt.Appendf(b, " %d", x.Unspecified)
					}
				}
			}
		}
	}
	return string(b)
}

var (
	timestampType = reflect.TypeOf(edtf.Timestamp{})
	timeType      = reflect.TypeOf(time.Time{})
)

// pointers collects the memory reachable from a result.
func pointers(v reflect.Value, into map[unsafe.Pointer]string, path string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return
		}
		if _, seen := into[v.UnsafePointer()]; seen && v.Type().Elem().Kind() != reflect.Struct {
			return
		}
		into[v.UnsafePointer()] = path
		if v.Type().Elem() != timeType {
			pointers(v.Elem(), into, path)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			pointers(v.Field(i), into, path+"."+v.Type().Field(i).Name)
		}
	case reflect.Slice, reflect.Map:
		if v.IsNil() {
			return
		}
		into[v.UnsafePointer()] = path
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				pointers(v.Index(i), into, path)
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			pointers(v.Elem(), into, path)
		}
	}
}

// scribble overwrites everything which can be reached from a result.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Type() {
		case timestampType:
			_ = v.Interface().(*edtf.Timestamp).UnmarshalJSON([]byte("-4242424242"))
		case timeType:
			if e.CanSet() {
				e.Set(reflect.ValueOf(time.Unix(-777777777777, 0)))
			}
		default:
			scribble(e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.CanSet() {
			v.SetInt(-98765)
		}
	case reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(0xdead)
		}
	}
}

func scribbleAll(rs []any) {
	for _, r := range rs {
		scribble(reflect.ValueOf(r))
	}
}

func name(c call) string {
	return fmt.Sprintf("%s(%s, %s, %s)", c.Op, oracle.Quote(string(c.A)), oracle.Quote(string(c.B)), oracle.Quote(string(c.C)))
}

// checkSequence runs a history one call after the other.
func checkSequence(h history, o *engine.Obs) {
	n := len(h.Calls)
	first := make([]string, n)
	kept := make([][]any, n)
	snaps := make([]string, n)
	owner := map[unsafe.Pointer]string{}
	whose := map[unsafe.Pointer]int{}
	scribbled := make([]bool, n)
	todo := map[int]bool{}
	for _, i := range h.Scribble {
		todo[i] = true
	}
	all := func(rs []any) string {
		s := ""
		for _, r := range rs {
			s += snapshot(r)
		}
		return s
	}
	unchanged := func(when string) {
		for i := 0; i < n; i++ {
			if kept[i] != nil && !scribbled[i] && all(kept[i]) != snaps[i] {
				o.Failf("the result of %s was\n  %s\nand is, %s,\n  %s", name(h.Calls[i]), snaps[i], when, all(kept[i]))
			}
		}
	}
	separate := func(i int, rs []any) {
		for j, r := range rs {
			ps := map[unsafe.Pointer]string{}
			pointers(reflect.ValueOf(r), ps, fmt.Sprintf("result %d", j))
			for p, path := range ps {
				if k, seen := whose[p]; seen && k != i {
					o.Failf("%s of %s is the memory of %s of %s", path, name(h.Calls[i%n]), owner[p], name(h.Calls[k%n]))
				}
				owner[p], whose[p] = path, i
			}
		}
	}
	for i, c := range h.Calls {
		first[i], kept[i] = perform(c)
		snaps[i] = all(kept[i])
		if strings.Contains(first[i], "CHANGED BY") {
			o.Failf("%s: %s", name(c), first[i])
		}
		separate(i, kept[i])
		unchanged("after " + name(c))
		if todo[i] && len(kept[i]) > 0 {
			scribbleAll(kept[i])
			scribbled[i] = true
			unchanged("after the result of " + name(c) + " was modified")
			o.Class("modified")
			o.NonTrivial()
		}
		o.Class("%s", c.Op)
	}
	// the same calls in reverse order, each of them twice, and at times after memory has been reclaimed
	if n%4 == 1 && len(h.Scribble) == 0 {
		runtime.GC()
		runtime.GC()
		o.Class("memory reclaimed")
	}
	var again [][]any
	for i := n - 1; i >= 0; i-- {
		for k := 1; k <= 2; k++ {
			got, rs := perform(h.Calls[i])
			if got != first[i] {
				o.Failf("%s first yielded\n  %s\nand when repeated after %d other calls\n  %s", name(h.Calls[i]), first[i], n-1, got)
			}
			separate(n*k+i, rs)
			again = append(again, rs)
		}
	}
	unchanged("after repeating all calls")
	for _, rs := range again {
		scribbleAll(rs)
	}
	unchanged("after the results of the repeated calls were modified")
	for i := range h.Calls {
		if got, _ := perform(h.Calls[i]); got != first[i] {
			o.Failf("%s first yielded\n  %s\nand after results were modified\n  %s", name(h.Calls[i]), first[i], got)
		}
	}
}

const goroutines = 6

// together runs a history in several goroutines at once, each of which starts at another of its calls, and modifies
// its own results.
func together(h history) [][]string {
	outs := make([][]string, goroutines)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < goroutines; g++ {
		outs[g] = make([]string, len(h.Calls))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := range h.Calls {
				i := (k + g*len(h.Calls)/goroutines) % len(h.Calls)
				out, rs := perform(h.Calls[i])
				outs[g][i] = out
				scribbleAll(rs)
			}
		}()
	}
	close(start)
	wg.Wait()
	return outs
}

func checkTogether(h history, o *engine.Obs) {
	outs := together(h)
	o.NonTrivial()
	for i, c := range h.Calls {
		want, _ := perform(c)
		o.Class("%s", c.Op)
		for g := range outs {
			if outs[g][i] != want {
				o.Failf("%s yielded, while other calls ran,\n  %s\nand alone\n  %s", name(c), outs[g][i], want)
			}
		}
	}
}

// coldMode runs in a new process: it reads a history, whether to run it concurrently, and the order, and prints the
// outcomes.
func coldMode() int {
	var job struct {
		History    history
		Concurrent bool
		Order      []int
		Rounds     int
	}
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var outs [][]string
	one := make([]string, len(job.History.Calls))
	results := make([][]any, len(one))
	if job.Concurrent {
		outs = together(job.History)
	} else {
		for _, i := range job.Order {
			one[i], results[i] = perform(job.History.Calls[i])
		}
		outs = append(outs, one)
	}
	if job.Rounds > 0 {
		before := make([]string, len(one))
		for i := range results {
			before[i] = snapshot(results[i])
		}
		for i := 0; i < job.Rounds; i++ {
			// so that the n-th call of any entry point, for an n up to the number of rounds, is one of these
			touch(string(job.History.Calls[i%len(job.History.Calls)].A))
			touch(filler(i))
		}
		again := make([]string, len(one))
		for _, i := range job.Order {
			again[i], _ = perform(job.History.Calls[i])
		}
		after := make([]string, len(one))
		for i := range results {
			after[i] = snapshot(results[i])
		}
		outs = append(outs, again, before, after)
	}
	if err := json.NewEncoder(os.Stdout).Encode(outs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// touch calls the main entry points, whatever they yield.
func touch(s string) {
	_, _ = parser.ParseString(s)
	_ = parser.IsValid(s)
	_, _, _ = parser.Matches(s)
	_, _ = cmp.IsBefore(s, s)
	_, _ = cmp.IsBetween(s, s, s)
	_, _, _ = unix.DeriveRanges(s)
	_ = edtf.IsDeprecated(s)
	_, _ = common.YMDFromString(s)
	_, _ = calendar.DaysInMonthWithString(s)
}

// filler is the i-th of a long series of expressions of all features, hardly any of which occurs twice.
func filler(i int) string {
	s := gen.Catalogue[i%len(gen.Catalogue)]
	for j := 0; j+4 <= len(s); j++ {
		k := 0
		for k < 4 && s[j+k] >= '0' && s[j+k] <= '9' {
			k++
		}
		if k == 4 {
			return s[:j] + fmt.Sprintf("%04d", i*7/len(gen.Catalogue)%10000) + s[j+4:]
		}
	}
	return s
}

// long is a history repeated many times in a new process.
type long struct {
	Calls  []call `json:"calls"`
	Rounds int    `json:"rounds"`
}

func checkLong(c long, o *engine.Obs) {
	h := history{Calls: c.Calls}
	order := make([]int, len(h.Calls))
	for i := range order {
		order[i] = i
	}
	outs := cold(h, false, order, c.Rounds, 0, o)
	o.NonTrivial()
	for i, c1 := range h.Calls {
		o.Class("%s", c1.Op)
		if outs[0][i] != outs[1][i] {
			o.Failf("%s yields in a new process\n  %s\nand, after %d rounds of these and other calls,\n  %s", name(c1), outs[0][i], c.Rounds, outs[1][i])
		}
		if outs[2][i] != outs[3][i] {
			o.Failf("the results of %s are\n  %s\nand, after %d rounds of these and other calls,\n  %s", name(c1), outs[2][i], c.Rounds, outs[3][i])
		}
	}
}

// crowd is a large number of different expressions.
type crowd struct {
	Seed uint64 `json:"seed"`
	N    int    `json:"n"`
	// Texts, if there are any, are the expressions.
	Texts []engine.Str `json:"texts,omitempty"`
}

// texts are expressions of every form, in an order given by the seed: many which look alike, some strings which are
// refused, and random ones.
func (c crowd) texts() []engine.Str {
	if len(c.Texts) > 0 {
		return c.Texts
	}
	rng := rand.New(rand.NewPCG(c.Seed, 17))
	var out []engine.Str
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, engine.Str(s))
		}
	}
	keep := func(n int) func(s string) bool {
		return func(s string) bool {
			if rng.IntN(n) == 0 {
				add(s)
			}
			return true
		}
	}
	gen.EveryYear(keep(22))
	gen.Near(keep(6))
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if len(out) > c.N {
		out = out[:c.N]
	}
	return out
}

// crowdMode runs in a new process: it makes calls with all texts in the order given, and prints a digest of the
// outcome of each.
func crowdMode() int {
	var job struct {
		Crowd      crowd
		Backwards  bool
		Goroutines int
	}
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	texts := job.Crowd.texts()
	outs := make([]uint64, len(texts))
	part := func(from, to int) {
		for i := from; i < to; i++ {
			k := i
			if job.Backwards {
				k = len(texts) - 1 - i
			}
			outs[k] = digest(texts, k)
		}
	}
	n := max(job.Goroutines, 1)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			part(len(texts)*g/n, len(texts)*(g+1)/n)
		}()
	}
	wg.Wait()
	if err := json.NewEncoder(os.Stdout).Encode(outs); err != nil {
		return 2
	}
	return 0
}

func crowdCalls(texts []engine.Str, k int) []call {
	s, u := texts[k], texts[(k+1)%len(texts)]
	return []call{{Op: "parse", A: s}, {Op: "valid", A: s}, {Op: "matches", A: s}, {Op: "level", A: s}, {Op: "unix", A: s}, {Op: "words", A: s}, {Op: "calendar", A: s}, {Op: "before", A: s, B: u}, {Op: "after", A: u, B: s}}
}

func digest(texts []engine.Str, k int) uint64 {
	h := fnv.New64a()
	for _, c := range crowdCalls(texts, k) {
		out, _ := perform(c)
		_, _ = h.Write([]byte(out))
	}
	return h.Sum64()
}

func gather(c crowd, backwards bool, goroutines, env int, o *engine.Obs) []uint64 {
	in, err := json.Marshal(map[string]any{"Crowd": c, "Backwards": backwards, "Goroutines": goroutines})
	if err != nil {
		panic(err)
	}
	cmd := engine.Self("crowd")
	cmd.Path += "-plain"
	cmd.Env = surroundings(env)
	cmd.Stdin = bytes.NewReader(in)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		o.Failf("a new process with %d expressions (backwards: %v, goroutines: %d) ends with %v\n%s", len(c.texts()), backwards, goroutines, err, errs.String())
	}
	var outs []uint64
	if err := json.Unmarshal(out.Bytes(), &outs); err != nil {
		o.Failf("a new process prints %q: %v", out.String(), err)
	}
	return outs
}

func checkCrowd(c crowd, o *engine.Obs) {
	o.NonTrivial()
	texts := c.texts()
	o.Class("%d000 expressions", len(texts)/1000)
	forward := gather(c, false, 1, int(c.Seed), o)
	for _, x := range []struct {
		what string
		outs []uint64
	}{
		{"in the opposite order", gather(c, true, 1, int(c.Seed)+3, o)},
		{"by eight goroutines at once", gather(c, false, 8, int(c.Seed)+5, o)},
	} {
		for i := range texts {
			if forward[i] != x.outs[i] {
				alone, _ := perform(crowdCalls(texts, i)[0])
				if few := smaller(c, i, o); len(few) <= 12 {
					o.Failf("the outcomes of calls with %s are different if these are handled in the opposite order: %q; parsed by another process it is\n  %s", oracle.Quote(string(texts[i])), few, alone)
				}
				o.Failf("the outcomes of calls with %s are different if %d other expressions are handled %s; parsed by another process it is\n  %s", oracle.Quote(string(texts[i])), len(texts)-1, x.what, alone)
			}
		}
	}
}

// smaller looks for fewer expressions among which one still has different outcomes in both orders.
func smaller(c crowd, which int, o *engine.Obs) []engine.Str {
	texts := c.texts()
	others := append(append([]engine.Str{}, texts[which+1:]...), texts[:which]...)
	differs := func(others []engine.Str) bool {
		d := crowd{Texts: append([]engine.Str{texts[which]}, others...)}
		return gather(d, false, 1, 0, o)[0] != gather(d, true, 1, 0, o)[0]
	}
	// the calls involve the next expression as well, which stays
	for len(others) > 1 {
		h := 1 + (len(others)-1)/2
		if first := others[:h]; h < len(others) && differs(first) {
			others = first
		} else if rest := append([]engine.Str{others[0]}, others[h:]...); len(rest) < len(others) && differs(rest) {
			others = rest
		} else {
			break
		}
	}
	return append([]engine.Str{texts[which]}, others...)
}

// surroundings is the environment of the i-th of several new processes, which differ in the local time zone, the
// locale, the number of processors, how often memory is reclaimed, and the variables whose names are new in the code.
func surroundings(i int) []string {
	vars := engine.Environ(i)
	if i%2 == 1 {
		vars = dict.Environ(vars)
	}
	return append(vars, "GOMAXPROCS="+[]string{"8", "1", "2", "3"}[i/2%4], "GOGC="+[]string{"100", "10", "400"}[i%3])
}

// cold performs the calls in a new process. Processes with different values of env differ in their surroundings.
func cold(h history, concurrent bool, order []int, rounds int, env int, o *engine.Obs) [][]string {
	in, err := json.Marshal(map[string]any{"History": h, "Concurrent": concurrent, "Order": order, "Rounds": rounds})
	if err != nil {
		panic(err)
	}
	cmd := engine.Self("cold")
	if rounds > 0 {
		cmd.Path += "-plain" // without the race detector, which makes it ten times slower
	}
	cmd.Env = append(surroundings(env), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.Stdin = bytes.NewReader(in)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		o.Failf("a new process (concurrent: %v) ends with %v\n%s", concurrent, err, errs.String())
	}
	var outs [][]string
	if err := json.Unmarshal(out.Bytes(), &outs); err != nil {
		o.Failf("a new process prints %q: %v", out.String(), err)
	}
	return outs
}

func checkCold(h history, o *engine.Obs) {
	o.NonTrivial()
	n := len(h.Calls)
	forward, backward := make([]int, n), make([]int, n)
	for i := range forward {
		forward[i], backward[i] = i, n-1-i
	}
	env := 0
	for _, c := range h.Calls {
		env += len(c.A) + len(c.B) + len(c.Op)
	}
	want := cold(h, false, forward, 0, env, o)[0]
	for _, x := range []struct {
		what string
		outs [][]string
	}{
		{"in a new process, in reverse order", cold(h, false, backward, 0, env+3, o)},
		{"in a new process, concurrently", cold(h, true, nil, 0, env+5, o)},
	} {
		for _, out := range x.outs {
			for i, c := range h.Calls {
				if out[i] != want[i] {
					o.Failf("%s yields in a new process\n  %s\nand %s\n  %s", name(c), want[i], x.what, out[i])
				}
			}
		}
	}
	for i, c := range h.Calls {
		if got, _ := perform(c); got != encoded(want[i]) && encoded(got) != want[i] {
			o.Failf("%s yields in a new process\n  %s\nand in one which has run for a while\n  %s", name(c), want[i], got)
		}
		o.Class("%s", c.Op)
	}
}

// encoded is what becomes of a text when it is sent from one process to the other.
func encoded(s string) string {
	b, _ := json.Marshal(s)
	var t string
	_ = json.Unmarshal(b, &t)
	return t
}

// operands are two results, modified as their owner pleases, which are then compared, rendered and so on.
type operands struct {
	A     engine.Str `json:"a"`
	B     engine.Str `json:"b"`
	Edits []int      `json:"edits"`
}

const edits = 2 * 4 * 7

func (c operands) build() (d, u *edtf.EDTFDate, ok bool) {
	d, err1 := parser.ParseString(string(c.A))
	u, err2 := parser.ParseString(string(c.B))
	if err1 != nil || err2 != nil {
		return nil, nil, false
	}
	for _, k := range c.Edits {
		x := d
		if k%2 == 1 {
			x = u
		}
		b := [...]*edtf.Date{x.Start.Lower, x.Start.Upper, x.End.Lower, x.End.Upper}[k/2%4]
		switch k / 8 % 7 {
		case 0:
			b.DateTime = ""
		case 1:
			b.Timestamp = nil
		case 2:
			b.YMD = nil
		case 3:
			b.Open = !b.Open
		case 4:
			b.Unknown = !b.Unknown
		case 5:
			t := time.Unix(-1, 0)
			b.Timestamp = edtf.NewTimestampWithTime(&t)
		case 6:
			x.EDTF, x.Start.EDTF, x.Feature = "", "", ""
		}
	}
	return d, u, true
}

func checkOperands(c operands, o *engine.Obs) {
	d, u, ok := c.build()
	if !ok {
		o.Class("does not parse")
		return
	}
	o.NonTrivial()
	x, y := snapshot(d), snapshot(u)
	methods := func() string {
		after, err1 := d.After(u)
		before, err2 := d.Before(u)
		lo, err3 := d.Lower()
		hi, err4 := u.Upper()
		text := fmt.Sprint(d.String(), d.Start.String(), u.End.Lower.String(), u.End.Upper.YMD)
		flags := d.Start.Lower.Precision.HasFlag(edtf.YEAR) || d.Start.Lower.Precision.IsAnnual() || d.Start.Lower.Precision.IsMonthly() || d.Start.Lower.Precision.IsDaily()
		if a, b := d.Start.Lower.YMD, u.End.Upper.YMD; a != nil && b != nil {
			text += fmt.Sprint(a.Equals(b))
			at, err := common.TimeWithYMD(a, edtf.HMS_LOWER)
			text += fmt.Sprint(at, err)
		}
		return fmt.Sprint(after, err1, before, err2, lo, err3, hi, err4, flags, len(text) > 0)
	}
	first := methods()
	if snapshot(d) != x || snapshot(u) != y {
		o.Failf("the methods of two results change them from\n  %s\n  %s\nto\n  %s\n  %s", x, y, snapshot(d), snapshot(u))
	}
	if again := methods(); again != first {
		o.Failf("the methods of two results yield\n  %s\nand when called again\n  %s", first, again)
	}
	if e, v, _ := c.build(); snapshot(e) != x || snapshot(v) != y {
		o.Failf("%q and %q, modified, are\n  %s\n  %s\nand when made again\n  %s\n  %s", c.A, c.B, x, y, snapshot(e), snapshot(v))
	}
}

var opNames = []string{"parse", "parse", "parse", "valid", "matches", "level", "feature", "after", "before", "between", "compare", "unix", "words", "calendar", "decode"}

func text(t *rapid.T) engine.Str {
	switch gen.Int(t, "text", 0, 9) {
	case 0:
		return engine.Str(gen.Pick(t, "special", "", "..", "open", "uuuu", "../..", "junk", "2004-13"))
	case 1:
		return engine.Str(gen.String(t))
	case 2:
		return engine.Str(gen.Date(t))
	}
	return engine.Str(gen.Any(t))
}

func draw(most int) func(t *rapid.T) history {
	return func(t *rapid.T) history {
		n := gen.Int(t, "calls", 2, most)
		pool := make([]engine.Str, 1+n/2)
		for i := range pool {
			if i > 0 && gen.Chance(t, "like", 3) {
				pool[i] = engine.Str(gen.Twin(t, string(pool[gen.Int(t, "which", 0, i-1)])))
				continue
			}
			pool[i] = text(t)
		}
		var h history
		for i := 0; i < n; i++ {
			c := call{Op: gen.Pick(t, "op", opNames...), A: gen.Pick(t, "a", pool...)}
			switch c.Op {
			case "between":
				c.C = gen.Pick(t, "c", pool...)
				fallthrough
			case "after", "before", "compare":
				c.B = gen.Pick(t, "b", pool...)
			}
			h.Calls = append(h.Calls, c)
			if gen.Chance(t, "modify", 3) {
				h.Scribble = append(h.Scribble, i)
			}
		}
		return h
	}
}

// catalogue makes histories out of neighbours in the catalogue, for all entry points.
func catalogue(_ bool, emit func(history) bool) {
	for i, s := range gen.Catalogue {
		u := gen.Catalogue[(i+1)%len(gen.Catalogue)]
		var h history
		for _, op := range opNames[2:] {
			h.Calls = append(h.Calls, call{op, engine.Str(s), engine.Str(u), ".."}, call{op, engine.Str(u), engine.Str(s), engine.Str(u)})
		}
		h.Scribble = []int{0, 1, 4, 9, 10}
		if !emit(h) {
			return
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID:            "C17",
		NoMemoryLimit: true,
		Assumptions: []string{
			"the race detector sees the schedules which happen to run; a race is reported if two accesses are not ordered, whether or not they collide",
			"an outcome is observed as the encoding of the result, or the type, kinds and text of the error",
		},
		Modes: map[string]func() int{"cold": coldMode, "crowd": crowdMode},
		Legs: oracle.Legs(
			engine.Leg[history]{
				Name:  "concurrent",
				Rule:  "histories of 2 to 16 calls of all entry points over a small pool of strings, run by six goroutines at once in a race detector build, each starting elsewhere and overwriting its own results, before the same calls are made one after the other; non-trivial always",
				Gen:   draw(16),
				Quick: 4000, Thorough: 100000,
				Check: checkTogether,
			},
			engine.Leg[history]{
				Name:  "catalogue",
				Rule:  "all entry points with the expressions of a catalogue of all features, sequentially; non-trivial if a result is modified",
				Sweep: catalogue,
				Check: checkSequence,
			},
			engine.Leg[history]{
				Name:  "sequential",
				Rule:  "such histories one call after the other, in which results are overwritten; all calls are then repeated in reverse order, twice, and again after overwriting those results; the memory of different results must be separate; non-trivial if a result is modified",
				Gen:   draw(16),
				Quick: 5000, Thorough: 120000,
				Check: checkSequence,
			},
			engine.Leg[operands]{
				Name: "operands",
				Rule: "pairs of results, some of whose fields are modified, which are compared and rendered: this changes neither of them, and repeating it yields the same; non-trivial if both expressions parse",
				Gen: func(t *rapid.T) operands {
					return operands{text(t), text(t), rapid.SliceOfN(rapid.IntRange(0, edits-1), 0, 6).Draw(t, "edits")}
				},
				Quick: 20000, Thorough: 500000,
				Check: checkOperands,
			},
			engine.Leg[history]{
				Name:  "new-process",
				Rule:  "such histories in new processes: forwards, backwards, and concurrently from the first call on; and compared with this process; non-trivial always",
				Gen:   draw(24),
				Quick: 160, Thorough: 3000,
				Check: checkCold,
				Slow:  true,
			},
			engine.Leg[crowd]{
				Name: "crowd",
				Rule: "tens of thousands of different expressions of all forms, many of which look alike, and of strings which are refused, handled by a new process in one order, by another one in the opposite order, and by another one in eight goroutines: the outcomes of each are the same; non-trivial always",
				Sweep: func(thorough bool, emit func(crowd) bool) {
					n := uint64(4)
					if thorough {
						n = 40
					}
					for i := uint64(0); i < n; i++ {
						if !emit(crowd{Seed: i, N: 40000}) {
							return
						}
					}
				},
				Check: checkCrowd,
				Slow:  true,
			},
			engine.Leg[long]{
				Name: "long",
				Rule: "new processes which make the same calls again after hundreds of thousands of calls of the same and of other expressions; non-trivial always",
				Sweep: func(thorough bool, emit func(long) bool) {
					rounds, step := 12000, 8
					if thorough {
						rounds = 120000
					}
					for i := 0; i < len(gen.Catalogue); i += step {
						var c long
						for j := i; j < min(i+step, len(gen.Catalogue)); j++ {
							s := engine.Str(gen.Catalogue[j])
							c.Calls = append(c.Calls, call{Op: "parse", A: s}, call{Op: "feature", A: s}, call{Op: "unix", A: s}, call{Op: "matches", A: s})
						}
						c.Rounds = rounds
						if !emit(c) {
							return
						}
					}
				},
				Check: checkLong,
				Slow:  true,
			},
		),
	})
}
