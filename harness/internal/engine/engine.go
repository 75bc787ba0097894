// Package engine runs property checks: generated-input search with rapid, exhaustive sweeps and saved cases, spread
// over worker processes, with shrinking, replay files and evidence.
package engine

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Str is a string which survives JSON whatever its bytes.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString([]byte(s))})
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err == nil {
		*s = Str(t)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	raw, err := hex.DecodeString(m["hex"])
	*s = Str(raw)
	return err
}

type violation struct{ msg string }

// Obs collects what is observed about one case.
type Obs struct {
	nontrivial bool
	classes    []string
}

// NonTrivial marks the case as one which exercises the property.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Class counts the case under a label.
func (o *Obs) Class(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	o.classes = append(o.classes, format)
}

// Failf reports that the property does not hold for the case.
func (o *Obs) Failf(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Leg is one way of searching for violations.
type Leg[C any] struct {
	Name string
	// Rule says how cases are made and which of them are non-trivial.
	Rule string
	// Gen draws one case. May be nil.
	Gen func(*rapid.T) C
	// Quick and Thorough are the numbers of cases to draw, over all workers.
	Quick, Thorough int
	// Sweep enumerates distinct cases, stopping when emit returns false. May be nil.
	Sweep func(thorough bool, emit func(C) bool)
	// Check decides one case.
	Check func(C, *Obs)
	// Setup, if any, runs once per worker before the first case, and its result after the last one.
	Setup func() (cleanup func(), err error)
	// Slow legs are those whose cases start processes: they get a longer time limit per case.
	Slow bool
}

func (l Leg[C]) name() string { return l.Name }
func (l Leg[C]) rule() string { return l.Rule }
func (l Leg[C]) slow() bool   { return l.Slow }
func (l Leg[C]) setup() (func(), error) {
	if l.Setup == nil {
		return func() {}, nil
	}
	return l.Setup()
}

type runner interface {
	name() string
	rule() string
	slow() bool
	setup() (func(), error)
	replay(raw []byte) (failure string, err error)
	run(w *worker)
}

// Check is the decision procedure of one property.
type Check struct {
	ID          string
	Level       string
	Assumptions []string
	Legs        []runner
	// Exhaustive is set if, in the thorough tier, a sweep covers its whole space.
	Exhaustive bool
	// Workers, if not 0, is the number of worker processes.
	Workers int
	// NoMemoryLimit is set for race detector builds.
	NoMemoryLimit bool
	// Prepare, if any, runs once before all cases, in the main process, to build what the legs need.
	Prepare func() error
	// Modes are further things which the program can be started for, with -mode, by its own legs.
	Modes map[string]func() int
}

// one evaluates a case.
func (l Leg[C]) one(c C) (o *Obs, failure string) {
	o = &Obs{}
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				failure = v.msg
				return
			}
			failure = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	l.Check(c, o)
	return o, ""
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 14 {
		lines = lines[:14]
	}
	return strings.Join(lines, "\n")
}

func (l Leg[C]) replay(raw []byte) (string, error) {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return "", err
	}
	cleanup, err := l.setup()
	if err != nil {
		return "", err
	}
	defer cleanup()
	_, failure := l.one(c)
	return failure, nil
}

func hash(leg string, raw []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(leg))
	h.Write([]byte{0})
	h.Write(raw)
	return h.Sum64()
}

// eval runs one case and does the bookkeeping. It returns the failure, if any.
func (l Leg[C]) eval(w *worker, r *legReport, c C, sweep bool) string {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	w.begin(l.Name, raw)
	o, failure := l.one(c)
	w.end()
	r.Evaluations++
	for _, k := range o.classes {
		r.Classes[k]++
	}
	if o.nontrivial {
		if sweep {
			r.Swept++
		} else {
			w.hashes = append(w.hashes, hash(l.Name, raw))
		}
		if len(r.Samples) < 4 && len(raw) < 600 {
			r.Samples = append(r.Samples, sample{l.Name, o.classes, raw})
		}
	}
	if failure != "" {
		r.Failure = &caseFailure{Case: raw, Message: failure}
	}
	return failure
}

func (l Leg[C]) run(w *worker) {
	r := &legReport{Name: l.Name, Rule: l.Rule, Classes: map[string]int64{}}
	w.report.Legs = append(w.report.Legs, r)

	cleanup, err := l.setup()
	if err != nil {
		w.fatal("setting up %s: %v", l.Name, err)
	}
	defer cleanup()

	for i, raw := range w.saved[l.Name] {
		if i%w.n != w.index {
			continue
		}
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			w.fatal("saved case of %s: %v", l.Name, err)
		}
		if l.eval(w, r, c, false) != "" {
			return
		}
	}

	if l.Sweep != nil {
		i := 0
		l.Sweep(w.thorough, func(c C) bool {
			mine := i%w.n == w.index
			i++
			if !mine {
				return true
			}
			return !w.over(r) && l.eval(w, r, c, true) == ""
		})
		if r.Failure != nil {
			return
		}
	}

	total := l.Quick
	if w.thorough {
		total = l.Thorough
	}
	if l.Gen == nil || total == 0 || w.over(r) {
		return
	}
	share := total / w.n
	if w.index < total%w.n {
		share++
	}
	if share == 0 {
		return
	}
	last := &caseFailure{}
	failed := w.check(l.Name, share, func(t *rapid.T) {
		if last.Message == "" && w.over(r) {
			return
		}
		c := l.Gen(t)
		if l.eval(w, r, c, false) != "" {
			last = r.Failure
			t.Fatalf("violation")
		}
	})
	if failed {
		// the last failing case is the one which the search was shrunk to
		r.Failure = last
	}
}

// Runner is a leg of any type of cases.
type Runner = runner

// History is a leg of sequences of cases of another leg, some of which look alike: each is checked, in order, and then
// again in reverse order.
func History[C any](l Leg[C], quick, thorough int, vary func(*rapid.T, C) C) Leg[[]C] {
	return Leg[[]C]{
		Name:  "history",
		Rule:  "sequences of cases as in the leg " + l.Name + " and of cases which look like earlier ones, checked one after the other and then again in reverse order; non-trivial if at least two of them are",
		Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) []C {
			n := rapid.IntRange(2, 8).Draw(t, "length")
			cs := []C{l.Gen(t)}
			for len(cs) < n {
				from := cs[rapid.IntRange(0, len(cs)-1).Draw(t, "from")]
				switch rapid.IntRange(0, 5).Draw(t, "next") {
				case 0:
					cs = append(cs, l.Gen(t))
				case 1:
					cs = append(cs, from)
				default:
					cs = append(cs, vary(t, from))
				}
			}
			return cs
		},
		Check: func(cs []C, o *Obs) {
			n := 0
			for i := 0; i < 2*len(cs); i++ {
				j := i
				if i >= len(cs) {
					j = 2*len(cs) - 1 - i
				}
				sub := &Obs{}
				l.Check(cs[j], sub)
				if sub.nontrivial && i < len(cs) {
					n++
				}
			}
			if n >= 2 {
				o.NonTrivial()
			}
			o.Class("%d cases", len(cs))
		},
	}
}
