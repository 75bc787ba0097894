// C20: error kinds and the special vocabulary are unambiguous.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

var kinds = []struct {
	name string
	make func(label, s string) error
	is   func(error) bool
}{
	{"not set", func(string, string) error { return edtf.NotSet() }, edtf.IsNotSet},
	{"not implemented", edtf.NotImplemented, edtf.IsNotImplemented},
	{"invalid", edtf.Invalid, edtf.IsInvalid},
	{"unsupported", edtf.Unsupported, edtf.IsUnsupported},
	{"unrecognized", edtf.Unrecognized, edtf.IsUnrecognized},
}

type text struct {
	Kind  int        `json:"kind"`
	Label engine.Str `json:"label"`
	S     engine.Str `json:"s"`
}

func checkError(c text, o *engine.Obs) {
	o.NonTrivial()
	k := kinds[c.Kind]
	o.Class("%s", k.name)
	err := k.make(string(c.Label), string(c.S))
	if err == nil {
		o.Failf("%s yields no error", k.name)
	}
	for j, other := range kinds {
		if got := other.is(err); got != (j == c.Kind) {
			o.Failf("an error of the kind %q: is it %q? %v", k.name, other.name, got)
		}
	}
	msg := err.Error()
	if msg == "" {
		o.Failf("an error of the kind %q has no message", k.name)
	}
	if c.Kind == 0 {
		return
	}
	if !strings.Contains(msg, string(c.Label)) || !strings.Contains(msg, string(c.S)) {
		o.Failf("an error of the kind %q, with label %q and expression %q, reads %q", k.name, c.Label, c.S, msg)
	}
	// another error of this kind does not change the first one
	_ = k.make("other label", "other expression").Error()
	if err.Error() != msg {
		o.Failf("the message %q has become %q", msg, err.Error())
	}
}

func checkOther(i int, o *engine.Obs) {
	o.NonTrivial()
	for _, err := range []error{nil, errors.New("Invalid EDTF string '2004' (date)"), io.EOF, fmt.Errorf("Unsupported EDTF string '%s'", "x"), &edtf.NotSetError{}} {
		for j, k := range kinds {
			_, notSet := err.(*edtf.NotSetError)
			if got := k.is(err); got != (notSet && j == 0) {
				o.Failf("%v (%T): is it of the kind %q? %v", err, err, k.name, got)
			}
		}
	}
}

func checkWord(c engine.Str, o *engine.Obs) {
	s := string(c)
	open := s == ".." || s == "open"
	unknown := s == "" || s == "uuuu"
	deprecated := s == "open" || s == "uuuu"
	if len(s) < 8 {
		o.NonTrivial()
	}
	if got := edtf.IsOpen(s); got != open {
		o.Failf("%q is open: %v", s, got)
	}
	if got := edtf.IsUnknown(s); got != unknown {
		o.Failf("%q is unknown: %v", s, got)
	}
	if got := edtf.IsUnspecified(s); got != unknown {
		o.Failf("%q is unspecified: %v", s, got)
	}
	if got := edtf.IsDeprecated(s); got != deprecated {
		o.Failf("%q is deprecated: %v", s, got)
	}
	r, err := edtf.ReplaceDeprecated(s)
	if (err == nil) != deprecated {
		o.Failf("the replacement of %q is %q, %v", s, r, err)
	}
	if deprecated {
		o.Class("deprecated")
		want := map[string]string{"open": "..", "uuuu": ""}[s]
		if r != want {
			o.Failf("the replacement of %q is %q", s, r)
		}
		if edtf.IsDeprecated(r) || edtf.IsOpen(r) != open || edtf.IsUnknown(r) != unknown || edtf.IsUnspecified(r) != unknown {
			o.Failf("%q is replaced by %q, which is not of the same meaning", s, r)
		}
	} else if r != "" {
		o.Failf("the refused replacement of %q yields %q", s, r)
	}
	if open || unknown {
		o.Class("marker")
	} else {
		o.Class("other")
	}
}

var letters = []string{"", "o", "p", "e", "n", "u", "O", "U", ".", " ", "X", "…", "0", "ｕ", "\x00", "E"}

// words enumerates the sequences of up to four of the letters, and the neighbourhood of the markers.
func words(thorough bool, emit func(engine.Str) bool) {
	for _, m := range []string{"", "..", "open", "uuuu", "unknown", "unspecified", "xxxx", "null", "/", "OPEN", "UUUU", "Open", "../..", "...", "uuu", "uuuuu", "uuuu/uuuu"} {
		if !emit(engine.Str(m)) {
			return
		}
		for i := 0; i <= len(m); i++ {
			for b := 0; b < 256; b++ {
				if !emit(engine.Str(m[:i] + string([]byte{byte(b)}) + m[i:])) {
					return
				}
				if i < len(m) && !emit(engine.Str(m[:i]+string([]byte{byte(b)})+m[i+1:])) {
					return
				}
			}
		}
	}
	ls := letters
	if !thorough {
		ls = ls[:12]
	}
	for _, a := range ls {
		for _, b := range ls {
			for _, c := range ls {
				for _, d := range ls {
					if !emit(engine.Str(a + b + c + d)) {
						return
					}
				}
			}
		}
	}
}

// bounds: which of the bounds are missing.
type bounds struct {
	S     engine.Str `json:"s"`
	Lower bool       `json:"no_lower"`
	Upper bool       `json:"no_upper"`
}

// checkMissing checks that missing bounds are reported with the not-set kind, in parsed results and in results from
// which bounds were taken away.
func checkMissing(c bounds, o *engine.Obs) {
	d, err := parser.ParseString(string(c.S))
	if err != nil {
		return
	}
	if c.Lower {
		d.Start.Lower.Timestamp = nil
	}
	if c.Upper {
		d.End.Upper.Timestamp = nil
	}
	for _, x := range []struct {
		name  string
		empty bool
		err   error
	}{
		{"lower", d.Start.Lower.Timestamp == nil, second(d.Lower())},
		{"upper", d.End.Upper.Timestamp == nil, second(d.Upper())},
	} {
		if !x.empty {
			if x.err != nil {
				o.Failf("%s: the %s value is %v", oracle.Quote(string(c.S)), x.name, x.err)
			}
			continue
		}
		o.NonTrivial()
		o.Class("no %s", x.name)
		if x.err == nil || !edtf.IsNotSet(x.err) {
			o.Failf("%s: the missing %s bound is reported as %T: %v", oracle.Quote(string(c.S)), x.name, x.err, x.err)
		}
		for j, k := range kinds {
			if j > 0 && k.is(x.err) {
				o.Failf("%s: the missing %s bound is reported as %q", oracle.Quote(string(c.S)), x.name, k.name)
			}
		}
	}
}

func second[T any](_ T, err error) error { return err }

func txt(t *rapid.T, label string) engine.Str {
	if x, ok := gen.FreshText(t); ok {
		return engine.Str(x)
	}
	switch gen.Int(t, label, 0, 3) {
	case 0:
		return engine.Str(gen.Any(t))
	case 1:
		return engine.Str(gen.Raw(t))
	case 2:
		return engine.Str(gen.Pick(t, "edge", "", "%s", "%!d(x)", "%", "'", "''", "\n", "label", "'2004' (x)", "\x00", "%[1]s%v"))
	}
	return engine.Str(rapid.String().Draw(t, "text"))
}

func main() {
	engine.Main(engine.Check{
		ID: "C20",
		Legs: oracle.Legs(
			engine.Leg[text]{
				Name: "errors",
				Rule: "every constructor with random labels and expressions, including format directives and arbitrary bytes, against every predicate; non-trivial always",
				Gen: func(t *rapid.T) text {
					return text{gen.Int(t, "kind", 0, len(kinds)-1), txt(t, "label"), txt(t, "s")}
				},
				Quick: 300000, Thorough: 2000000,
				Check: checkError,
			},
			engine.Leg[int]{
				Name:  "other-errors",
				Rule:  "errors which were not made by the constructors, and none at all; non-trivial always",
				Sweep: func(_ bool, emit func(int) bool) { emit(0) },
				Check: checkOther,
			},
			engine.Leg[engine.Str]{
				Name:  "words",
				Rule:  "the markers, everything which differs from one of them by one byte, and all sequences of up to four letters of an alphabet around them; non-trivial if shorter than 8 bytes",
				Sweep: words,
				Check: checkWord,
			},
			engine.Leg[engine.Str]{
				Name: "random-words",
				Rule: "random strings and expressions; non-trivial if shorter than 8 bytes",
				Gen: func(t *rapid.T) engine.Str {
					return txt(t, "word")
				},
				Quick: 300000, Thorough: 1000000,
				Check: checkWord,
			},
			engine.Leg[bounds]{
				Name: "missing-bounds",
				Rule: "random expressions of every feature, with the bounds they have and with bounds taken away; non-trivial if a bound is missing",
				Gen: func(t *rapid.T) bounds {
					return bounds{engine.Str(gen.Any(t)), rapid.Bool().Draw(t, "lower"), rapid.Bool().Draw(t, "upper")}
				},
				Quick: 200000, Thorough: 1000000,
				Check: checkMissing,
			},
			engine.History(engine.Leg[text]{
				Name: "errors",
				Gen: func(t *rapid.T) text {
					return text{gen.Int(t, "kind", 0, len(kinds)-1), txt(t, "label"), txt(t, "s")}
				},
				Check: checkError,
			}, 50000, 300000, func(t *rapid.T, c text) text {
				switch gen.Int(t, "as", 0, 3) {
				case 0:
					c.Kind = gen.Int(t, "kind", 0, len(kinds)-1)
				case 1:
					c.Label = engine.Str(gen.Twin(t, string(c.Label)))
				case 2:
					c.S = engine.Str(gen.Twin(t, string(c.S)))
				case 3:
					c.Label, c.S = c.S, c.Label
				}
				return c
			}),
		),
	})
}
