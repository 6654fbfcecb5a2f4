package core

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// sflag is a flag of the spelling properties
type sflag struct {
	Name    string
	Aliases []string
	Kind    string // bool, string, int, list, map, nv, opt, file
}

func (f sflag) spellings() []string { return append([]string{f.Name}, f.Aliases...) }

func (f sflag) short() string {
	for _, s := range f.spellings() {
		if len([]rune(s)) == 1 {
			return s
		}
	}
	return ""
}

func (f sflag) flag() *cli.Flag {
	fl := &cli.Flag{Name: f.Name, Aliases: append([]string(nil), f.Aliases...)}
	switch f.Kind {
	case "bool":
		fl.Value = new(bool)
	case "string":
		fl.Value = new(string)
	case "int":
		fl.Value = new(int)
	case "list":
		fl.Value = cli.List()
	case "map":
		fl.Value = new(map[string]string)
	case "nv":
		fl.Value = new(cli.NameValue)
	case "opt":
		fl.Value = new(string)
		fl.Uses = cli.OptionalValue("dflt")
	case "optint":
		fl.Value = new(int)
		fl.Uses = cli.OptionalValue(7)
	case "duration":
		fl.Value = cli.Duration()
	}
	return fl
}

// suse is one use of a flag: the semantics of one or more tokens
type suse struct {
	f        sflag
	hasValue bool
	value    string
}

func genSpellFlags(t *rapid.T) []sflag {
	shorts := rapid.Permutation([]string{"a", "b", "x", "é", "Z", "4"}).Draw(t, "shorts")
	longs := rapid.Permutation([]string{"all", "lo", "long", "na-me", "x.y", "Über"}).Draw(t, "longs")
	n := rapid.IntRange(1, 5).Draw(t, "nflags")
	var res []sflag
	for i := 0; i < n; i++ {
		f := sflag{Kind: rapid.SampledFrom([]string{"bool", "bool", "string", "int", "list", "map", "nv", "opt", "optint", "duration"}).Draw(t, "kind")}
		switch rapid.IntRange(0, 3).Draw(t, "naming") {
		case 0:
			f.Name = longs[i]
		case 1:
			f.Name = shorts[i]
		case 2:
			f.Name, f.Aliases = longs[i], []string{shorts[i]}
		case 3:
			f.Name, f.Aliases = shorts[i], []string{longs[i], longs[i] + "-2"}
		}
		// a name of one character which is not ASCII is spelled with two dashes only
		if f.Name == "é" {
			f.Name, f.Aliases = "é-long", []string{"é"}
		}
		res = append(res, f)
	}
	return res
}

func genSpellValue(t *rapid.T, kind string) string {
	switch kind {
	case "bool":
		return rapid.SampledFrom([]string{"true", "false", "1", "0", "TRUE", "maybe"}).Draw(t, "boolValue")
	case "int", "optint":
		return rapid.SampledFrom([]string{"0", "1", "42", "0x1f", "7", "1_0", "x"}).Draw(t, "intValue")
	case "duration":
		return rapid.SampledFrom([]string{"1s", "2h30m", "0", "forever"}).Draw(t, "durValue")
	case "map", "nv":
		return rapid.SampledFrom([]string{"k=v", "k", "a=1,b=2", "=v", "k=", "k=a=b"}).Draw(t, "mapValue")
	}
	return rapid.OneOf(
		rapid.SampledFrom([]string{"v", "a,b", "a=b", "=", " ", "true", "é", "ab c", "x-y", "-"}),
		rapid.StringMatching(`[a-c=, é4Z][a-c=, é4Z-]{0,3}`),
	).Draw(t, "strValue")
}

// spell writes the items (flag uses and arg values) as tokens
func spell(t *rapid.T, items []any, label string) (tokens []string) {
	for i := 0; i < len(items); i++ {
		s, isArg := items[i].(string)
		if isArg {
			// two args, or a "--" before the last ones
			rest := true
			for _, x := range items[i:] {
				if _, ok := x.(string); !ok {
					rest = false
				}
			}
			first := true
			for _, x := range items[:i] {
				if _, ok := x.(string); ok {
					first = false
				}
			}
			if rest && first && rapid.Bool().Draw(t, label+"dashdash") {
				tokens = append(tokens, "--")
			}
			tokens = append(tokens, s)
			continue
		}
		u := items[i].(suse)
		if strings.HasPrefix(u.f.Kind, "opt") && !u.hasValue {
			// in its long form it would take the next token
			tokens = append(tokens, "-"+u.f.short())
			continue
		}
		name := rapid.SampledFrom(u.f.spellings()).Draw(t, label+"name")
		isShort := len([]rune(name)) == 1
		if !u.hasValue {
			// a cluster with the next one
			if isShort && rapid.IntRange(0, 3).Draw(t, label+"dash") > 0 {
				tok := "-" + name
				if u.f.Kind == "bool" {
					for i+1 < len(items) {
						n, ok := items[i+1].(suse)
						if !ok || rapid.IntRange(0, 2).Draw(t, label+"cluster") == 0 {
							break
						}
						short := n.f.short()
						if short == "" || n.hasValue && n.f.Kind == "bool" {
							break
						}
						i++
						tok += short
						if n.hasValue {
							tokens = appendShort(t, tokens, tok, n, label)
							tok = ""
							break
						}
						if n.f.Kind != "bool" {
							break
						}
					}
				}
				if tok != "" {
					tokens = append(tokens, tok)
				}
				continue
			}
			tok := "--" + name
			if u.f.Kind == "bool" && rapid.IntRange(0, 2).Draw(t, label+"true") == 0 {
				tok += "=true"
			}
			tokens = append(tokens, tok)
			continue
		}
		if isShort && u.f.Kind != "bool" && rapid.IntRange(0, 3).Draw(t, label+"dash") > 0 {
			tokens = appendShort(t, tokens, "-"+name, u, label)
			continue
		}
		if u.f.Kind != "bool" && !strings.HasPrefix(u.f.Kind, "opt") && rapid.Bool().Draw(t, label+"space") && separable(u) {
			tokens = append(tokens, "--"+name, u.value)
			continue
		}
		tokens = append(tokens, "--"+name+"="+u.value)
	}
	return
}

// separable: a list takes tokens until the next flag, so that its value is not
// passed as a token of its own here
func separable(u suse) bool { return u.f.Kind != "list" && u.f.Kind != "nv" }

func appendShort(t *rapid.T, tokens []string, tok string, u suse, label string) []string {
	if !strings.HasPrefix(u.f.Kind, "opt") && separable(u) && rapid.Bool().Draw(t, label+"space") {
		return append(tokens, tok, u.value)
	}
	return append(tokens, tok+u.value)
}

type snapshot struct {
	Err    string
	Ran    int
	Values map[string]string
	Occ    map[string]int
	Seen   map[string]bool
	Raw    map[string][]string
	Trace  []string
}

func snapshotOf(flags []sflag, nargs int, rest bool, tokens []string) snapshot {
	app := newApp("app")
	s := snapshot{Values: map[string]string{}, Occ: map[string]int{}, Seen: map[string]bool{}, Raw: map[string][]string{}}
	for _, f := range flags {
		fl := f.flag()
		fl.Action = func(c *cli.Context) {
			s.Trace = append(s.Trace, fmt.Sprintf("%s=%v", c.Name(), show(c.Value(""))))
		}
		app.Flags = append(app.Flags, fl)
	}
	for i := 0; i < nargs; i++ {
		app.Args = append(app.Args, &cli.Arg{Name: fmt.Sprintf("arg%d", i), Value: new(string)})
	}
	if rest {
		app.Args = append(app.Args, &cli.Arg{Name: "rest", Value: new([]string), NArg: cli.TakeExceptForFlags, Options: cli.DisableSplitting})
	}
	app.Action = func(c *cli.Context) {
		s.Ran++
		var names []string
		for _, f := range flags {
			names = append(names, f.Name)
			if f.Kind != "bool" && !strings.HasPrefix(f.Kind, "opt") {
				s.Raw[f.Name] = c.RawOccurrences(f.Name)
			}
		}
		for _, a := range app.Args {
			names = append(names, a.Name)
			s.Raw[a.Name] = c.RawOccurrences(a.Name)
		}
		for _, n := range names {
			s.Values[n] = show(c.Value(n))
			s.Occ[n] = c.Occurrences(n)
			s.Seen[n] = c.Seen(n)
		}
	}
	if err := run(app, tokens...); err != nil {
		s.Err = "error"
		if pe, ok := err.(*cli.ParseError); ok {
			s.Err = codeName(pe.Code)
		}
	}
	return s
}

func show(v any) string {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Pointer && !r.IsNil() {
		return fmt.Sprintf("%#v", r.Elem().Interface())
	}
	return fmt.Sprintf("%#v", v)
}

// TestP02_Spelling writes the same uses of flags and args in two ways.
func TestP02_Spelling(t *testing.T) {
	pbt.Run(t, "random flags, uses and arg values, spelled in two ways (alias, =, separate token, attached, cluster, --) and with the flags moved between the args; non-trivial: the two command lines differ and no error", 18000, func(c *pbt.C) {
		flags := genSpellFlags(c.T)
		nargs := rapid.IntRange(0, 2).Draw(c.T, "nargs")
		rest := rapid.Bool().Draw(c.T, "rest")
		var uses []any
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "nuses"); i < n; i++ {
			u := suse{f: rapid.SampledFrom(flags).Draw(c.T, "use")}
			switch u.f.Kind {
			case "bool":
				u.hasValue = rapid.IntRange(0, 3).Draw(c.T, "boolHasValue") == 0
			case "opt", "optint":
				u.hasValue = rapid.Bool().Draw(c.T, "optHasValue") || u.f.short() == ""
			default:
				u.hasValue = true
			}
			if u.hasValue {
				u.value = genSpellValue(c.T, u.f.Kind)
				if u.f.Kind == "bool" && u.value == "true" {
					u.hasValue, u.value = false, ""
				}
			}
			uses = append(uses, u)
		}
		var args []any
		max := nargs
		if rest {
			max += 3
		}
		for i, n := 0, rapid.IntRange(0, max).Draw(c.T, "nvalues"); i < n; i++ {
			args = append(args, rapid.SampledFrom([]string{"p", "q,r", "s=t", "", "true", "é"}).Draw(c.T, "argValue"))
		}
		one := spell(c.T, weave(c.T, uses, args, "w1"), "s1")
		two := spell(c.T, weave(c.T, uses, args, "w2"), "s2")
		c.Showf("flags %+v nargs %d rest %v\none %q\ntwo %q", flags, nargs, rest, one, two)
		s1 := snapshotOf(flags, nargs, rest, one)
		s2 := snapshotOf(flags, nargs, rest, two)
		if s1.Err == "" && !reflect.DeepEqual(one, two) {
			c.NonTrivial()
		}
		c.Label("err %q", s1.Err)
		if s1.Err == "" && s1.Ran != 1 {
			c.Failf("the action ran %d times", s1.Ran)
		}
		if !reflect.DeepEqual(s1, s2) {
			c.Failf("the two spellings differ:\n%+v\n%+v", s1, s2)
		}
	})
}

// weave merges the two sequences, keeping their orders
func weave(t *rapid.T, a, b []any, label string) (res []any) {
	for len(a) > 0 || len(b) > 0 {
		if len(b) == 0 || len(a) > 0 && rapid.Bool().Draw(t, label) {
			res = append(res, a[0])
			a = a[1:]
		} else {
			res = append(res, b[0])
			b = b[1:]
		}
	}
	return
}
