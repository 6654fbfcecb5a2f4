package core

import (
	"fmt"
	"reflect"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// counter is the library's counter for a count of the model.
func counter(c model.Count) cli.ArgCounter {
	switch c.Kind {
	case "exact":
		if c.N == 0 {
			return cli.NoArgs()
		}
		return cli.ArgCount(c.N)
	case "opt":
		return cli.ArgCount(cli.TakeUnlessFlag)
	case "req":
		panic("req is the implied count of a flag")
	case "all":
		return cli.ArgCount(cli.TakeRemaining)
	case "until":
		return cli.ArgCount(cli.TakeUntilNextFlag)
	case "except":
		return cli.ArgCount(cli.TakeExceptForFlags)
	case "match":
		return cli.OptionalArg(model.Matches)
	}
	panic(c.Kind)
}

func grammarText(g model.Grammar) string {
	return fmt.Sprintf("flags %+v args %+v disallowFlagsAfter=%v", g.Flags, g.Args, g.DisallowFlagsAfter)
}

// cliFlags makes the flags and args of the grammar, each with a list value that
// accepts any value.
func cliFlags(g model.Grammar) (flags []*cli.Flag, args []*cli.Arg) {
	for _, f := range g.Flags {
		fl := &cli.Flag{Name: f.Name, Aliases: append([]string(nil), f.Aliases...)}
		switch f.Count.Kind {
		case "req":
			fl.Value = new(string)
		case "opt":
			fl.Value = new(string)
			fl.Uses = cli.OptionalValue("dflt")
		case "until":
			fl.Value = cli.List()
		default:
			count := f.Count
			fl.Value = &anyValue{func() cli.ArgCounter { return counter(count) }}
		}
		flags = append(flags, fl)
	}
	for _, a := range g.Args {
		ar := &cli.Arg{Name: a.Name, NArg: counter(a.Count), Value: cli.List()}
		if a.Count.Kind == "exact" {
			ar.NArg = a.Count.N
		}
		if a.Count.Kind == "all" && len(args) == 1 {
			// any other negative value
			ar.NArg = -4 - len(g.Flags)
		}
		args = append(args, ar)
	}
	return
}

// anyValue accepts any text and says itself how many tokens it takes
type anyValue struct{ count func() cli.ArgCounter }

func (*anyValue) Set(string) error             { return nil }
func (*anyValue) String() string               { return "" }
func (v *anyValue) NewCounter() cli.ArgCounter { return v.count() }

func codeName(c cli.ErrorCode) string {
	switch c {
	case cli.UnexpectedArgument:
		return "unexpected"
	case cli.UnknownOption:
		return "unknown"
	case cli.ExpectedArgument:
		return "expected"
	case cli.InvalidArgument:
		return "invalid"
	case cli.FlagUsedAfterArgs:
		return "flagafterarg"
	}
	return fmt.Sprintf("code%d", c)
}

func sameOccs(got [][]string, want []model.Occ) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if len(got[i]) != len(want[i]) {
			return false
		}
		for j := range got[i] {
			if got[i][j] != want[i][j] {
				return false
			}
		}
	}
	return true
}

func strs(s []string) []string {
	if len(s) == 0 {
		return nil
	}
	return s
}

// checkParse compares the outcome of a parse with the model's.
// checkNames checks the binding names: what occurs, each once
func checkNames(c *pbt.C, got []string, want model.Result) {
	if want.Err != nil {
		return
	}
	seen := map[string]bool{}
	for _, n := range got {
		if seen[n] || len(want.Occ[n]) == 0 {
			c.Failf("the binding names are %q, want those of %q", got, want.Occ)
		}
		seen[n] = true
	}
	if len(seen) != len(want.Occ) {
		c.Failf("the binding names are %q, want those of %q", got, want.Occ)
	}
}

func checkParse(c *pbt.C, bindings map[string][][]string, err error, want model.Result, names []string) {
	for _, n := range names {
		if !sameOccs(bindings[n], want.Occ[n]) {
			c.Failf("occurrences of %q: got %q, want %q (error %v, model error %+v)", n, bindings[n], want.Occ[n], err, want.Err)
		}
	}
	for n := range bindings {
		if n == "" {
			continue
		}
		if _, ok := want.Occ[n]; !ok && len(bindings[n]) > 0 {
			c.Failf("occurrences of %q: got %q, want none", n, bindings[n])
		}
	}
	if want.Err == nil {
		if err != nil {
			c.Failf("error %v on a command line that is valid", err)
		}
		return
	}
	if err == nil {
		c.Failf("no error, want %+v", *want.Err)
	}
	pe, ok := err.(*cli.ParseError)
	if !ok {
		c.Failf("error is %T (%v), want *ParseError", err, err)
	}
	if want.ImpreciseErr {
		if want.Err.Code == "expected" && want.Err.Name != "" && codeName(pe.Code) == "expected" {
			if pe.Name != want.Err.Name && (want.NamesMissing || pe.Name != "") {
				c.Failf("error (%v) names %q, want %q", err, pe.Name, want.Err.Name)
			}
		} else if want.NamesMissing {
			c.Failf("error %v, want that %s has too few values", err, want.Err.Name)
		}
		return
	}
	if got := codeName(pe.Code); got != want.Err.Code {
		c.Failf("error code %s (%v), want %s", got, err, want.Err.Code)
	}
	if want.Err.Name != "" && pe.Name != want.Err.Name {
		c.Failf("error names %q, want %q", pe.Name, want.Err.Name)
	}
	if want.Err.Token != "" && pe.Value != want.Err.Token {
		c.Failf("error has value %q, want %q", pe.Value, want.Err.Token)
	}
	if want.Err.Remaining != nil && !reflect.DeepEqual(strs(pe.Remaining), strs(want.Err.Remaining)) {
		c.Failf("error has remaining %q, want %q", pe.Remaining, want.Err.Remaining)
	}
}

func names(g model.Grammar) (res []string) {
	for _, f := range g.Flags {
		res = append(res, f.Name)
	}
	for _, a := range g.Args {
		res = append(res, a.Name)
	}
	return
}

type binding struct{ g model.Grammar }

func (b binding) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	for _, f := range b.g.Flags {
		if f.Name == name {
			return nil, counter(f.Count), nil, true
		}
	}
	for _, a := range b.g.Args {
		if a.Name == name {
			return nil, counter(a.Count), nil, true
		}
	}
	return nil, nil, nil, false
}

func (b binding) ResolveAlias(name string) (string, bool) {
	for _, f := range b.g.Flags {
		if f.Name == name {
			return name, true
		}
		for _, a := range f.Aliases {
			if a == name {
				return f.Name, true
			}
		}
	}
	return "", false
}

func (b binding) PositionalArgNames() (res []string) {
	for _, a := range b.g.Args {
		res = append(res, a.Name)
	}
	return
}

func (b binding) BehaviorFlags(name string) bool {
	for _, f := range b.g.Flags {
		if f.Name == name {
			return f.Optional
		}
	}
	return false
}

func (binding) Reset() {}

// TestP01_RawParse compares RawParse with the reference parser on grammars and
// command lines.
func TestP01_RawParse(t *testing.T) {
	pbt.Run(t, "random flags, args and tokens; non-trivial: at least two tokens and two options occur, or an error after one occurrence", 80000, func(c *pbt.C) {
		g := model.GenGrammar().Draw(c.T, "grammar")
		for i, f := range g.Flags {
			if f.Count.Kind == "req" {
				g.Flags[i].Count = model.Count{Kind: "exact", N: 1}
			}
		}
		g.DisallowFlagsAfter = rapid.IntRange(0, 5).Draw(c.T, "disallow") == 0
		tokens := g.GenTokens(8).Draw(c.T, "tokens")
		c.Showf("%s\ntokens %q", grammarText(g), tokens)
		want := g.Parse(tokens)
		if len(tokens) > 1 && (len(want.Occ) > 1 || want.Err != nil && len(want.Occ) > 0) {
			c.NonTrivial()
		}
		if want.Err != nil {
			c.Label("err %s", want.Err.Code)
		} else {
			c.Label("ok, %d options occur", len(want.Occ))
		}
		flags := cli.RawSkipProgramName
		if g.DisallowFlagsAfter {
			flags |= cli.RawDisallowFlagsAfterArgs
		}
		input := append([]string{"app"}, tokens...)
		keep := append([]string(nil), input...)
		m, err := cli.RawParse(input, binding{g}, flags)
		if !reflect.DeepEqual(input, keep) {
			c.Failf("RawParse changed its input to %q", input)
		}
		if !reflect.DeepEqual(m.Bindings(""), [][]string{keep}) {
			c.Failf("the binding map holds %q as the input", m.Bindings(""))
		}
		checkParse(c, m, err, want, names(g))
		checkNames(c, m.BindingNames(), want)
	})
}

// TestP01_App does the same through an app, whose flags have values of the
// types that imply a count.
func TestP01_App(t *testing.T) {
	pbt.Run(t, "as TestP01_RawParse, through App.RunContext and the counts implied by values", 25000, func(c *pbt.C) {
		g := model.GenGrammar().Draw(c.T, "grammar")
		tokens := g.GenTokens(8).Draw(c.T, "tokens")
		c.Showf("%s\ntokens %q", grammarText(g), tokens)
		want := g.Parse(tokens)
		if len(tokens) > 1 && (len(want.Occ) > 1 || want.Err != nil && len(want.Occ) > 0) {
			c.NonTrivial()
		}
		fl, ar := cliFlags(g)
		got := map[string][][]string{}
		ran := false
		app := newApp("app")
		app.Flags, app.Args = fl, ar
		app.Action = func(ctx *cli.Context) {
			ran = true
			checkNames(c, ctx.BindingLookup().BindingNames(), want)
			for _, n := range names(g) {
				got[n] = ctx.BindingLookup().Bindings(n)
				if ctx.Occurrences(n) != len(want.Occ[n]) {
					c.Failf("Occurrences(%q) is %d, want %d", n, ctx.Occurrences(n), len(want.Occ[n]))
				}
				if ctx.Seen(n) != (len(want.Occ[n]) > 0) {
					c.Failf("Seen(%q) is %v with occurrences %q", n, ctx.Seen(n), want.Occ[n])
				}
			}
		}
		depth := nesting(c.T)
		c.Showf("in a sub-command at depth %d", depth)
		err := run(app, append(nest(app, depth), tokens...)...)
		if want.Err != nil {
			if ran {
				c.Failf("the action ran although the command line is in error: %+v", *want.Err)
			}
			want.Occ = nil
			checkParse(c, nil, err, want, nil)
			return
		}
		if err != nil {
			c.Failf("error %v on a command line that is valid", err)
		}
		if !ran {
			c.Failf("the action did not run")
		}
		checkParse(c, got, err, want, names(g))
	})
}
