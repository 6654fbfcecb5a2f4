package text

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

var options = map[cli.Option]string{
	cli.Hidden: "HIDDEN", cli.Required: "REQUIRED", cli.Exits: "EXITS", cli.MustExist: "MUST_EXIST",
	cli.SkipFlagParsing: "SKIP_FLAG_PARSING", cli.WorkingDirectory: "WORKING_DIRECTORY", cli.Optional: "OPTIONAL",
	cli.DisallowFlagsAfterArgs: "DISALLOW_FLAGS_AFTER_ARGS", cli.No: "NO", cli.NonPersistent: "NON_PERSISTENT",
	cli.DisableSplitting: "DISABLE_SPLITTING", cli.Merge: "MERGE", cli.RightToLeft: "RIGHT_TO_LEFT",
	cli.PreventSetup: "PREVENT_SETUP", cli.EachOccurrence: "EACH_OCCURRENCE", cli.AllowFileReference: "ALLOW_FILE_REFERENCE",
	cli.FileReference: "FILE_REFERENCE", cli.SortedFlags: "SORTED_FLAGS", cli.SortedCommands: "SORTED_COMMANDS",
	cli.SortedExprs: "SORTED_EXPRS", cli.ImpliedAction: "IMPLIED_ACTION", cli.Visible: "VISIBLE",
	cli.DisableAutoVisibility: "DISABLE_AUTO_VISIBILITY", cli.Trigger: "TRIGGER",
}

var filters = map[cli.FilterModes]string{
	cli.AnyFlag: "ANY_FLAG", cli.AnyArg: "ANY_ARG", cli.AnyCommand: "ANY_COMMAND", cli.Seen: "SEEN",
	cli.RootCommand: "ROOT_COMMAND", cli.HasValue: "HAS_VALUE",
}

var timings = map[cli.Timing]string{
	cli.InitialTiming: "INITIAL", cli.BeforeTiming: "BEFORE", cli.ActionTiming: "ACTION", cli.AfterTiming: "AFTER",
	cli.ValidatorTiming: "VALIDATOR", cli.ImplicitValueTiming: "IMPLICIT_VALUE",
}

func keys[K ~int, V any](m map[K]V) []K {
	var res []K
	for k := range m {
		res = append(res, k)
	}
	slices.Sort(res)
	return res
}

func subset[K ~int](c *pbt.C, all []K) (res K, n int) {
	for _, k := range all {
		if rapid.IntRange(0, 2).Draw(c.T, "in") == 2 {
			res |= k
			n++
		}
	}
	return
}

func tokens(s string) []string {
	var res []string
	for _, t := range strings.Split(s, ",") {
		if t = strings.TrimSpace(t); t != "" {
			res = append(res, t)
		}
	}
	sort.Strings(res)
	return res
}

// TestP22_Text: modes are written as text and read back
func TestP22_Text(t *testing.T) {
	type config struct {
		O cli.Option
		F cli.FilterModes
		T cli.Timing
	}
	pbt.Run(t, "more than one mode is combined", 8000, func(c *pbt.C) {
		var in config
		var no, nf int
		in.O, no = subset(c, keys(options))
		in.F, nf = subset(c, keys(filters))
		in.T = rapid.SampledFrom(keys(timings)).Draw(c.T, "timing")
		if no > 1 && nf > 1 {
			c.NonTrivial()
		}
		c.Showf("Option(%d) FilterModes(%d) Timing(%d)", in.O, in.F, in.T)
		data, err := json.Marshal(in)
		if err != nil {
			c.Failf("marshal: %v", err)
		}
		c.Showf("%s", data)
		var out config
		if err := json.Unmarshal(data, &out); err != nil {
			c.Failf("unmarshal: %v", err)
		}
		if out != in {
			c.Failf("read back as %+v", out)
		}
		var want []string
		for o, l := range options {
			if in.O&o != 0 {
				want = append(want, l)
			}
		}
		sort.Strings(want)
		if got := tokens(in.O.String()); !slices.Equal(got, want) {
			c.Failf("the text of the options is %q, expected %q", got, want)
		}
		want = nil
		for o, l := range filters {
			if in.F&o != 0 && (in.F&cli.Anything != cli.Anything || o&cli.Anything == 0) {
				want = append(want, l)
			}
		}
		if in.F&cli.Anything == cli.Anything {
			want = append(want, "ANYTHING")
		}
		sort.Strings(want)
		if got := tokens(in.F.String()); !slices.Equal(got, want) {
			c.Failf("the text of the filters is %q, expected %q", got, want)
		}
		if in.F != 0 && in.F.Describe() == "" {
			c.Failf("the filters have no description")
		}
		if in.T.String() != timings[in.T] || in.T.Describe() == "" {
			c.Failf("the text of the timing is %q, %q", in.T.String(), in.T.Describe())
		}

		// in any order and with blanks
		toks := tokens(in.O.String())
		toks = rapid.Permutation(toks).Draw(c.T, "order")
		var o cli.Option
		if err := o.UnmarshalText([]byte(strings.Join(toks, rapid.SampledFrom([]string{",", " , ", ",  "}).Draw(c.T, "sep")))); err != nil || o != in.O {
			c.Failf("%q is read as %v, %v", toks, o, err)
		}

		// any names, also more than once and with those of combinations
		sep := rapid.SampledFrom([]string{",", " , ", ",  "}).Draw(c.T, "sep2")
		toks = nil
		var wantF cli.FilterModes
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "nnames"); i < n; i++ {
			if rapid.IntRange(0, 3).Draw(c.T, "anything") == 0 {
				toks, wantF = append(toks, "ANYTHING"), wantF|cli.Anything
				continue
			}
			k := rapid.SampledFrom(keys(filters)).Draw(c.T, "filterName")
			toks, wantF = append(toks, filters[k]), wantF|k
		}
		// what it was before doesn't matter
		f := rapid.SampledFrom([]cli.FilterModes{0, cli.AnyFlag, cli.Seen | cli.AnyArg}).Draw(c.T, "old")
		if err := f.UnmarshalText([]byte(strings.Join(toks, sep))); err != nil || f != wantF {
			c.Failf("%q is read as %v, %v", toks, f, err)
		}
		toks, o = nil, 0
		var wantO cli.Option
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "nnames"); i < n; i++ {
			k := rapid.SampledFrom(keys(options)).Draw(c.T, "optionName")
			toks, wantO = append(toks, options[k]), wantO|k
		}
		if err := o.UnmarshalText([]byte(strings.Join(toks, sep))); err != nil || o != wantO {
			c.Failf("%q is read as %v, %v", toks, o, err)
		}
	})
}

// TestP22_Combine: a combination of filters matches if each of them does
func TestP22_Combine(t *testing.T) {
	pbt.Run(t, "a combination of filters", 3000, func(c *pbt.C) {
		var f cli.FilterModes
		kind := rapid.SampledFrom([]cli.FilterModes{0, cli.AnyFlag, cli.AnyArg, cli.AnyCommand, cli.Anything}).Draw(c.T, "kind")
		rest, n := subset(c, []cli.FilterModes{cli.Seen, cli.RootCommand, cli.HasValue})
		f = kind | rest
		if n > 0 && kind != 0 {
			c.NonTrivial()
		}
		args := []string{"app"}
		sub := rapid.Bool().Draw(c.T, "sub")
		given := map[string]bool{}
		if rapid.Bool().Draw(c.T, "flag") {
			args = append(args, "--f", "1")
			given["--f"] = true
		}
		if sub {
			args = append(args, "sub")
			if rapid.Bool().Draw(c.T, "subflag") {
				args = append(args, "--g", "2")
				given["-g"] = true
			}
			if rapid.Bool().Draw(c.T, "subarg") {
				args = append(args, "x")
				given["<a>"] = true
			}
		}
		// the values which are initialized, with an arg of their own
		host := rapid.SampledFrom([]string{"", "app", "f", "sub", "g", "a"}).Draw(c.T, "valueOf")
		c.Showf("FilterModes(%d) %q value in %q", f, args, host)
		var failed string
		seen := map[string]bool{}
		check := func(kindOf string, given bool) func(ctx *cli.Context) {
			return func(ctx *cli.Context) {
				want := true
				if rest&cli.Seen != 0 {
					switch kindOf {
					case "flag", "arg":
						want = want && given && !ctx.IsInitializing()
					default:
						want = want && ctx.Seen("")
					}
				}
				if rest&cli.RootCommand != 0 {
					want = want && kindOf == "app"
				}
				if rest&cli.HasValue != 0 {
					want = want && kindOf != "app" && kindOf != "command"
				}
				switch kind {
				case cli.AnyFlag:
					want = want && kindOf == "flag"
				case cli.AnyArg:
					want = want && kindOf == "arg"
				case cli.AnyCommand:
					want = want && (kindOf == "app" || kindOf == "command")
				}
				seen[ctx.Path().String()+" "+ctx.Timing().String()] = true
				got := f.Matches(ctx)
				method := ctx.Matches(f)
				ran := false
				if err := ctx.Do(cli.IfMatch(f, cli.ActionFunc(func(*cli.Context) error { ran = true; return nil }))); err != nil {
					failed = "IfMatch: " + err.Error()
				}
				if got != want || ran != want || method != want {
					failed = fmt.Sprintf("%v %v: matches %v, %v, runs %v, want %v", ctx.Path(), ctx.Timing(), got, method, ran, want)
				}
			}
		}
		setup := func(name, kindOf string, given bool) cli.Action {
			fn := check(kindOf, given)
			p := cli.Pipeline(fn, cli.Before(cli.ActionOf(fn)), cli.After(cli.ActionOf(fn)))
			if name == host {
				v := check("value", given)
				arg := check("arg", false)
				p = cli.Pipeline(p, cli.ProvideValueInitializer(new(int), "v", cli.Pipeline(v, cli.Before(cli.ActionOf(v)), cli.After(cli.ActionOf(v)),
					cli.AddArg(&cli.Arg{Name: "own", Uses: arg, Before: arg, After: arg}))))
			}
			return p
		}
		var out bytes.Buffer
		app := &cli.App{
			Name:   "app",
			Stdout: &out, Stderr: &out,
			Uses:   setup("app", "app", false),
			Action: check("app", false),
			Flags:  []*cli.Flag{{Name: "f", Value: new(int), Uses: setup("f", "flag", given["--f"]), Action: check("flag", true)}},
			Commands: []*cli.Command{{
				Name: "sub", Uses: setup("sub", "command", false), Action: check("command", false),
				Flags: []*cli.Flag{{Name: "g", Value: new(int), Uses: setup("g", "flag", given["-g"]), Action: check("flag", true)}},
				Args:  []*cli.Arg{{Name: "a", Uses: setup("a", "arg", given["<a>"]), Action: check("arg", true)}},
			}},
		}
		if err := app.RunContext(nil2(), args); err != nil {
			c.Failf("error: %v", err)
		}
		if len(seen) < 9 {
			c.Failf("only %d contexts", len(seen))
		}
		if failed != "" {
			c.Failf("wrong at %s", failed)
		}
	})
}

type feature int

// TestP22_Features: each requested feature is enabled once, in a fixed order
func TestP22_Features(t *testing.T) {
	pbt.Run(t, "features overlap and more than one runs", 10000, func(c *pbt.C) {
		var ran []feature
		m := cli.FeatureMap[feature]{}
		for i, n := 0, rapid.IntRange(0, 7).Draw(c.T, "n"); i < n; i++ {
			f := feature(rapid.IntRange(1, 63).Draw(c.T, "feature"))
			if rapid.Bool().Draw(c.T, "single") {
				f = 1 << rapid.IntRange(0, 5).Draw(c.T, "bit")
			}
			m[f] = cli.ActionFunc(func(*cli.Context) error { ran = append(ran, f); return nil })
		}
		values := feature(rapid.IntRange(-1, 127).Draw(c.T, "values"))
		c.Showf("features %v, requested %d", keys(m), values)

		// the reference: the largest combinations first
		order := keys(m)
		sort.Slice(order, func(i, j int) bool {
			a, b := bits.OnesCount(uint(order[i])), bits.OnesCount(uint(order[j]))
			return a > b || a == b && order[i] > order[j]
		})
		var want []feature
		rest := values
		for _, f := range order {
			if rest&f == f {
				want = append(want, f)
				rest &^= f
			}
		}
		var union, sum feature
		for _, f := range order {
			if union&f != 0 {
				sum++
			}
			union |= f
		}
		if len(want) > 1 && sum > 0 {
			c.NonTrivial()
		}
		var out bytes.Buffer
		for i := 0; i < 2; i++ {
			ran = nil
			app := &cli.App{Name: "app", Stdout: &out, Stderr: &out, Uses: m.Pipeline(values), Action: func() {}}
			if err := app.RunContext(nil2(), []string{"app"}); err != nil {
				c.Failf("error: %v", err)
			}
			if !slices.Equal(ran, want) {
				c.Failf("enabled %v, expected %v", ran, want)
			}
		}
	})
}
