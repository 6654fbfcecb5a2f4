package core

import (
	"fmt"
	"reflect"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// TestP03_DisallowFlagsAfterArgs compares an app with the option with the
// reference parser.
func TestP03_DisallowFlagsAfterArgs(t *testing.T) {
	pbt.Run(t, "random flags, args and tokens with DisallowFlagsAfterArgs; non-trivial: a flag follows an arg, or at least two options occur", 12000, func(c *pbt.C) {
		g := model.GenGrammar().Draw(c.T, "grammar")
		g.DisallowFlagsAfter = true
		tokens := g.GenTokens(7).Draw(c.T, "tokens")
		c.Showf("%s\ntokens %q", grammarText(g), tokens)
		want := g.Parse(tokens)
		if want.Err != nil && want.Err.Code == "flagafterarg" || want.Err == nil && len(want.Occ) > 1 {
			c.NonTrivial()
		}
		fl, ar := cliFlags(g)
		got := map[string][][]string{}
		ran := false
		app := newApp("app")
		app.Flags, app.Args, app.Options = fl, ar, cli.DisallowFlagsAfterArgs
		app.Action = func(ctx *cli.Context) {
			ran = true
			for _, n := range names(g) {
				got[n] = ctx.BindingLookup().Bindings(n)
			}
		}
		depth := nesting(c.T)
		c.Showf("in a sub-command at depth %d", depth)
		err := run(app, append(nest(app, depth), tokens...)...)
		if ran != (want.Err == nil) {
			c.Failf("the action ran: %v, err %v, model error %+v", ran, err, want.Err)
		}
		if want.Err != nil {
			c.Label("err %s", want.Err.Code)
			want.Occ = nil
		}
		checkParse(c, got, err, want, names(g))
	})
}

func genCounts(t *rapid.T, kinds []string, max int) (res []model.Count) {
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "nargs"); i < n; i++ {
		k := rapid.SampledFrom(kinds).Draw(t, "argCount")
		if k[0] == 'e' && k != "except" {
			res = append(res, model.Count{Kind: "exact", N: int(k[5] - '0')})
		} else {
			res = append(res, model.Count{Kind: k})
		}
	}
	return
}

// TestP03_RightToLeft: with k values for args that take one value each, the last
// k args are filled, in order; the surplus goes to the args that take more.
func TestP03_RightToLeft(t *testing.T) {
	pbt.Run(t, "random optional and required args, the last one may take more, and values; non-trivial: fewer values than args, at least one value", 9000, func(c *pbt.C) {
		counts := genCounts(c.T, []string{"opt", "opt", "exact1"}, 5)
		if rapid.IntRange(0, 2).Draw(c.T, "lastKind") == 0 {
			counts[len(counts)-1] = genCounts(c.T, []string{"until", "except", "all", "exact2", "exact3"}, 1)[0]
		}
		values := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "d=e", "", "f"}), 0, 7).Draw(c.T, "values")
		skip := rapid.IntRange(0, 3).Draw(c.T, "skipFlagParsing") == 0
		c.Showf("counts %v values %q skipFlagParsing %v", counts, values, skip)
		n, k := len(counts), len(values)
		last := counts[n-1]
		min := 1
		if last.Kind == "exact" {
			min = last.N
		}
		// the number of args that are filled
		filled := 0
		if k > 0 {
			filled = 1
			if k > min {
				filled += k - min
			}
			if filled > n {
				filled = n
			}
		}
		if filled < n && filled > 0 {
			c.NonTrivial()
		}
		want := make([][]string, n)
		bad := false
		rest := values
		for i := n - filled; i < n; i++ {
			take := 1
			if i == n-1 && last.Kind != "opt" && (last.Kind != "exact") {
				take = len(rest)
			} else if counts[i].Kind == "exact" {
				take = counts[i].N
			}
			if take > len(rest) {
				bad = true
				take = len(rest)
			}
			want[i], rest = rest[:take], rest[take:]
		}
		if len(rest) > 0 {
			bad = true
		}
		for i := range counts {
			if counts[i].Kind == "exact" && len(want[i]) == 0 {
				bad = true
			}
		}
		if k == 0 {
			bad = false
			for i := range counts {
				if counts[i].Kind == "exact" {
					bad = true
				}
			}
		}
		app := newApp("app")
		app.Options = cli.RightToLeft
		if skip {
			app.Options |= cli.SkipFlagParsing
		}
		for i, k := range counts {
			a := &cli.Arg{Name: fmt.Sprintf("a%d", i), NArg: counter(k), Value: cli.List()}
			if k.Kind == "exact" {
				a.NArg = k.N
			}
			a.Options = cli.DisableSplitting
			app.Args = append(app.Args, a)
		}
		got := make([][]string, n)
		ran := false
		app.Action = func(ctx *cli.Context) {
			ran = true
			for i := range counts {
				got[i] = ctx.List(fmt.Sprintf("a%d", i))
			}
		}
		depth := nesting(c.T)
		c.Showf("in a sub-command at depth %d", depth)
		err := run(app, append(nest(app, depth), values...)...)
		c.Label("error %v, %d of %d args filled", bad, filled, n)
		if bad {
			if err == nil || ran {
				c.Failf("no error (ran %v), values %q; a required arg is not filled or a value is left over", ran, got)
			}
			if _, ok := err.(*cli.ParseError); !ok {
				c.Failf("error is %T %v", err, err)
			}
			return
		}
		if err != nil || !ran {
			c.Failf("error %v, ran %v; want %q", err, ran, want)
		}
		for i := range want {
			if !reflect.DeepEqual(strs(got[i]), strs(want[i])) {
				c.Failf("args are %q, want %q", got, want)
			}
		}
	})
}

// TestP03_SkipFlagParsing: every token is a value of an arg.
func TestP03_SkipFlagParsing(t *testing.T) {
	pbt.Run(t, "random flags, args and tokens with SkipFlagParsing; non-trivial: a token is a flag of the app or --", 12000, func(c *pbt.C) {
		g := model.GenGrammar().Draw(c.T, "grammar")
		var counts []model.Count
		if rapid.IntRange(0, 4).Draw(c.T, "anyArgs") > 0 {
			counts = genCounts(c.T, []string{"opt", "exact1", "exact2", "until", "all", "except", "all"}, 3)
		}
		tokens := g.GenTokens(6).Draw(c.T, "tokens")
		inSub := rapid.Bool().Draw(c.T, "inSub")
		c.Showf("flags %+v counts %v tokens %q in a sub-command: %v", g.Flags, counts, tokens, inSub)
		for _, s := range tokens {
			if model.LooksLikeFlag(s) {
				c.NonTrivial()
			}
		}
		want := make([][]string, len(counts))
		i, bad := 0, false
		if len(counts) > 0 {
			for _, v := range tokens {
				for i < len(counts) && (counts[i].Kind == "opt" && len(want[i]) == 1 || counts[i].Kind == "exact" && len(want[i]) == counts[i].N) {
					i++
				}
				if i == len(counts) {
					bad = true
					break
				}
				want[i] = append(want[i], v)
			}
		}
		// an arg with an exact count has all of its values
		for i := range counts {
			if counts[i].Kind == "exact" && len(want[i]) < counts[i].N {
				bad = true
			}
		}
		fl, _ := cliFlags(g)
		cmd := &cli.Command{Name: "sub", Flags: fl, Options: cli.SkipFlagParsing}
		for i, k := range counts {
			a := &cli.Arg{Name: fmt.Sprintf("a%d", i), NArg: counter(k), Value: cli.List(), Options: cli.DisableSplitting}
			if k.Kind == "exact" {
				a.NArg = k.N
			}
			cmd.Args = append(cmd.Args, a)
		}
		ran := 0
		cmd.Action = func(ctx *cli.Context) {
			ran++
			for i := range counts {
				if got := ctx.RawOccurrences(fmt.Sprintf("a%d", i)); !reflect.DeepEqual(strs(got), strs(want[i])) {
					c.Failf("arg %d has the values %q, want %q", i, got, want[i])
				}
			}
			for _, f := range g.Flags {
				if ctx.Seen(f.Name) || ctx.Occurrences(f.Name) != 0 {
					c.Failf("flag %s is seen", f.Name)
				}
			}
			if got := ctx.Args(); len(got) != len(tokens)+1 || !reflect.DeepEqual(strs(got[1:]), strs(tokens)) {
				c.Failf("the args of the context are %q", got)
			}
		}
		app := newApp("app")
		var err error
		if inSub {
			app.Commands = []*cli.Command{cmd}
			err = run(app, append([]string{"sub"}, tokens...)...)
		} else {
			app.Flags, app.Args, app.Options, app.Action = cmd.Flags, cmd.Args, cmd.Options, cmd.Action
			err = run(app, tokens...)
		}
		c.Label("error %v", bad)
		if bad {
			if err == nil || ran > 0 {
				c.Failf("no error (ran %d), although the args cannot hold the values", ran)
			}
			return
		}
		if err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
	})
}
