package core

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// A flag or arg with a sequence of implicit sources of every kind: the first
// one which has a value is used, later ones report or ignore that the value is
// set already, and none is consulted when the option occurs explicitly.
func TestP07_Sources(t *testing.T) {
	pbt.Run(t, "random flags and args with a random sequence of implicit sources (FromEnv, FromFilePath, ImplicitValue, Implicitly, SetValue), explicit occurrences, in the app or a sub-command; non-trivial: an option has two sources that have a value", 6000, func(c *pbt.C) {
		type source struct {
			kind, key, value string
			has              bool
			calls            int
			implicitly       bool // ImplicitlySet() before
			err              error
		}
		type opt struct {
			oopt
			sources []*source
			ran     int
			impl    bool
		}
		files := fstest.MapFS{}
		var opts []*opt
		var tokens []string
		nf := rapid.IntRange(1, 3).Draw(c.T, "nflags")
		na := rapid.IntRange(0, 1).Draw(c.T, "nargs")
		nenv := 0
		for i := 0; i < nf+na; i++ {
			o := &opt{oopt: genOopt(c.T, i, i >= nf)}
			o.oopt.implied = rapid.Bool().Draw(c.T, "impliedAction")
			for j := rapid.IntRange(1, 4).Draw(c.T, "nsources"); j > 0; j-- {
				s := &source{
					kind:  rapid.SampledFrom([]string{"env", "file", "implicit", "implicit", "probe", "probe", "set", "hookset"}).Draw(c.T, "source"),
					value: rapid.SampledFrom(o.kind.values).Draw(c.T, "sourceValue"),
					has:   rapid.IntRange(0, 2).Draw(c.T, "has") > 0,
				}
				switch s.kind {
				case "env":
					nenv++
					s.key = fmt.Sprintf("VERIF_IMPLICIT_%d", nenv)
					s.has = s.has && s.value != ""
				case "file":
					s.key = fmt.Sprintf("f%d", len(files))
					if s.has {
						files[s.key] = &fstest.MapFile{Data: []byte(s.value)}
					} else {
						s.key = "missing"
					}
				case "set":
					s.has = true
				}
				o.sources = append(o.sources, s)
			}
			for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "nocc"); n > 0; n-- {
				v := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
				o.occ = append(o.occ, v)
				if o.isArg {
					tokens = append(tokens, v)
				} else {
					tokens = append(tokens, "--"+o.long()+"="+v)
				}
			}
			opts = append(opts, o)
			var ss []string
			for _, s := range o.sources {
				ss = append(ss, fmt.Sprintf("%s(%q,%v)", s.kind, s.value, s.has))
			}
			c.Showf("%v sources %s occurrences %q", o.oopt, strings.Join(ss, " "), o.occ)
		}
		inSub := rapid.IntRange(0, 3).Draw(c.T, "inSub") == 1
		cmdImplied := rapid.IntRange(0, 4).Draw(c.T, "cmdImpliedAction") == 1
		c.Showf("tokens %q sub %v command ImpliedAction %v", tokens, inSub, cmdImplied)

		cmd := &cli.Command{Name: "sub"}
		if cmdImplied {
			cmd.Options = cli.ImpliedAction
		}
		var wantErr bool
		for _, o := range opts {
			set := false
			var uses cli.ActionPipeline
			nhas := 0
			for _, s := range o.sources {
				if s.has {
					nhas++
				}
				if s.has && s.kind == "set" && set && len(o.occ) == 0 {
					wantErr = true
				}
				set = set || s.has
				switch s.kind {
				case "env":
					if s.has {
						os.Setenv(s.key, s.value)
						defer os.Unsetenv(s.key)
					}
					uses = append(uses, cli.FromEnv(s.key))
				case "file":
					uses = append(uses, cli.FromFilePath(nil, s.key))
				case "implicit":
					uses = append(uses, cli.ImplicitValue(func(ctx *cli.Context) (string, bool) {
						s.calls++
						return s.value, s.has
					}))
				case "probe":
					uses = append(uses, cli.Implicitly(cli.ActionOf(func(ctx *cli.Context) {
						s.calls++
						s.implicitly = ctx.ImplicitlySet()
						if s.has {
							s.err = ctx.SetValue(s.value)
						}
					})))
				case "hookset":
					uses = append(uses, cli.ActionOf(func(ctx *cli.Context) error {
						return ctx.At(cli.ImplicitValueTiming, cli.ImplicitValue(func(*cli.Context) (string, bool) {
							s.calls++
							return s.value, s.has
						}))
					}))
				case "set":
					uses = append(uses, cli.Implicitly(cli.SetValue(s.value)))
				}
			}
			if nhas > 1 {
				c.NonTrivial()
			}
			action := func(ctx *cli.Context) { o.ran++; o.impl = ctx.ImplicitlySet() }
			if o.isArg {
				cmd.Args = append(cmd.Args, &cli.Arg{Name: o.name, Value: o.pointer(), NArg: cli.TakeUntilNextFlag, Options: o.options(), Action: action, Uses: uses})
			} else {
				cmd.Flags = append(cmd.Flags, &cli.Flag{Name: o.name, Aliases: []string{o.alias}, Value: o.pointer(), Options: o.options(), Action: action, Uses: uses})
			}
		}
		done := 0
		cmd.Action = func(ctx *cli.Context) {
			done++
			for _, o := range opts {
				var first *source
				for _, s := range o.sources {
					explicit := len(o.occ) > 0
					if s.calls > 0 && explicit {
						c.Failf("%s: the implicit source %s runs though the option occurs", o.name, s.kind)
					}
					if s.kind == "probe" && !explicit {
						if s.calls != 1 || s.implicitly != (first != nil) {
							c.Failf("%s: Implicitly ran %d times, ImplicitlySet %v with an earlier value %v", o.name, s.calls, s.implicitly, first != nil)
						}
						if s.has && errors.Is(s.err, cli.ErrImplicitValueAlreadySet) != (first != nil) {
							c.Failf("%s: SetValue gives %v with an earlier value %v", o.name, s.err, first != nil)
						}
					}
					if s.has && first == nil {
						first = s
					}
				}
				var want any
				runs, implicit := 0, false
				switch {
				case len(o.occ) > 0:
					want, runs = o.fold(o.occ), 1
				case first != nil:
					implicit = true
					want = o.fold([]string{first.value})
					if o.oopt.implied || cmdImplied {
						runs = 1
					}
				default:
					want = o.defaultValue()
				}
				if got := vtext(ctx.Value(o.name)); got != vtext(want) {
					c.Failf("%s is %s, want %s", o.name, got, vtext(want))
				}
				if o.ran != runs || runs == 1 && o.impl != implicit {
					c.Failf("the Action of %s ran %d times (want %d), ImplicitlySet %v", o.name, o.ran, runs, o.impl)
				}
				if ctx.Occurrences(o.name) != len(o.occ) || ctx.Seen(o.name) != (len(o.occ) > 0) {
					c.Failf("%s: Occurrences %d, Seen %v; %d occurrences", o.name, ctx.Occurrences(o.name), ctx.Seen(o.name), len(o.occ))
				}
			}
		}
		app := newApp("app")
		app.FS = files
		var err error
		if inSub {
			app.Commands = []*cli.Command{cmd}
			err = run(app, append([]string{"sub"}, tokens...)...)
		} else {
			app.Flags, app.Args, app.Action, app.Options = cmd.Flags, cmd.Args, cmd.Action, cmd.Options
			err = run(app, tokens...)
		}
		if wantErr {
			if !errors.Is(err, cli.ErrImplicitValueAlreadySet) || done != 0 {
				c.Failf("two values set implicitly: error %v, ran %d", err, done)
			}
			return
		}
		if err != nil || done != 1 {
			c.Failf("error %v, ran %d", err, done)
		}
	})
}
