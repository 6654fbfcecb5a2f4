package core

import (
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// An Action which fails for one of the occurrences of its flag or arg ends the
// run there, whether it is run once or for each of them.
func TestP11_Each(t *testing.T) {
	pbt.Run(t, "random flags and args, some with EachOccurrence, with actions (plain, in a pipeline, Bind, Before and After) of which some fail at some occurrence; non-trivial: an option with EachOccurrence fails at one of several occurrences", 5000, func(c *pbt.C) {
		type opt struct {
			name        string
			isArg, each bool
			form        int
			occ         []string
			failAt      int // the call of the Action which fails, or -1
			afterFails  bool
			err         error
			calls       int
		}
		var opts []*opt
		nf := rapid.IntRange(1, 3).Draw(c.T, "nflags")
		na := rapid.IntRange(0, 2).Draw(c.T, "nargs")
		var flagTokens, argTokens []string
		for i := 0; i < nf+na; i++ {
			o := &opt{name: string(rune('a' + i)), isArg: i >= nf, each: rapid.IntRange(0, 2).Draw(c.T, "each") > 0, failAt: -1}
			o.form = rapid.IntRange(0, 3).Draw(c.T, "form")
			n := rapid.IntRange(0, 4).Draw(c.T, "nocc")
			if o.isArg && i < nf+na-1 {
				n = 2
			}
			for j := 0; j < n; j++ {
				v := fmt.Sprint(o.name, j)
				o.occ = append(o.occ, v)
				if o.isArg {
					argTokens = append(argTokens, v)
				} else {
					flagTokens = append(flagTokens, "-"+o.name, v)
				}
			}
			runs := min(n, 1)
			if o.each {
				runs = n
			}
			if runs > 0 && rapid.IntRange(0, 2).Draw(c.T, "fails") == 0 {
				o.failAt = rapid.IntRange(0, runs-1).Draw(c.T, "failAt")
				if o.each && n > 1 {
					c.NonTrivial()
				}
			}
			if rapid.IntRange(0, 2).Draw(c.T, "errKind") == 0 {
				o.err = cli.Exit("error of "+o.name, rapid.IntRange(1, 100).Draw(c.T, "code"))
			} else {
				o.err = &plainError{o.name}
			}
			opts = append(opts, o)
			c.Showf("%s arg %v each %v form %d occurrences %q fails at %d", o.name, o.isArg, o.each, o.form, o.occ, o.failAt)
		}
		inSub := rapid.IntRange(0, 2).Draw(c.T, "inSub") == 1
		cmdFails := rapid.IntRange(0, 5).Draw(c.T, "cmdFails") == 1
		cmdErr := &plainError{"cmd"}
		c.Showf("sub %v the Action fails %v", inSub, cmdFails)

		var got []string
		cmd := &cli.Command{Name: "sub"}
		for _, o := range opts {
			do := func(v string) error {
				got = append(got, v)
				o.calls++
				if o.calls-1 == o.failAt {
					return o.err
				}
				return nil
			}
			act := cli.ActionOf(func(ctx *cli.Context) error { return do(ctx.String("")) })
			var action any = act
			var uses cli.Action
			switch o.form {
			case 1:
				action = cli.Pipeline(nil, act, func() { got = append(got, "after "+o.name) })
			case 2:
				action = nil
				uses = cli.Bind(do)
			case 3:
				action = nil
				uses = cli.Setup{Action: act}
			}
			after := func() { got = append(got, "After "+o.name) }
			var options cli.Option
			if o.each {
				options = cli.EachOccurrence
			}
			if o.isArg {
				a := &cli.Arg{Name: o.name, Value: new(string), Options: options, Action: action, Uses: uses, After: after, NArg: 2}
				if o == opts[len(opts)-1] {
					a.NArg = cli.TakeUntilNextFlag
				}
				// each token is an occurrence of its own
				cmd.Args = append(cmd.Args, a)
			} else {
				cmd.Flags = append(cmd.Flags, &cli.Flag{Name: o.name, Value: new(string), Options: options, Action: action, Uses: uses, After: after})
			}
		}
		cmd.Action = func() error {
			got = append(got, "cmd")
			if cmdFails {
				return cmdErr
			}
			return nil
		}

		var want []string
		var wantErr error
	plan:
		for _, o := range opts {
			runs := o.occ
			if len(runs) > 0 && !o.each {
				v := o.occ[len(o.occ)-1]
				if o.isArg {
					v = strings.Join(o.occ, " ")
				}
				runs = []string{v}
			}
			for i, v := range runs {
				want = append(want, v)
				if i == o.failAt {
					wantErr = o.err
					break plan
				}
				if o.form == 1 {
					want = append(want, "after "+o.name)
				}
			}
		}
		if wantErr == nil {
			want = append(want, "cmd")
			if cmdFails {
				wantErr = cmdErr
			} else {
				for _, o := range opts {
					want = append(want, "After "+o.name)
				}
			}
		}
		app := newApp("app")
		tokens := append(flagTokens, argTokens...)
		var err error
		if inSub {
			app.Commands = []*cli.Command{cmd}
			err = run(app, append([]string{"sub"}, tokens...)...)
		} else {
			app.Flags, app.Args, app.Action = cmd.Flags, cmd.Args, cmd.Action
			err = run(app, tokens...)
		}
		if err != wantErr {
			c.Failf("the error is %T %v, want %v (after %q)", err, err, wantErr, got)
		}
		if strings.Join(got, "|") != strings.Join(want, "|") {
			c.Failf("ran %q\nwant %q", got, want)
		}
	})
}
