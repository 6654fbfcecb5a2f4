package core

import (
	"errors"
	"fmt"
	"slices"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// TestP15_Execute: an arg of one's own that executes a sub-command routes like the built-in one
func TestP15_Execute(t *testing.T) {
	pbt.Run(t, "an arg with ExecuteSubcommand whose command is not found, or follows another arg", 1200, func(c *pbt.C) {
		nsubs := rapid.IntRange(1, 3).Draw(c.T, "nsubs")
		pre := rapid.IntRange(0, 2).Draw(c.T, "pre")
		icept := rapid.SampledFrom([]string{"no", "no", "none", "err", "skip", "cmd"}).Draw(c.T, "intercept")
		handler := rapid.SampledFrom([]string{"no", "no", "err", "cmd", "skip"}).Draw(c.T, "handler")
		index := rapid.IntRange(0, nsubs-1).Draw(c.T, "index")
		inSub := rapid.Bool().Draw(c.T, "inSub")
		asAction := rapid.IntRange(0, 3).Draw(c.T, "asAction") == 1
		name := rapid.SampledFrom([]string{"s0", "s1", "s2", "t0", "t1", "nope", "S0", ""}).Draw(c.T, "name")
		var rest []string
		for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nrest"); i < n; i++ {
			rest = append(rest, rapid.SampledFrom([]string{"x", "s0", "a,b", "y"}).Draw(c.T, "rest"))
		}
		empty := rapid.IntRange(0, 8).Draw(c.T, "empty") == 7
		c.Showf("%d subs, %d args before, intercept %s, handler %s (%d), in a sub-command %v, as the action %v; %q %q, empty %v", nsubs, pre, icept, handler, index, inSub, asAction, name, rest, empty)

		var calls []string
		ran, ranArgs := "", []string(nil)
		cmd := &cli.Command{Name: "cmd", Action: func() { ran += "self " }}
		for i := range nsubs {
			cmd.Subcommands = append(cmd.Subcommands, &cli.Command{
				Name: fmt.Sprint("s", i), Aliases: []string{fmt.Sprint("t", i)},
				Args: []*cli.Arg{{Name: "rest", Value: new([]string), NArg: -1, Options: cli.DisableSplitting}},
				Action: func(ctx *cli.Context) {
					ran += fmt.Sprint("s", i, " ")
					ranArgs = ctx.List("rest")
				},
			})
		}
		make := func(who, kind string) func(*cli.Context, error) (*cli.Command, error) {
			return func(ctx *cli.Context, err error) (*cli.Command, error) {
				calls = append(calls, who+" "+err.Error())
				switch kind {
				case "err":
					return nil, &xerr{who}
				case "skip":
					return nil, cli.ErrSkipCommand
				case "cmd":
					return cmd.Subcommands[index], nil
				}
				return nil, nil
			}
		}
		var f func(*cli.Context, error) (*cli.Command, error)
		if icept != "no" {
			f = make("intercept", icept)
		}
		for i := range pre {
			cmd.Args = append(cmd.Args, &cli.Arg{Name: fmt.Sprint("pre", i), Value: new(string), NArg: 1})
		}
		if asAction {
			cmd.Args = append(cmd.Args, &cli.Arg{Name: "target", Value: new([]string), NArg: -1, Options: cli.DisableSplitting, Action: cli.ExecuteSubcommand(f)})
		} else {
			cmd.Args = append(cmd.Args, &cli.Arg{Name: "target", Uses: cli.ExecuteSubcommand(f)})
		}
		if handler != "no" {
			cmd.Uses = cli.HandleCommandNotFound(make("handler", handler))
		}
		app := newApp("app")
		var tokens []string
		if inSub {
			app.Commands = []*cli.Command{cmd}
			tokens = append(tokens, "cmd")
		} else {
			app.Args, app.Commands, app.Uses, app.Action = cmd.Args, cmd.Subcommands, cmd.Uses, cmd.Action
		}
		for range pre {
			tokens = append(tokens, "v")
		}
		if !empty {
			tokens = append(append(tokens, name), rest...)
		}

		// the model
		var wantCalls []string
		wantRan, wantErr, skipped := "", "", false
		found := -1
		for i := range nsubs {
			if name == fmt.Sprint("s", i) || name == fmt.Sprint("t", i) {
				found = i
			}
		}
		kind, who := icept, "intercept"
		if icept == "no" {
			kind, who = handler, "handler"
		}
		switch {
		case empty:
			wantRan = "self "
			rest = nil
		case found >= 0:
			wantRan = fmt.Sprint("s", found, " ")
		default:
			wantErr = missing(name)
			if kind != "no" {
				wantCalls = []string{who + " " + missing(name)}
			}
			switch kind {
			case "err":
				wantErr = who
			case "skip":
				wantErr, skipped = "", true
			case "cmd":
				wantErr, wantRan = "", fmt.Sprint("s", index, " ")
			}
		}
		if found < 0 || pre > 0 {
			c.NonTrivial()
		}
		c.Label("%s", kind)
		err := run(app, tokens...)
		got := ""
		if err != nil {
			got = err.Error()
		}
		if got != wantErr {
			c.Failf("error %q, want %q", got, wantErr)
		}
		if !slices.Equal(calls, wantCalls) {
			c.Failf("asked %q, want %q", calls, wantCalls)
		}
		if wantErr != "" {
			var pe *cli.ParseError
			if kind != "err" && (!errors.As(err, &pe) || pe.Code != cli.CommandNotFound) {
				c.Failf("error %#v", err)
			}
			wantRan = ""
		}
		if skipped {
			if ran != "" && ran != "self " {
				c.Failf("%q ran although the command is skipped", ran)
			}
			return
		}
		if ran != wantRan {
			c.Failf("%q ran, want %q", ran, wantRan)
		}
		if wantErr == "" && !empty && !slices.Equal(ranArgs, rest) {
			c.Failf("the args are %q, want %q", ranArgs, rest)
		}
	})
}
