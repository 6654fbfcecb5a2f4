package core

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// lcall is a call which is only for initializers
type lcall struct {
	name string
	at   string // command flag arg any option hookable
	last int    // the last timing which it is for
	do   func(c *cli.Context, action bool) error
}

func either(action bool, c *cli.Context, a cli.Action, method func() error) error {
	if action {
		return c.Do(a)
	}
	return method()
}

var lnothing = func([]string) (any, error) { return "changed", nil }

var lcalls = []lcall{
	{"SetTransform", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.Transform(lnothing), func() error { return c.SetTransform(lnothing) })
	}},
	{"SetOptionalValue", "flag", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.OptionalValue("changed"), func() error { return c.SetOptionalValue("changed") })
	}},
	{"AddAlias", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.Alias("changed"), func() error { return c.AddAlias("changed") })
	}},
	{"RemoveAlias", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.RemoveAlias("k"), func() error { return c.RemoveAlias("k") })
	}},
	{"AddFlag", "any", tInit, func(c *cli.Context, a bool) error {
		f := &cli.Flag{Name: "changed"}
		return either(a, c, cli.AddFlag(f), func() error { return c.AddFlag(f) })
	}},
	{"AddFlags", "any", tInit, func(c *cli.Context, a bool) error {
		f := &cli.Flag{Name: "changed"}
		return either(a, c, cli.AddFlags(f), func() error { return c.AddFlags(f) })
	}},
	{"AddArg", "any", tInit, func(c *cli.Context, a bool) error {
		f := &cli.Arg{Name: "changed"}
		return either(a, c, cli.AddArg(f), func() error { return c.AddArg(f) })
	}},
	{"AddArgs", "any", tInit, func(c *cli.Context, a bool) error {
		f := &cli.Arg{Name: "changed"}
		return either(a, c, cli.AddArgs(f), func() error { return c.AddArgs(f) })
	}},
	{"AddCommand", "any", tInit, func(c *cli.Context, a bool) error {
		f := &cli.Command{Name: "changed"}
		return either(a, c, cli.AddCommand(f), func() error { return c.AddCommand(f) })
	}},
	{"AddCommands", "any", tInit, func(c *cli.Context, a bool) error {
		f := &cli.Command{Name: "changed"}
		return either(a, c, cli.AddCommands(f), func() error { return c.AddCommands(f) })
	}},
	{"RemoveFlag", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.RemoveFlag("flag"), func() error { return c.RemoveFlag("flag") })
	}},
	{"RemoveArg", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.RemoveArg("arg"), func() error { return c.RemoveArg("arg") })
	}},
	{"RemoveCommand", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.RemoveCommand("sub"), func() error { return c.RemoveCommand("sub") })
	}},
	{"Use", "any", tInit, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.At(cli.InitialTiming, x), func() error { return c.Use(x) })
	}},
	{"PreventSetup", "any", tInit, func(c *cli.Context, a bool) error {
		return either(a, c, cli.PreventSetup, func() error { return c.PreventSetup() })
	}},
	{"Customize", "command", tInit, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.Customize("-flag", x), func() error { return c.Customize("-flag", x) })
	}},
	{"Customize itself", "any", tInit, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.Customize("", x), func() error { return c.Customize("", x) })
	}},
	{"Hook", "command", tInit, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.Hook(cli.InitialTiming, x), func() error { return c.Hook(cli.InitialTiming, x) })
	}},
	{"HookBefore", "command", tBefore, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.HookBefore("-flag", x), func() error { return c.HookBefore("-flag", x) })
	}},
	{"Before", "any", tBefore, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.Before(x), func() error { return c.Before(x) })
	}},
	{"At validator", "any", tBefore, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return either(a, c, cli.At(cli.ValidatorTiming, x), func() error { return c.At(cli.ValidatorTiming, x) })
	}},
	{"Action", "any", tAction, func(c *cli.Context, a bool) error {
		x := cli.HelpText("changed")
		return c.Do(cli.At(cli.ActionTiming, x))
	}},
}

// TestP14_Late: the calls that edit or extend what has been initialized are refused
// and change nothing
func TestP14_Late(t *testing.T) {
	pbt.Run(t, "random calls in Before, Action and After of commands, flags and args; non-trivial: two of them are too late", 800, func(c *pbt.C) {
		inSub := rapid.Bool().Draw(c.T, "inSub")
		type plan struct {
			call   lcall
			action bool
		}
		plans := map[string][]plan{}
		n := 0
		for _, target := range []string{"command", "flag", "arg"} {
			for at := tBefore; at <= tAfter; at++ {
				for i, m := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "calls"); i < m; i++ {
					l := rapid.SampledFrom(lcalls).Draw(c.T, "call")
					if l.last >= at || l.at != "any" && l.at != target {
						continue
					}
					k := fmt.Sprintf("%s %s", target, timingNames[at])
					p := plan{l, rapid.Bool().Draw(c.T, "action")}
					plans[k] = append(plans[k], p)
					c.Showf("%s: %s action=%v", k, l.name, p.action)
					n++
				}
			}
		}
		if n > 1 {
			c.NonTrivial()
		}
		var app *cli.App
		cmd := &cli.Command{Name: "cmd"}
		flag := &cli.Flag{Name: "flag", Aliases: []string{"k"}, Value: new(string)}
		arg := &cli.Arg{Name: "arg", Value: new(string)}
		var sub *cli.Command
		describe := func() string {
			var b strings.Builder
			for _, f := range cmd.Flags {
				fmt.Fprintf(&b, "flag %s %q %q %v %v; ", f.Name, f.Aliases, f.HelpText, f.Value == flag.Value, f.Options)
			}
			for _, f := range cmd.Args {
				fmt.Fprintf(&b, "arg %s %q; ", f.Name, f.HelpText)
			}
			for _, f := range cmd.Subcommands {
				fmt.Fprintf(&b, "command %s %q %q; ", f.Name, f.Aliases, f.HelpText)
			}
			fmt.Fprintf(&b, "help %q aliases %q options %v", cmd.HelpText, cmd.Aliases, cmd.Options)
			return b.String()
		}
		done := 0
		var bad string
		hook := func(target string, at int) cli.Action {
			return cli.ActionOf(func(ctx *cli.Context) {
				k := fmt.Sprintf("%s %s", target, timingNames[at])
				for _, p := range plans[k] {
					done++
					before := describe()
					err := p.call.do(ctx, p.action)
					if !errors.Is(err, cli.ErrTimingTooLate) && bad == "" {
						bad = fmt.Sprintf("%s: %s returns %v", k, p.call.name, err)
					}
					if after := describe(); after != before && bad == "" {
						bad = fmt.Sprintf("%s: %s changes\n%s to\n%s", k, p.call.name, before, after)
					}
				}
			})
		}
		flag.Before, flag.Action, flag.After = hook("flag", tBefore), hook("flag", tAction), hook("flag", tAfter)
		arg.Before, arg.Action, arg.After = hook("arg", tBefore), hook("arg", tAction), hook("arg", tAfter)
		cmd.Flags, cmd.Args = []*cli.Flag{flag}, []*cli.Arg{arg}
		sub = &cli.Command{Name: "sub"}
		cmd.Subcommands = []*cli.Command{sub}
		ran := 0
		cmd.Before, cmd.After = hook("command", tBefore), hook("command", tAfter)
		main := hook("command", tAction)
		cmd.Action = func(ctx *cli.Context) error {
			ran++
			if ctx.String("flag") != "x" || ctx.String("arg") != "y" {
				bad = fmt.Sprintf("the values are %q, %q", ctx.String("flag"), ctx.String("arg"))
			}
			return ctx.Do(main)
		}
		line := []string{"--flag", "x", "y"}
		app = newApp("app")
		if inSub {
			app.Commands = []*cli.Command{cmd}
			line = append([]string{"cmd"}, line...)
		} else {
			out := app
			app = cli.NewApp(cmd)
			app.Stdout, app.Stderr, app.Stdin = out.Stdout, out.Stderr, out.Stdin
		}
		if err := run(app, line...); err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
		if bad != "" {
			c.Failf("%s", bad)
		}
		if done != n {
			c.Failf("%d calls were made, want %d", done, n)
		}
	})
}
