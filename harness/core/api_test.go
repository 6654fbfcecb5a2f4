package core

import (
	"fmt"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// TestP06_Api: occurrences that the program makes count like those of the command line
func TestP06_Api(t *testing.T) {
	pbt.Run(t, "options whose occurrences come from the command line, from SetOccurrence, or from RawParse and ApplyTo; non-trivial: an option occurs at least twice", 6000, func(c *pbt.C) {
		var opts []*oopt
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "nflags"); i < n; i++ {
			o := genOopt(c.T, i, false)
			opts = append(opts, &o)
		}
		if rapid.Bool().Draw(c.T, "hasArg") {
			o := genOopt(c.T, 0, true)
			opts = append(opts, &o)
		}
		via := rapid.SampledFrom([]string{"line", "SetOccurrence", "lookup", "ApplyTo", "mixed"}).Draw(c.T, "via")
		var tokens []string
		type step struct {
			o *oopt
			v string
		}
		var later []step
		for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "nocc"); i < n; i++ {
			o := rapid.SampledFrom(opts).Draw(c.T, "which")
			v := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
			o.occ = append(o.occ, v)
			if len(o.occ) > 1 {
				c.NonTrivial()
			}
			onLine := via == "line" || via == "ApplyTo" || via == "mixed" && len(later) == 0 && rapid.Bool().Draw(c.T, "line")
			if !onLine {
				later = append(later, step{o, v})
				continue
			}
			switch {
			case o.isArg:
				tokens = append(tokens, v)
			case rapid.Bool().Draw(c.T, "short") && o.kind.name != "bool":
				tokens = append(tokens, "-"+o.short()+v)
			default:
				tokens = append(tokens, "--"+o.long()+"="+v)
			}
		}
		c.Label("%s", via)
		c.Showf("%s: tokens %q, later %d", via, tokens, len(later))
		for _, o := range opts {
			c.Showf("%v %q", *o, o.occ)
		}

		app := newApp("app")
		targets := map[string]cli.BindingState{}
		for _, o := range opts {
			if o.isArg {
				a := &cli.Arg{Name: o.name, Value: o.pointer(), NArg: cli.TakeExceptForFlags, Options: o.options()}
				targets[o.name] = a
				app.Args = append(app.Args, a)
			} else {
				f := &cli.Flag{Name: o.name, Aliases: []string{o.alias}, Value: o.pointer(), Options: o.options()}
				targets[o.name] = f
				app.Flags = append(app.Flags, f)
			}
		}
		ran := 0
		app.Action = func(ctx *cli.Context) {
			ran++
			if via == "ApplyTo" {
				b := cli.NewBinding(ctx.Command().Flags, ctx.Command().Args, nil)
				bm, err := cli.RawParse(tokens, b, 0)
				if err != nil {
					c.Failf("RawParse: %v", err)
				}
				if err := bm.ApplyTo(b); err != nil {
					c.Failf("ApplyTo: %v", err)
				}
				for _, o := range opts {
					if got, want := fmt.Sprintf("%q", bm.RawOccurrences(o.name)), fmt.Sprintf("%q", append([]string{}, o.occ...)); got != want {
						c.Failf("RawOccurrences of %s are %s, want %s", o.name, got, want)
					}
					if got := len(bm.Bindings(o.name)); got != len(o.occ) {
						c.Failf("%s has %d bindings, want %d", o.name, got, len(o.occ))
					}
				}
			}
			for _, s := range later {
				target := targets[s.o.name]
				if via == "lookup" {
					if s.o.isArg {
						target, _ = ctx.LookupArg(s.o.name)
					} else {
						target, _ = ctx.LookupFlag(s.o.alias)
					}
				}
				if err := target.SetOccurrence(s.v); err != nil {
					c.Failf("SetOccurrence of %s %q: %v", s.o.name, s.v, err)
				}
			}
			for _, o := range opts {
				if got, want := vtext(ctx.Value(o.name)), vtext(o.fold(o.occ)); got != want {
					c.Failf("%s is %s, want %s", o.name, got, want)
				}
				if ctx.Occurrences(o.name) != len(o.occ) || ctx.Seen(o.name) != (len(o.occ) > 0) {
					c.Failf("%s: Occurrences %d, Seen %v; %d occurrences", o.name, ctx.Occurrences(o.name), ctx.Seen(o.name), len(o.occ))
				}
			}
		}
		line := tokens
		if via == "ApplyTo" {
			line = nil
		}
		if err := run(app, line...); err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
	})
}
