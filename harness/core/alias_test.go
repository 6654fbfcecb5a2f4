package core

import (
	"errors"
	"fmt"
	"slices"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// aedit adds or removes aliases
type aedit struct {
	add    bool
	names  []string
	action bool // through the action rather than the method
}

func (e aedit) do(ctx *cli.Context) error {
	if e.add {
		if e.action {
			return ctx.Do(cli.Alias(e.names...))
		}
		return ctx.AddAlias(e.names...)
	}
	if e.action {
		return ctx.Do(cli.RemoveAlias(e.names[0]))
	}
	return ctx.RemoveAlias(e.names[0])
}

// TestP14_Aliases: the aliases that initializers add and remove are those by which
// a flag or command can be used
func TestP14_Aliases(t *testing.T) {
	pbt.Run(t, "an alias is added and an alias that is there is removed", 1500, func(c *pbt.C) {
		pool := []string{"k", "l", "kk", "ll", "m-m", "name"}
		kind := rapid.SampledFrom([]string{"flag", "flag", "command", "arg"}).Draw(c.T, "kind")
		aliases := drawNames(c.T, pool[:5], "aliases", 3)
		init := slices.Clone(aliases)
		draw := func(where string, n int) (res []aedit) {
			for i := 0; i < n; i++ {
				e := aedit{add: rapid.Bool().Draw(c.T, where), action: rapid.Bool().Draw(c.T, "action")}
				if e.add {
					e.names = drawNames(c.T, pool[:5], "names", 2)
				}
				if len(e.names) == 0 {
					e.add, e.names = false, []string{rapid.SampledFrom(pool).Draw(c.T, "remove")}
				}
				res = append(res, e)
			}
			return
		}
		own := draw("own", rapid.IntRange(0, 4).Draw(c.T, "nown"))
		hook := draw("hook", rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "nhook"))
		late := draw("late", rapid.SampledFrom([]int{0, 0, 1}).Draw(c.T, "nlate"))
		want := slices.Clone(init)
		var added, removed bool
		// hooks of the app run before the initializers of the option
		for _, e := range append(slices.Clone(hook), own...) {
			if e.add {
				added = true
				want = append(want, e.names...)
				continue
			}
			removed = removed || slices.Contains(want, e.names[0])
			want = slices.DeleteFunc(want, func(s string) bool { return s == e.names[0] })
		}
		if kind == "arg" {
			want = nil
		}
		if added && removed {
			c.NonTrivial()
		}
		use := rapid.SampledFrom(append(slices.Clone(pool), "nope")).Draw(c.T, "use")
		c.Showf("%s name %q; own %v; hook %v; late %v; use %q", kind, init, own, hook, late, use)
		c.Label("%s", kind)

		do := func(edits []aedit) cli.Action {
			return cli.ActionOf(func(ctx *cli.Context) error {
				for _, e := range edits {
					if err := e.do(ctx); err != nil {
						return err
					}
				}
				return nil
			})
		}
		var got []string
		checked := 0
		before := func(ctx *cli.Context) {
			checked++
			got = slices.Clone(ctx.Aliases())
			for _, e := range late {
				if err := e.do(ctx); !errors.Is(err, cli.ErrTimingTooLate) {
					c.Failf("%v after the initialization gives %v", e, err)
				}
			}
			if !slices.Equal(ctx.Aliases(), got) {
				c.Failf("an edit after the initialization changes the aliases to %q", ctx.Aliases())
			}
		}
		app := newApp("app")
		ran := ""
		app.Action = func() { ran += "app" }
		var tokens []string
		switch kind {
		case "flag":
			app.Flags = []*cli.Flag{{Name: "name", Aliases: init, Value: new(bool), Uses: do(own), Before: before, Action: func() { ran += "name " }}}
			app.Uses = cli.Customize("-name", do(hook))
			tokens = []string{"--" + use}
			if len(use) == 1 {
				tokens = []string{"-" + use}
			}
		case "command":
			app.Commands = []*cli.Command{{Name: "name", Aliases: init, Uses: do(own), Before: before, Action: func() { ran += "name " }}}
			app.Uses = cli.Customize("name", do(hook))
			tokens = []string{use}
		case "arg":
			app.Args = []*cli.Arg{{Name: "name", Value: new(string), Uses: do(own), Before: before, Action: func() { ran += "name " }}}
			app.Uses = cli.Customize("<name>", do(hook))
			tokens = []string{"x"}
			use = "name"
		}
		err := run(app, tokens...)
		ok := use == "name" || slices.Contains(want, use)
		if ok != (err == nil) {
			c.Failf("the aliases should be %q; using %q gives %v", want, use, err)
		}
		if !ok {
			code := cli.UnknownOption
			if kind == "command" {
				code = cli.CommandNotFound
			}
			var pe *cli.ParseError
			if !errors.As(err, &pe) || pe.Code != code {
				c.Failf("using %q gives %v", use, err)
			}
			if kind == "flag" {
				return
			}
		} else if wantRan := map[string]string{"flag": "name app", "arg": "name app", "command": "name "}[kind]; ran != wantRan {
			c.Failf("%q ran, want %q", ran, wantRan)
		}
		if kind == "command" && !ok {
			return
		}
		if checked != 1 || !slices.Equal(got, want) {
			c.Failf("the aliases are %q, want %q (%d)", got, want, checked)
		}
		if kind == "flag" {
			names := []string{"--name"}
			for _, a := range want {
				if len(a) == 1 {
					names = append(names, "-"+a)
				} else {
					names = append(names, "--"+a)
				}
			}
			if f, _ := app.Flag("name"); f != nil && fmt.Sprint(f.Names()) != fmt.Sprint(names) {
				c.Failf("the names are %q, want %q", f.Names(), names)
			}
		}
	})
}

// hidden is a flag, arg or command that may be hidden
type hidden struct {
	kind, name string
	how        []string
	want       bool
	flag       *cli.Flag
	arg        *cli.Arg
	cmd        *cli.Command
}

// TestP18_Visible: what was hidden, and only this, is left out of what is visible
func TestP18_Visible(t *testing.T) {
	pbt.Run(t, "something is hidden and something else of the kind is not", 2000, func(c *pbt.C) {
		noAuto := rapid.IntRange(0, 4).Draw(c.T, "noAuto") == 3
		var all []*hidden
		count := map[string][2]int{}
		for i, n := 0, rapid.IntRange(1, 7).Draw(c.T, "n"); i < n; i++ {
			h := &hidden{kind: rapid.SampledFrom([]string{"flag", "arg", "cmd"}).Draw(c.T, "kind")}
			h.name = fmt.Sprintf("%s%d", h.kind, i)
			if h.kind != "arg" && rapid.IntRange(0, 3).Draw(c.T, "underscore") == 1 {
				h.name = "_" + h.name
			}
			if rapid.Bool().Draw(c.T, "has") {
				h.how = append(h.how, rapid.SampledFrom([]string{"Options", "Hidden", "SetHidden", "method", "Visible", "unhide", "later"}).Draw(c.T, "how"))
			}
			h.want = h.name[0] == '_' && !noAuto
			for _, w := range h.how {
				h.want = w != "Visible" && w != "unhide"
				if w == "unhide" {
					// the automatism may hide it again
					h.name = h.kind + h.name
				}
			}
			k := count[h.kind]
			if h.want {
				k[0]++
			} else {
				k[1]++
			}
			count[h.kind] = k
			all = append(all, h)
		}
		for _, k := range count {
			if k[0] > 0 && k[1] > 0 {
				c.NonTrivial()
			}
		}
		cmd := &cli.Command{Name: "sub"}
		var want [3][]string
		for _, h := range all {
			var opt cli.Option
			var uses cli.Action
			var set interface{ SetHidden(bool) }
			pre := false
			switch {
			case slices.Contains(h.how, "Options"):
				opt = cli.Hidden
			case slices.Contains(h.how, "Visible"):
				opt = cli.Visible
			case slices.Contains(h.how, "Hidden"):
				uses = cli.Hidden
			case slices.Contains(h.how, "SetHidden"):
				uses = cli.ActionOf(func(*cli.Context) { set.SetHidden(true) })
			case slices.Contains(h.how, "unhide"):
				uses = cli.Pipeline(cli.Hidden, func(*cli.Context) { set.SetHidden(false) })
			case slices.Contains(h.how, "method"):
				pre = true
			}
			i := 0
			switch h.kind {
			case "flag":
				h.flag = &cli.Flag{Name: h.name, Value: new(bool), Options: opt, Uses: uses}
				set = h.flag
				cmd.Flags = append(cmd.Flags, h.flag)
			case "arg":
				h.arg = &cli.Arg{Name: h.name, Value: new(string), Options: opt, Uses: uses}
				set = h.arg
				cmd.Args = append(cmd.Args, h.arg)
				i = 1
			case "cmd":
				h.cmd = &cli.Command{Name: h.name, Options: opt, Uses: uses, Action: func() {}}
				set = h.cmd
				cmd.Subcommands = append(cmd.Subcommands, h.cmd)
				i = 2
			}
			if pre {
				set.SetHidden(true)
			}
			if !h.want {
				want[i] = append(want[i], h.name)
			}
			c.Showf("%s %q hidden %v", h.name, h.how, h.want)
		}
		if noAuto {
			cmd.Options = cli.DisableAutoVisibility
		}
		c.Showf("automatic: %v", !noAuto)
		app := newApp("app")
		app.Commands = []*cli.Command{cmd}
		ran := 0
		cmd.Action = func(ctx *cli.Context) {
			ran++
			for _, h := range all {
				if slices.Contains(h.how, "later") {
					switch h.kind {
					case "flag":
						h.flag.SetHidden(true)
					case "arg":
						h.arg.SetHidden(true)
					case "cmd":
						h.cmd.SetHidden(true)
					}
				}
			}
			var got [3][]string
			for _, f := range ctx.Command().VisibleFlags() {
				if f.Name != "help" && f.Name != "version" {
					got[0] = append(got[0], f.Name)
				}
			}
			for _, f := range ctx.Command().VisibleArgs() {
				if f.Name != "command" {
					got[1] = append(got[1], f.Name)
				}
			}
			for _, f := range ctx.Command().VisibleSubcommands() {
				if f.Name != "help" && f.Name != "version" {
					got[2] = append(got[2], f.Name)
				}
			}
			for i := range got {
				if !slices.Equal(got[i], want[i]) {
					c.Failf("visible %q, want %q", got[i], want[i])
				}
			}
		}
		if err := run(app, "sub"); err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
	})
}
