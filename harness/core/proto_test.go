package core

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// fields are what a target, a prototype and the setters can give
type fields struct {
	Name, Category, HelpText, ManualText, UsageText, Description, DefaultText, FilePath string
	Aliases, EnvVars                                                                    []string
	Data                                                                                map[string]any
	Hidden                                                                              bool
}

func drawFields(t *rapid.T, tag string, name, alias bool) fields {
	opt := func(s string) string {
		if rapid.IntRange(0, 2).Draw(t, s) == 0 {
			return tag + s
		}
		return ""
	}
	f := fields{Category: opt("Cat"), HelpText: opt("Help"), ManualText: opt("Man"), UsageText: opt("Usage"), Description: opt("Desc"),
		DefaultText: opt("Def"), FilePath: opt("File"), Hidden: rapid.IntRange(0, 4).Draw(t, "hidden") == 0}
	if name {
		f.Name = tag + "Name"
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "aliases"); i < n && alias; i++ {
		f.Aliases = append(f.Aliases, fmt.Sprintf("%sAlias%d", tag, i))
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "env"); i < n; i++ {
		f.EnvVars = append(f.EnvVars, fmt.Sprintf("%sEnv%d", tag, i))
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "data"); i < n; i++ {
		if f.Data == nil {
			f.Data = map[string]any{}
		}
		f.Data[rapid.SampledFrom([]string{"k1", "k2", "k3"}).Draw(t, "key")] = tag
	}
	return f
}

func (f fields) text() string {
	var s []string
	v := reflect.ValueOf(f)
	for i := 0; i < v.NumField(); i++ {
		if !v.Field(i).IsZero() {
			s = append(s, fmt.Sprintf("%s:%v", v.Type().Field(i).Name, v.Field(i).Interface()))
		}
	}
	return "{" + strings.Join(s, " ") + "}"
}

func (f fields) prototype() cli.Prototype {
	p := cli.Prototype{Name: f.Name, Category: f.Category, HelpText: f.HelpText, ManualText: f.ManualText, UsageText: f.UsageText,
		DefaultText: f.DefaultText, FilePath: f.FilePath, Aliases: f.Aliases, EnvVars: f.EnvVars, Data: f.Data}
	if f.Description != "" {
		p.Description = f.Description
	}
	if f.Hidden {
		p.Options = cli.Hidden
	}
	return p
}

// merged is the documented effect of a prototype
func (f fields) merged(p fields) fields {
	or := func(a, b string) string {
		if a == "" {
			return b
		}
		return a
	}
	r := fields{Name: or(f.Name, p.Name), Category: or(f.Category, p.Category), HelpText: or(f.HelpText, p.HelpText),
		ManualText: or(f.ManualText, p.ManualText), UsageText: or(f.UsageText, p.UsageText), Description: or(f.Description, p.Description),
		DefaultText: or(f.DefaultText, p.DefaultText), FilePath: or(f.FilePath, p.FilePath), Hidden: f.Hidden || p.Hidden}
	r.Aliases = append(append([]string(nil), f.Aliases...), p.Aliases...)
	r.EnvVars = append(append([]string(nil), f.EnvVars...), p.EnvVars...)
	r.Data = map[string]any{}
	for _, m := range []map[string]any{f.Data, p.Data} {
		for k, v := range m {
			r.Data[k] = v
		}
	}
	return r
}

// set is the effect of the setters: they overwrite
func (f fields) set(p fields) fields {
	r := p.merged(f)
	r.Aliases = append(append([]string(nil), f.Aliases...), p.Aliases...)
	r.EnvVars, r.FilePath, r.DefaultText = f.EnvVars, f.FilePath, f.DefaultText
	r.Hidden = f.Hidden || p.Hidden
	for k, v := range p.Data {
		r.Data[k] = v
	}
	return r
}

func (f fields) setters(how int) cli.Action {
	var all cli.ActionPipeline
	if how == 0 {
		add := func(ok bool, a cli.Action) {
			if ok {
				all = append(all, a)
			}
		}
		add(f.Name != "", cli.Named(f.Name))
		add(f.Category != "", cli.Category(f.Category))
		add(f.HelpText != "", cli.HelpText(f.HelpText))
		add(f.ManualText != "", cli.ManualText(f.ManualText))
		add(f.UsageText != "", cli.UsageText(f.UsageText))
		add(f.Description != "", cli.Description(f.Description))
		add(len(f.Aliases) > 0, cli.Alias(f.Aliases...))
		add(f.Hidden, cli.Hidden)
		for k, v := range f.Data {
			add(true, cli.Data(k, v))
		}
		return all
	}
	return cli.ActionFunc(func(c *cli.Context) (err error) {
		do := func(ok bool, f func() error) {
			if ok && err == nil {
				err = f()
			}
		}
		do(f.Name != "", func() error { return c.SetName(f.Name) })
		do(f.Category != "", func() error { return c.SetCategory(f.Category) })
		do(f.HelpText != "", func() error { return c.SetHelpText(f.HelpText) })
		do(f.ManualText != "", func() error { return c.SetManualText(f.ManualText) })
		do(f.UsageText != "", func() error { return c.SetUsageText(f.UsageText) })
		do(f.Description != "", func() error { return c.SetDescription(f.Description) })
		for _, a := range f.Aliases {
			do(true, func() error { return c.AddAlias(a) })
		}
		do(f.Hidden, func() error { return c.Do(cli.Hidden) })
		for k, v := range f.Data {
			do(true, func() error { return c.SetData(k, v) })
		}
		return
	})
}

func TestP14_Prototype(t *testing.T) {
	pbt.Run(t, "two or more targets and a prototype that gives something", 700, func(c *pbt.C) {
		type target struct {
			kind    string
			own     fields
			protos  []int
			setters *fields
			how     int
			prevent bool
			want    fields
			flag    *cli.Flag
			arg     *cli.Arg
			cmd     *cli.Command
		}
		var protos []fields
		for i, n := 0, rapid.IntRange(1, 2).Draw(c.T, "protos"); i < n; i++ {
			protos = append(protos, drawFields(c.T, fmt.Sprintf("p%d", i), rapid.IntRange(0, 3).Draw(c.T, "named") == 0, true))
		}
		// what a prototype gives must not be shared by the targets
		var shared []cli.Prototype
		for _, p := range protos {
			shared = append(shared, p.prototype())
		}
		preventAll := rapid.IntRange(0, 6).Draw(c.T, "preventAll") == 0
		var targets []*target
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "targets"); i < n; i++ {
			x := &target{kind: rapid.SampledFrom([]string{"flag", "arg", "cmd"}).Draw(c.T, "kind"),
				prevent: rapid.IntRange(0, 6).Draw(c.T, "prevent") == 0}
			x.own = drawFields(c.T, fmt.Sprintf("t%d", i), true, x.kind != "arg")
			x.want = x.own.merged(fields{})
			for j := range protos {
				if rapid.Bool().Draw(c.T, "uses") {
					x.protos = append(x.protos, j)
					if !x.prevent && !preventAll {
						x.want = x.want.merged(protos[j])
					}
				}
			}
			if rapid.IntRange(0, 2).Draw(c.T, "hasSetters") == 0 {
				s := drawFields(c.T, fmt.Sprintf("s%d", i), rapid.IntRange(0, 2).Draw(c.T, "renames") == 0, true)
				x.setters, x.how = &s, rapid.IntRange(0, 1).Draw(c.T, "how")
				x.want = x.want.set(s)
			}
			targets = append(targets, x)
			c.Showf("%s %s prototypes %v prevented %v", x.kind, x.own.text(), x.protos, x.prevent || preventAll)
			if x.setters != nil {
				c.Showf("   set to %s", x.setters.text())
			}
		}
		some := false
		for i, p := range protos {
			c.Showf("prototype %d: %s", i, p.text())
			some = some || p.text() != "{}"
		}
		if len(targets) > 1 && some {
			c.NonTrivial()
		}
		names := map[string]bool{}
		for _, x := range targets {
			if names[x.want.Name] && x.kind != "cmd" {
				return
			}
			names[x.want.Name] = true
		}
		app := newApp("app")
		if preventAll {
			app.Options = cli.PreventSetup
		}
		for i, x := range targets {
			uses := cli.ActionPipeline{}
			for _, j := range x.protos {
				uses = append(uses, shared[j])
			}
			if x.setters != nil {
				uses = append(uses, x.setters.setters(x.how))
			}
			uses = append(uses, cli.Data(fmt.Sprintf("only%d", i), i))
			x.want.Data[fmt.Sprintf("only%d", i)] = i
			o := x.own
			var options cli.Option
			if o.Hidden {
				options = cli.Hidden
			}
			if x.prevent {
				options |= cli.PreventSetup
			}
			data := map[string]any(nil)
			if o.Data != nil {
				data = map[string]any{}
				for k, v := range o.Data {
					data[k] = v
				}
			}
			var desc any
			if o.Description != "" {
				desc = o.Description
			}
			switch x.kind {
			case "flag":
				x.flag = &cli.Flag{Name: o.Name, Aliases: append([]string(nil), o.Aliases...), Category: o.Category, HelpText: o.HelpText, ManualText: o.ManualText, UsageText: o.UsageText,
					Description: desc, DefaultText: o.DefaultText, FilePath: o.FilePath, EnvVars: append([]string(nil), o.EnvVars...), Data: data, Options: options, Uses: uses}
				app.Flags = append(app.Flags, x.flag)
			case "arg":
				x.arg = &cli.Arg{Name: o.Name, Category: o.Category, HelpText: o.HelpText, ManualText: o.ManualText, UsageText: o.UsageText,
					Description: desc, DefaultText: o.DefaultText, FilePath: o.FilePath, EnvVars: append([]string(nil), o.EnvVars...), Data: data, Options: options, Uses: uses}
				app.Args = append(app.Args, x.arg)
			case "cmd":
				x.cmd = &cli.Command{Name: o.Name, Aliases: append([]string(nil), o.Aliases...), Category: o.Category, HelpText: o.HelpText, ManualText: o.ManualText, UsageText: o.UsageText,
					Description: desc, Data: data, Options: options, Uses: uses}
				app.Commands = append(app.Commands, x.cmd)
			}
		}
		if _, err := app.Initialize(context.Background()); err != nil {
			c.Failf("error %v", err)
		}
		for i, x := range targets {
			var got fields
			desc := func(v any) string {
				if v == nil {
					return ""
				}
				return fmt.Sprint(v)
			}
			want := x.want
			switch x.kind {
			case "flag":
				f := x.flag
				got = fields{Name: f.Name, Category: f.Category, HelpText: f.HelpText, ManualText: f.ManualText, UsageText: f.UsageText, Description: desc(f.Description),
					DefaultText: f.DefaultText, FilePath: f.FilePath, Aliases: f.Aliases, EnvVars: f.EnvVars, Data: f.Data, Hidden: f.Options&cli.Hidden != 0}
			case "arg":
				f := x.arg
				got = fields{Name: f.Name, Category: f.Category, HelpText: f.HelpText, ManualText: f.ManualText, UsageText: f.UsageText, Description: desc(f.Description),
					DefaultText: f.DefaultText, FilePath: f.FilePath, EnvVars: f.EnvVars, Data: f.Data, Hidden: f.Options&cli.Hidden != 0}
				want.Aliases = nil
			case "cmd":
				f := x.cmd
				got = fields{Name: f.Name, Category: f.Category, HelpText: f.HelpText, ManualText: f.ManualText, UsageText: f.UsageText, Description: desc(f.Description),
					Aliases: f.Aliases, Data: f.Data, Hidden: f.Options&cli.Hidden != 0}
				want.DefaultText, want.FilePath, want.EnvVars = "", "", nil
			}
			// the action Hidden does not show in the Options field
			want.Hidden = false
			got.Hidden = false
			show := func(f fields) string {
				var data []string
				for k, v := range f.Data {
					data = append(data, fmt.Sprintf("%s=%v", k, v))
				}
				sort.Strings(data)
				f.Data = nil
				return f.text() + strings.Join(data, ",")
			}
			if a, b := show(got), show(want); a != b {
				c.Failf("target %d (%s) is\n  %s\nwant\n  %s", i, x.kind, a, b)
			}
		}
	})
}

// TestP14_Names: which sets of names are accepted
func TestP14_Names(t *testing.T) {
	pbt.Run(t, "two or more flags and args", 800, func(c *pbt.C) {
		pool := []string{"", "a", "b", "long", "two words", "x=y", "long", "a", "under_score", "n1", "é"}
		var flags, args []string
		for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nflags"); i < n; i++ {
			flags = append(flags, rapid.SampledFrom(pool).Draw(c.T, "flag"))
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nargs"); i < n; i++ {
			args = append(args, rapid.SampledFrom([]string{"", "a", "b", "long", "", "c"}).Draw(c.T, "arg"))
		}
		rename := rapid.Bool().Draw(c.T, "rename")
		inSub := rapid.Bool().Draw(c.T, "inSub")
		c.Showf("flags %q args %q (named in the initializer: %v), in a sub-command: %v", flags, args, rename, inSub)
		if len(flags)+len(args) > 1 {
			c.NonTrivial()
		}
		var bad []string
		seen := map[string]bool{}
		for _, a := range args {
			if a == "" {
				continue
			}
			if seen[a] {
				bad = append(bad, fmt.Sprintf("duplicate name used: %q", a))
			}
			seen[a] = true
		}
		for i, f := range flags {
			switch {
			case f == "":
				bad = append(bad, fmt.Sprintf("#%d must have a name", i))
			case strings.ContainsAny(f, " =") || f == "é":
				bad = append(bad, "not a valid name")
			case seen[f]:
				bad = append(bad, fmt.Sprintf("duplicate name used: %q", f))
			}
			seen[f] = true
		}
		var values []string
		cmd := &cli.Command{Name: "sub", Action: func(ctx *cli.Context) {
			for i, a := range ctx.LocalArgs() {
				want := ""
				if i < len(args) {
					want = args[i]
				}
				if want == "" {
					want = fmt.Sprintf("_%d", i+1)
				}
				if a.Name != want {
					c.Failf("the arg %d is named %q, want %q", i, a.Name, want)
				}
				values = append(values, fmt.Sprint(ctx.Value(i)), fmt.Sprint(ctx.Value(want)))
			}
		}}
		for _, f := range flags {
			x := &cli.Flag{Name: f}
			if rename {
				x = &cli.Flag{Uses: cli.Named(f)}
			}
			cmd.Flags = append(cmd.Flags, x)
		}
		for _, a := range args {
			x := &cli.Arg{Name: a}
			if rename {
				x = &cli.Arg{Uses: cli.Named(a)}
			}
			cmd.Args = append(cmd.Args, x)
		}
		app := newApp("app")
		var tokens []string
		if inSub {
			app.Commands = []*cli.Command{cmd}
			tokens = []string{"sub"}
		} else {
			app.Flags, app.Args, app.Action = cmd.Flags, cmd.Args, cmd.Action
		}
		var want []string
		for i := range args {
			tokens = append(tokens, fmt.Sprintf("v%d", i))
			want = append(want, fmt.Sprintf("v%d", i), fmt.Sprintf("v%d", i))
		}
		err := run(app, tokens...)
		c.Label("%d mistakes", len(bad))
		if len(bad) == 0 {
			if err != nil {
				c.Failf("error %v", err)
			}
			if strings.Join(values, " ") != strings.Join(want, " ") {
				c.Failf("the values are %q, want %q", values, want)
			}
			return
		}
		if err == nil {
			c.Failf("no error, want %q", bad)
		}
		if values != nil {
			c.Failf("the action ran")
		}
		for _, b := range bad {
			if !strings.Contains(err.Error(), b) {
				c.Failf("the error %q does not say %q", err, b)
			}
		}
	})
}
