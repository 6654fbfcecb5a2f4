package core

import (
	"fmt"
	"strings"
	"testing"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// inner runs flags with one feature each, which are defined in an app or a
// sub-command and used at this level or below it (where they have the same
// effect).
func inner(c *pbt.C, features ...string) {
	depth := rapid.IntRange(1, 2).Draw(c.T, "depth")
	names := []string{"app", "sub", "subsub"}[:depth+1]
	files := fstest.MapFS{"one": {Data: []byte("first, file")}, "two": {Data: []byte("2")}}
	type flag struct {
		name    string
		feature string
		level   int
		alias   bool
		uses    [][]string // values by level of use
		got     []string   // what the feature saw
		want    []string
		value   string
	}
	var flags []*flag
	tokens := make([][]string, depth+1)
	exitAt := -1
	for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "nflags"); i < n; i++ {
		f := &flag{
			name:    fmt.Sprintf("flag-%c", 'a'+i),
			feature: rapid.SampledFrom(features).Draw(c.T, "feature"),
			level:   rapid.IntRange(0, depth).Draw(c.T, "level"),
			alias:   rapid.Bool().Draw(c.T, "alias"),
			uses:    make([][]string, depth+1),
		}
		for l := f.level; l <= depth; l++ {
			k := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "nocc")
			if f.feature == "exits" {
				k = min(k, 1)
			}
			for ; k > 0; k-- {
				v := rapid.SampledFrom([]string{"a", "b,c", "x y", "1"}).Draw(c.T, "value")
				tok := "--" + f.name + "="
				if f.alias {
					tok = "-" + f.name[5:]
				}
				switch f.feature {
				case "file":
					v = rapid.SampledFrom([]string{"one", "two"}).Draw(c.T, "file")
					tok += v
				case "optional":
					if rapid.Bool().Draw(c.T, "omitted") {
						tok, v = strings.TrimSuffix(tok, "="), "opt"
					} else {
						tok = "--" + f.name + "=" + v
					}
				case "exits":
					tok, v = strings.TrimSuffix(tok, "="), "true"
					if exitAt < 0 || l < exitAt {
						exitAt = l
					}
				case "bindvalue":
					tok, v = strings.TrimSuffix(tok, "="), "given"
				default:
					tok += v
				}
				tokens[l] = append(tokens[l], tok)
				f.uses[l] = append(f.uses[l], v)
				if l > f.level {
					c.NonTrivial()
				}
			}
		}
		flags = append(flags, f)
		c.Showf("%s: %s %s uses %q", names[f.level], f.name, f.feature, f.uses)
	}
	var line []string
	for l, t := range tokens {
		if l > 0 {
			line = append(line, names[l])
		}
		line = append(line, t...)
		line = append(line, "--end"+names[l]) // or an optional value might be the name of the command
	}
	c.Showf("line %q", line)

	cmds := make([]*cli.Command, depth+1)
	for l := range cmds {
		cmds[l] = &cli.Command{Name: names[l], Flags: []*cli.Flag{{Name: "end" + names[l], Value: new(bool)}}}
		if l > 0 {
			cmds[l-1].Subcommands = []*cli.Command{cmds[l]}
		}
	}
	for _, f := range flags {
		fl := &cli.Flag{Name: f.name, Aliases: []string{f.name[5:]}}
		act := func(ctx *cli.Context) { f.got = append(f.got, ctx.String("")) }
		note := func(s string) error { f.got = append(f.got, s); return nil }
		switch f.feature {
		case "transform":
			fl.Value, fl.Action = new(string), act
			fl.Uses = cli.Transform(func(raw []string) (any, error) { return "<" + strings.Join(raw[1:], "|") + ">", nil })
		case "file":
			fl.Value, fl.Action, fl.Options = new(string), act, cli.FileReference
		case "optional":
			fl.Value, fl.Action = new(string), act
			fl.Uses = cli.OptionalValue("opt")
		case "exits":
			fl.Value, fl.Options = new(bool), cli.Exits
			fl.Action = func() { f.got = append(f.got, "true") }
		case "bind":
			fl.Uses = cli.Bind(note)
		case "bindvalue":
			fl.Uses = cli.Bind(note, "given")
		case "redirect":
			other := &cli.Flag{Name: "to-" + f.name, Value: new(string), Action: act}
			cmds[f.level].Flags = append(cmds[f.level].Flags, other)
			fl.Value = new(string)
			fl.Uses = bind.Redirect[string]("to-" + f.name)
			other.Action = nil
		case "indirect":
			other := &cli.Flag{Name: "to-" + f.name, Value: new(cli.NameValue)}
			cmds[f.level].Flags = append(cmds[f.level].Flags, other)
			fl.Uses = cli.BindIndirect("to-"+f.name, func(nv *cli.NameValue, s string) error { return note(s) })
		case "plain":
			fl.Value, fl.Action = new(string), act
		}
		cmds[f.level].Flags = append(cmds[f.level].Flags, fl)
		for l, u := range f.uses {
			if len(u) == 0 || exitAt >= 0 && l > exitAt {
				continue
			}
			v := u[len(u)-1]
			switch f.feature {
			case "transform":
				v = "<" + v + ">"
			case "file":
				v = string(files[v].Data)
			}
			f.value = v
			// where a flag exits, others may have run before it or not
			if l == exitAt && f.feature != "exits" {
				v += "?"
			}
			if f.feature != "redirect" {
				f.want = append(f.want, v)
			}
		}
	}
	done := 0
	cmds[depth].Action = func(ctx *cli.Context) {
		done++
		for _, f := range flags {
			name := f.name
			switch f.feature {
			case "redirect":
				name = "to-" + name
			case "indirect", "bindvalue", "exits":
				continue
			}
			if got := ctx.String(name); got != f.value {
				c.Failf("%s is %q, want %q", name, got, f.value)
			}
		}
	}
	app := newApp("app")
	app.FS = files
	app.Flags, app.Action, app.Commands = cmds[0].Flags, cmds[0].Action, cmds[0].Subcommands
	err := run(app, line...)
	if exitAt < 0 && (err != nil || done != 1) {
		c.Failf("error %v, ran %d", err, done)
	}
	if exitAt >= 0 {
		if e, ok := err.(cli.ExitCoder); !ok || e.ExitCode() != 0 || done != 0 {
			c.Failf("error %v, the Action ran %d times", err, done)
		}
	}
	exits := 0
	for _, f := range flags {
		if f.feature == "exits" {
			exits += len(f.got)
			continue
		}
		got, want := f.got, f.want
		if n := len(want); n > 0 && strings.HasSuffix(want[n-1], "?") {
			want = append(want[:n-1:n-1], strings.TrimSuffix(want[n-1], "?"))
			if len(got) == n-1 {
				want = want[:n-1]
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Failf("%s %s ran with %q, want %q", f.feature, f.name, got, want)
		}
	}
	if exits != 0 != (exitAt >= 0) || exits > 1 {
		c.Failf("%d flags exited", exits)
	}
}

// TestP32_Inner: a transform applies wherever the flag is used.
func TestP32_Inner(t *testing.T) {
	pbt.Run(t, "random flags with transforms and file references of an app and its sub-commands, used at any level; non-trivial: one is used in an inner command", 3000, func(c *pbt.C) {
		inner(c, "transform", "file", "plain")
	})
}

// TestP33_Inner: so do the other options.
func TestP33_Inner(t *testing.T) {
	pbt.Run(t, "random flags with an optional value or Exits of an app and its sub-commands, used at any level; non-trivial: one is used in an inner command", 3000, func(c *pbt.C) {
		inner(c, "optional", "exits", "plain")
	})
}

// TestP34_Inner: the bound function is called wherever the flag is used.
func TestP34_Inner(t *testing.T) {
	pbt.Run(t, "random flags with Bind and BindIndirect of an app and its sub-commands, used at any level; non-trivial: one is used in an inner command", 3000, func(c *pbt.C) {
		inner(c, "bind", "bindvalue", "indirect", "plain")
	})
}

// TestP29_Inner: a redirected flag sets the other one wherever it is used.
func TestP29_Inner(t *testing.T) {
	pbt.Run(t, "random redirected flags of an app and its sub-commands, used at any level; non-trivial: one is used in an inner command", 2000, func(c *pbt.C) {
		inner(c, "redirect", "plain")
	})
}
