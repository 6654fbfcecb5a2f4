package core

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// zcustom is a customization
type zcustom struct {
	id      string
	pattern string
	how     int
	renames bool
	err     error
}

func (z *zcustom) String() string {
	s := fmt.Sprintf("Customize(%q, %s", z.pattern, z.id)
	if z.renames {
		s += " renames"
	}
	if z.err != nil {
		s += " fails"
	}
	return s + ")"
}

// ztgt is a flag, arg or command to customize
type ztgt struct {
	kind    string
	name    string
	given   string // the name that it is given in its own Uses
	how     int
	proto   bool // named by a prototype
	first   bool // whether it is named first thing in its Uses
	added   bool // to the command in its Uses
	customs []*zcustom
	flags   []*ztgt
	args    []*ztgt
	subs    []*ztgt

	data map[string]bool
	flag *cli.Flag
	arg  *cli.Arg
	cmd  *cli.Command
}

func (x *ztgt) each(fn func(*ztgt)) {
	fn(x)
	for _, l := range [][]*ztgt{x.flags, x.args, x.subs} {
		for _, y := range l {
			y.each(fn)
		}
	}
}

func (x *ztgt) show(c *pbt.C, indent string) {
	s := x.kind + " " + x.name
	if x.given != "" {
		s += fmt.Sprintf(" named %s in its Uses", x.given)
	}
	if x.added {
		s += " (added)"
	}
	for _, z := range x.customs {
		s += "; " + z.String()
	}
	c.Showf("%s%s", indent, s)
	for _, l := range [][]*ztgt{x.flags, x.args, x.subs} {
		for _, y := range l {
			y.show(c, indent+"  ")
		}
	}
}

func zrename(s string) string {
	if s == "" || len(s) > 5 {
		return s
	}
	return s + "r"
}

func zbuiltin(path []string) bool {
	for _, p := range path {
		if p == "" {
			// a built-in command before its prototype
			return true
		}
		switch strings.Trim(p, "-<>") {
		case "help", "version", "zsh-completion", "command":
			return true
		}
	}
	return false
}

// ---- the model

type zmodel struct {
	events []string
}

func zseg(kind, name string) string {
	switch kind {
	case "flag":
		if len(name) == 1 {
			return "-" + name
		}
		return "--" + name
	case "arg":
		return "<" + name + ">"
	}
	return name
}

func zpath(line []*ztgt) (p []string) {
	for _, x := range line {
		p = append(p, zseg(x.kind, x.name))
	}
	return
}

func zmatch(pattern string, path []string) bool {
	parts := strings.Fields(pattern)
	if len(parts) > len(path) {
		return false
	}
	path = path[len(path)-len(parts):]
	for i, p := range parts {
		is := "cmd"
		if path[i][0] == '-' {
			is = "flag"
		} else if path[i][0] == '<' {
			is = "arg"
		}
		switch {
		case p == "*" && is == "cmd", (p == "-" || p == "--") && is == "flag", p == "<>" && is == "arg":
		case p == path[i], p[0] == '-' && "-"+p == path[i]:
		default:
			return false
		}
	}
	return true
}

func (m *zmodel) run(z *zcustom, line []*ztgt) error {
	x := line[len(line)-1]
	m.events = append(m.events, z.id+" on "+strings.Join(zpath(line), " "))
	x.data[z.id] = true
	if z.renames {
		x.name = zrename(x.name)
	}
	return z.err
}

// hooks runs the customizations made by the commands above
func (m *zmodel) hooks(line []*ztgt) error {
	// they apply to the target as it was when they began
	path := zpath(line)
	for _, a := range line[:len(line)-1] {
		for _, z := range a.customs {
			if z.pattern != "" && zmatch(z.pattern, path) {
				if err := m.run(z, line); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func (m *zmodel) init(line []*ztgt) error {
	x := line[len(line)-1]
	original := x.name
	if err := m.hooks(line); err != nil {
		return err
	}
	name := func() {
		// a prototype only gives a name to what has none
		if x.given != "" && (!x.proto || x.name == "") {
			x.name = x.given
		}
	}
	if x.first {
		name()
	}
	m.events = append(m.events, "uses of "+strings.Join(zpath(line), " "))
	for _, z := range x.customs {
		if z.pattern == "" {
			if err := m.run(z, line); err != nil {
				return err
			}
		}
	}
	if !x.first {
		name()
	}
	for _, l := range [][]*ztgt{x.flags, x.args, x.subs} {
		for _, y := range l {
			if err := m.init(append(line[:len(line):len(line)], y)); err != nil {
				return err
			}
		}
	}
	if x.name != original && len(line) > 1 {
		return m.hooks(line)
	}
	return nil
}

// ---- the real thing

// znames are the present names of what the context is in
func znames(c *cli.Context) (names []string) {
	for _, p := range c.Lineage() {
		names = append([]string{p.Name()}, names...)
	}
	return
}

func zaction(z *zcustom, events *[]string) cli.Action {
	return cli.ActionOf(func(c *cli.Context) error {
		path := znames(c)
		if zbuiltin(path) {
			return nil
		}
		*events = append(*events, z.id+" on "+strings.Join(path, " "))
		if err := c.Do(cli.Data(z.id, true)); err != nil {
			return err
		}
		if z.renames {
			name := strings.Trim(c.Name(), "-<>")
			if err := c.Do(cli.Named(zrename(name))); err != nil {
				return err
			}
		}
		return z.err
	})
}

func (x *ztgt) build(events *[]string) {
	var p cli.ActionPipeline
	name := func() {
		switch {
		case x.given == "":
		case x.proto:
			p = append(p, cli.Prototype{Name: x.given})
		case x.how == 0:
			p = append(p, cli.Named(x.given))
		default:
			p = append(p, cli.ActionFunc(func(c *cli.Context) error { return c.SetName(x.given) }))
		}
	}
	if x.first {
		name()
	}
	p = append(p, cli.ActionOf(func(c *cli.Context) {
		*events = append(*events, "uses of "+strings.Join(znames(c), " "))
	}))
	for _, z := range x.customs {
		a := zaction(z, events)
		switch {
		case z.pattern == "" && z.how == 0:
			p = append(p, cli.Customize("", a))
		case z.pattern == "":
			p = append(p, cli.ActionFunc(func(c *cli.Context) error { return c.Customize("", a) }))
		case z.how == 0:
			p = append(p, cli.Customize(z.pattern, a))
		case z.how == 1:
			p = append(p, cli.ActionFunc(func(c *cli.Context) error { return c.Customize(z.pattern, a) }))
		case z.how == 2:
			p = append(p, cli.Hook(cli.InitialTiming, cli.IfMatch(cli.PatternFilter(z.pattern), a)))
		default:
			p = append(p, cli.Hook(cli.InitialTiming, cli.ActionFunc(func(c *cli.Context) error {
				if c.Path().Match(z.pattern) {
					return c.Do(a)
				}
				return nil
			})))
		}
	}
	if !x.first {
		name()
	}
	var flags []*cli.Flag
	var args []*cli.Arg
	var subs []*cli.Command
	for _, y := range x.flags {
		y.build(events)
		if y.added {
			p = append(p, cli.AddFlag(y.flag))
		} else {
			flags = append(flags, y.flag)
		}
	}
	for _, y := range x.args {
		y.build(events)
		if y.added {
			p = append(p, cli.AddArg(y.arg))
		} else {
			args = append(args, y.arg)
		}
	}
	for _, y := range x.subs {
		y.build(events)
		if y.added {
			p = append(p, cli.AddCommand(y.cmd))
		} else {
			subs = append(subs, y.cmd)
		}
	}
	switch x.kind {
	case "flag":
		x.flag = &cli.Flag{Name: x.name, Value: new(string), Uses: p}
	case "arg":
		x.arg = &cli.Arg{Name: x.name, Value: new(string), NArg: 1, Uses: p}
	default:
		x.cmd = &cli.Command{Name: x.name, Uses: p, Flags: flags, Args: args, Subcommands: subs, Action: func() {}}
	}
}

func TestP38_Customize(t *testing.T) {
	pbt.Run(t, "a customization runs on some flag, arg or command", 1500, func(c *pbt.C) {
		n := 0
		errs := rapid.IntRange(0, 4).Draw(c.T, "errs") == 1
		var all []*ztgt
		var make func(kind string, depth int) *ztgt
		many := func(parent *ztgt, kind string, max, depth int) (l []*ztgt) {
			for i, k := 0, rapid.IntRange(0, max).Draw(c.T, kind+"s"); i < k; i++ {
				l = append(l, make(kind, depth))
			}
			// what is added comes after the others
			for i := len(l) - 1; i >= 0 && rapid.IntRange(0, 3).Draw(c.T, "added") == 0; i-- {
				l[i].added = true
			}
			return
		}
		make = func(kind string, depth int) *ztgt {
			n++
			x := &ztgt{kind: kind, name: fmt.Sprintf("%s%d", kind[:1], n), data: map[string]bool{}}
			if kind == "flag" && rapid.Bool().Draw(c.T, "short") {
				x.name = string(rune('A' + n%26))
			}
			all = append(all, x)
			if rapid.IntRange(0, 2).Draw(c.T, "named") == 0 && n > 1 {
				x.given = x.name + "u"
				if kind != "flag" || len(x.name) > 1 {
					// also one that hardly differs
					x.given = rapid.SampledFrom([]string{x.given, x.given, strings.ToUpper(x.name), x.name + "_", x.name[:1] + "9" + x.name[1:], strings.Replace(x.name, x.name[:1], "z", 1)}).Draw(c.T, "given")
				}
				x.how = rapid.IntRange(0, 1).Draw(c.T, "how")
				x.first = rapid.Bool().Draw(c.T, "first")
				if kind != "cmd" && rapid.IntRange(0, 2).Draw(c.T, "unnamed") == 0 {
					x.name, x.proto = "", true
				}
			}
			if kind == "cmd" {
				x.flags = many(x, "flag", 3, depth-1)
				if depth > 0 {
					x.subs = many(x, "cmd", 2, depth-1)
				}
				// a command with sub-commands has the arg for them
				if len(x.subs) == 0 {
					x.args = many(x, "arg", 2, depth-1)
				}
			}
			return x
		}
		root := make("cmd", 2)
		root.name = "app"
		names := func(x *ztgt) string {
			s := rapid.SampledFrom([]string{x.name, x.name, x.given, zrename(x.name), "nope"}).Draw(c.T, "which name")
			if s == "" {
				s = x.given
			}
			if s == "" {
				s = x.name
			}
			p := zseg(x.kind, s)
			if rapid.IntRange(0, 2).Draw(c.T, "wild") == 1 {
				p = map[string]string{"flag": rapid.SampledFrom([]string{"-", "--"}).Draw(c.T, "any flag"), "arg": "<>", "cmd": "*"}[x.kind]
			} else if strings.HasPrefix(p, "--") && rapid.IntRange(0, 3).Draw(c.T, "one dash") == 1 {
				p = p[1:]
			}
			return p
		}
		var custom func(line []*ztgt)
		custom = func(line []*ztgt) {
			x := line[len(line)-1]
			for i, k := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "customs"); i < k; i++ {
				z := &zcustom{id: fmt.Sprintf("c%d", n), how: rapid.IntRange(0, 3).Draw(c.T, "via")}
				n++
				if x.kind == "cmd" && rapid.IntRange(0, 6).Draw(c.T, "self") != 1 {
					// a pattern made from what there is, mostly below it
					var paths [][]*ztgt
					var walk func(l []*ztgt)
					walk = func(l []*ztgt) {
						paths = append(paths, l)
						y := l[len(l)-1]
						for _, s := range [][]*ztgt{y.flags, y.args, y.subs} {
							for _, w := range s {
								walk(append(l[:len(l):len(l)], w))
							}
						}
					}
					if rapid.IntRange(0, 5).Draw(c.T, "elsewhere") == 1 {
						walk([]*ztgt{root})
					} else {
						walk(line)
					}
					p := rapid.SampledFrom(paths).Draw(c.T, "path")
					k := rapid.IntRange(1, 3).Draw(c.T, "parts")
					if k > len(p) {
						k = len(p)
					}
					var parts []string
					for _, y := range p[len(p)-k:] {
						parts = append(parts, names(y))
					}
					z.pattern = strings.Join(parts, rapid.SampledFrom([]string{" ", "  "}).Draw(c.T, "space"))
				}
				if len(line) > 1 || z.pattern != "" {
					z.renames = rapid.IntRange(0, 3).Draw(c.T, "renames") == 1
				}
				if errs && rapid.IntRange(0, 3).Draw(c.T, "fails") == 1 {
					z.err = errors.New("failure of " + z.id)
				}
				x.customs = append(x.customs, z)
			}
			for _, l := range [][]*ztgt{x.flags, x.args, x.subs} {
				for _, y := range l {
					custom(append(line[:len(line):len(line)], y))
				}
			}
		}
		custom([]*ztgt{root})
		root.show(c, "")

		var events []string
		root.build(&events)
		app := newApp("app")
		app.Uses, app.Flags, app.Args, app.Commands = root.cmd.Uses, root.cmd.Flags, root.cmd.Args, root.cmd.Subcommands

		m := &zmodel{}
		want := m.init([]*ztgt{root})

		_, err := app.Initialize(context.Background())
		for _, e := range m.events {
			if e[0] == 'c' {
				c.NonTrivial()
			}
		}
		if want != nil {
			c.Label("a customization fails")
		}
		if a, b := strings.Join(events, "\n    "), strings.Join(m.events, "\n    "); a != b {
			c.Failf("initialized as\n    %s\nwant\n    %s", a, b)
		}
		if err != want {
			c.Failf("error %v, want %v", err, want)
		}
		if err != nil {
			return
		}
		for _, x := range all {
			if x == root {
				continue
			}
			var name string
			var data map[string]any
			switch x.kind {
			case "flag":
				name, data = x.flag.Name, x.flag.Data
			case "arg":
				name, data = x.arg.Name, x.arg.Data
			default:
				name, data = x.cmd.Name, x.cmd.Data
			}
			var got, exp []string
			for k := range data {
				if k[0] == 'c' {
					got = append(got, k)
				}
			}
			for k := range x.data {
				exp = append(exp, k)
			}
			sort.Strings(got)
			sort.Strings(exp)
			if name != x.name || strings.Join(got, " ") != strings.Join(exp, " ") {
				c.Failf("%s %s is left with the name %q and customized by %v, want %v", x.kind, x.name, name, got, exp)
			}
		}
	})
}
