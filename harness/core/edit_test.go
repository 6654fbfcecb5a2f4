package core

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// eopt is a flag, arg or command that is there from the start or is added
type eopt struct {
	kind    string // flag arg cmd
	name    string
	aliases []string
	ops     []*eop
	flag    *cli.Flag
	arg     *cli.Arg
	cmd     *cli.Command
}

type eop struct {
	add    []*eopt // AddFlag(s), AddArg(s), AddCommand(s)
	kind   string  // of what is removed: flag arg cmd; alias: + or -
	ref    any     // string, int, or *eopt
	dashes string
	how    int // through the action or the method
	alias  string
}

func (o *eop) String() string {
	if o.kind == "+alias" || o.kind == "-alias" {
		return o.kind + " " + o.alias
	}
	if len(o.add) > 0 {
		var s []string
		for _, a := range o.add {
			s = append(s, a.text())
		}
		return "add " + strings.Join(s, ", ")
	}
	if x, ok := o.ref.(*eopt); ok {
		return fmt.Sprintf("remove the %s %s", o.kind, x.name)
	}
	return fmt.Sprintf("remove %s %q", o.kind, fmt.Sprint(o.dashes, o.ref))
}

func (o *eopt) text() string {
	s := o.kind + " " + o.name
	for _, a := range o.aliases {
		s += "|" + a
	}
	if len(o.ops) > 0 {
		var l []string
		for _, p := range o.ops {
			l = append(l, p.String())
		}
		s += "{" + strings.Join(l, "; ") + "}"
	}
	return s
}

type egen struct {
	t     *rapid.T
	n     int
	all   []*eopt
	names map[string]int
}

func (g *egen) opt(kind string, depth int) *eopt {
	g.n++
	o := &eopt{kind: kind, name: fmt.Sprintf("%s%d", kind[:1], g.n)}
	if kind != "arg" && rapid.IntRange(0, 2).Draw(g.t, "alias") == 0 {
		o.aliases = []string{fmt.Sprintf("z%d", g.n)}
	}
	g.all = append(g.all, o)
	if depth > 0 && rapid.IntRange(0, 2).Draw(g.t, "hasOps") == 0 {
		// (those of a command edit its parent)
		o.ops = g.ops([]string{"flag", "arg", "cmd"}, rapid.IntRange(1, 2).Draw(g.t, "nops"), depth-1)
	}
	return o
}

func (g *egen) ops(kinds []string, n, depth int) (ops []*eop) {
	for ; n > 0; n-- {
		kind := rapid.SampledFrom(kinds).Draw(g.t, "kind")
		how := rapid.IntRange(0, 1).Draw(g.t, "how")
		if rapid.IntRange(0, 2).Draw(g.t, "adds") == 0 {
			op := &eop{kind: kind, how: how}
			for i, m := 0, rapid.SampledFrom([]int{1, 1, 2}).Draw(g.t, "many"); i < m; i++ {
				op.add = append(op.add, g.opt(kind, depth))
			}
			ops = append(ops, op)
			continue
		}
		op := &eop{kind: kind, how: how}
		var same []*eopt
		for _, x := range g.all {
			if x.kind == kind {
				same = append(same, x)
			}
		}
		switch w := rapid.IntRange(0, 5).Draw(g.t, "ref"); {
		case w == 0 && kind == "arg":
			op.ref = rapid.IntRange(-3, 4).Draw(g.t, "index")
		case w == 1 || len(same) == 0:
			op.ref = "nope"
		default:
			x := rapid.SampledFrom(same).Draw(g.t, "which")
			switch {
			case w == 2:
				op.ref = x
			case w == 3 && len(x.aliases) > 0:
				op.ref = x.aliases[0]
			default:
				op.ref = x.name
			}
			if kind == "flag" && w != 2 {
				op.dashes = rapid.SampledFrom([]string{"", "--", "-"}).Draw(g.t, "dashes")
			}
		}
		ops = append(ops, op)
	}
	return
}

// elists is the model: plain lists
type elists struct {
	flags, args, cmds []*eopt
	inits             []string
	unordered         bool // the order in which what a command adds is initialized doesn't matter
	done              map[*eopt]bool
}

func (l *elists) list(kind string) *[]*eopt {
	switch kind {
	case "flag":
		return &l.flags
	case "arg":
		return &l.args
	}
	return &l.cmds
}

func (l *elists) apply(ops []*eop) {
	for _, op := range ops {
		p := l.list(op.kind)
		if len(op.add) > 0 {
			*p = append(append([]*eopt(nil), *p...), op.add...)
			continue
		}
		at := -1
		for i, x := range *p {
			switch r := op.ref.(type) {
			case int:
				if r == i || r+len(*p) == i {
					at = i
				}
			case string:
				if r == x.name || len(x.aliases) > 0 && x.aliases[0] == r {
					at = i
				}
			case *eopt:
				if r == x {
					at = i
				}
			}
		}
		if at >= 0 {
			*p = append(append([]*eopt(nil), (*p)[:at]...), (*p)[at+1:]...)
		}
	}
}

func has(l []*eopt, x *eopt) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// initialize initializes what isn't yet: flags and args, which may add more of
// them, then the commands; with the first of these comes the arg for them
func (l *elists) initialize() {
	l.done = map[*eopt]bool{}
	ensured := false
	ensure := func() bool {
		if ensured || len(l.cmds) == 0 {
			return false
		}
		ensured = true
		l.args = append(append([]*eopt(nil), l.args...), &eopt{kind: "builtin", name: "command"})
		return true
	}
	ensure()
	for again := true; again; {
		again = false
		for _, kind := range []string{"flag", "arg"} {
			for _, x := range append([]*eopt(nil), *l.list(kind)...) {
				if !has(*l.list(kind), x) || l.done[x] {
					continue
				}
				again = true
				l.done[x] = true
				if x.kind != "builtin" {
					l.inits = append(l.inits, x.name)
				}
				l.apply(x.ops)
			}
		}
		if again {
			continue
		}
		again = ensure()
		for _, x := range l.cmds {
			if !again && !l.done[x] {
				again = true
				l.done[x] = true
				l.inits = append(l.inits, x.name)
				if len(x.ops) > 0 {
					l.unordered = true
				}
				l.apply(x.ops)
				break
			}
		}
	}
}

func (o *eopt) make(inits *[]string, seen *[]string) {
	uses := func(c *cli.Context) error {
		*inits = append(*inits, o.name)
		if o.kind == "cmd" {
			c = c.Parent()
		}
		return eact(c, o.ops, inits, seen)
	}
	switch o.kind {
	case "flag":
		o.flag = &cli.Flag{Name: o.name, Aliases: o.aliases, Value: new(string), Uses: uses}
	case "arg":
		o.arg = &cli.Arg{Name: o.name, Value: new(string), Uses: uses}
	case "cmd":
		o.cmd = &cli.Command{Name: o.name, Aliases: o.aliases, Uses: uses, Action: func() { *seen = append(*seen, "ran "+o.name) }}
	}
}

func eact(c *cli.Context, ops []*eop, inits, seen *[]string) error {
	for _, op := range ops {
		if err := op.do(c, inits, seen); err != nil {
			return err
		}
	}
	return nil
}

func (op *eop) do(c *cli.Context, inits, seen *[]string) error {
	var flags []*cli.Flag
	var args []*cli.Arg
	var cmds []*cli.Command
	for _, a := range op.add {
		a.make(inits, seen)
		flags, args, cmds = append(flags, a.flag), append(args, a.arg), append(cmds, a.cmd)
	}
	if len(op.add) > 0 {
		method := op.how == 0
		switch {
		case op.kind == "flag" && len(flags) == 1 && method:
			return c.AddFlag(flags[0])
		case op.kind == "flag" && len(flags) == 1:
			return c.Do(cli.AddFlag(flags[0]))
		case op.kind == "flag" && method:
			return c.AddFlags(flags...)
		case op.kind == "flag":
			return c.Do(cli.AddFlags(flags...))
		case op.kind == "arg" && len(args) == 1 && method:
			return c.AddArg(args[0])
		case op.kind == "arg" && len(args) == 1:
			return c.Do(cli.AddArg(args[0]))
		case op.kind == "arg" && method:
			return c.AddArgs(args...)
		case op.kind == "arg":
			return c.Do(cli.AddArgs(args...))
		case len(cmds) == 1 && method:
			return c.AddCommand(cmds[0])
		case len(cmds) == 1:
			return c.Do(cli.AddCommand(cmds[0]))
		case method:
			return c.AddCommands(cmds...)
		default:
			return c.Do(cli.AddCommands(cmds...))
		}
	}
	var ref any = op.ref
	if s, ok := ref.(string); ok {
		ref = op.dashes + s
	}
	if x, ok := ref.(*eopt); ok {
		switch op.kind {
		case "flag":
			ref = x.flag
		case "arg":
			ref = x.arg
		default:
			ref = x.cmd
		}
	}
	switch op.kind {
	case "flag":
		if op.how == 0 {
			return c.RemoveFlag(ref)
		}
		return c.Do(cli.RemoveFlag(ref))
	case "arg":
		if op.how == 0 {
			return c.RemoveArg(ref)
		}
		return c.Do(cli.RemoveArg(ref))
	}
	if op.how == 0 {
		return c.RemoveCommand(ref)
	}
	return c.Do(cli.RemoveCommand(ref))
}

func TestP14_Edit(t *testing.T) {
	pbt.Run(t, "something is added or removed during the initialization", 1200, func(c *pbt.C) {
		g := &egen{t: c.T}
		var l elists
		for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "flags"); i < n; i++ {
			l.flags = append(l.flags, g.opt("flag", 1))
		}
		for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "args"); i < n; i++ {
			l.args = append(l.args, g.opt("arg", 1))
		}
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(c.T, "cmds"); i < n; i++ {
			l.cmds = append(l.cmds, g.opt("cmd", 1))
		}
		ops := g.ops([]string{"flag", "flag", "arg", "arg", "cmd"}, rapid.IntRange(0, 6).Draw(c.T, "ops"), 1)
		inSub := rapid.Bool().Draw(c.T, "inSub")
		var late []*eop
		if rapid.IntRange(0, 3).Draw(c.T, "hasLate") == 0 {
			late = g.ops([]string{"flag", "arg", "cmd"}, 1, 0)
		}
		lateAt := rapid.IntRange(tBefore, tAfter).Draw(c.T, "lateAt")

		for _, x := range append(append(append([]*eopt(nil), l.flags...), l.args...), l.cmds...) {
			c.Showf("%s", x.text())
		}
		for _, o := range ops {
			c.Showf("the command: %s", o)
		}
		for _, o := range late {
			c.Showf("in %s: %s", timingNames[lateAt], o)
		}
		edits := len(ops)
		for _, x := range g.all {
			edits += len(x.ops)
		}
		if edits > 0 {
			c.NonTrivial()
		}
		c.Label("%d edits", edits)

		// the code's
		var inits, seen []string
		for _, x := range append(append(append([]*eopt(nil), l.flags...), l.args...), l.cmds...) {
			x.make(&inits, &seen)
		}
		app := newApp("app")
		cmd := &cli.Command{Name: "sub"}
		for _, x := range l.flags {
			cmd.Flags = append(cmd.Flags, x.flag)
		}
		for _, x := range l.args {
			cmd.Args = append(cmd.Args, x.arg)
		}
		for _, x := range l.cmds {
			cmd.Subcommands = append(cmd.Subcommands, x.cmd)
		}
		cmd.Uses = func(ctx *cli.Context) error { return eact(ctx, ops, &inits, &seen) }
		var lateErr error
		lateDone := 0
		tooLate := func(ctx *cli.Context) error {
			for _, o := range late {
				lateDone++
				lateErr = o.do(ctx, &inits, &seen)
			}
			return nil
		}
		var got [3][]string
		lists := func(ctx *cli.Context) {
			got = [3][]string{}
			for _, f := range ctx.LocalFlags() {
				if f.Name != "help" && f.Name != "version" && f.Name != "zsh-completion" {
					got[0] = append(got[0], f.Name)
				}
			}
			for _, f := range ctx.LocalArgs() {
				got[1] = append(got[1], f.Name)
			}
			for _, f := range ctx.Command().Subcommands {
				if f.Name != "help" && f.Name != "version" {
					got[2] = append(got[2], f.Name)
				}
			}
		}
		cmd.Before = func(ctx *cli.Context) error {
			if lateAt == tBefore {
				_ = tooLate(ctx)
			}
			lists(ctx)
			return nil
		}
		cmd.Action = func(ctx *cli.Context) error {
			seen = append(seen, "ran")
			if lateAt == tAction {
				_ = tooLate(ctx)
			}
			lists(ctx)
			for _, a := range ctx.LocalArgs() {
				seen = append(seen, fmt.Sprintf("%s=%v", a.Name, ctx.Value(a.Name)))
			}
			for _, f := range ctx.LocalFlags() {
				if f.Name[0] == 'f' {
					seen = append(seen, fmt.Sprintf("%s=%v", f.Name, ctx.Value(f.Name)))
				}
			}
			return nil
		}
		cmd.After = func(ctx *cli.Context) error {
			if lateAt == tAfter {
				_ = tooLate(ctx)
				lists(ctx)
			}
			return nil
		}
		var tokens []string
		if inSub {
			app.Commands = []*cli.Command{cmd}
			tokens = []string{"sub"}
		} else {
			app.Flags, app.Args, app.Commands = cmd.Flags, cmd.Args, cmd.Subcommands
			app.Uses, app.Before, app.Action, app.After = cmd.Uses, cmd.Before, cmd.Action, cmd.After
		}

		// the model's
		l.apply(ops)
		// options with ops can refer to args by index: relative to the list at that time
		l.initialize()
		names := func(l []*eopt) (s []string) {
			for _, x := range l {
				s = append(s, x.name)
			}
			return
		}
		command := -1
		for i, a := range l.args {
			if a.kind == "builtin" {
				command = i
			}
		}

		// what is left works, what was removed is gone
		mode := rapid.IntRange(0, 2).Draw(c.T, "line")
		var want []string
		wantErr := cli.ErrorCode(-1)
		var gone []*eopt
		for _, x := range g.all {
			in := false
			for _, y := range l.flags {
				in = in || x == y
			}
			if x.kind == "flag" && !in && l.done[x] || x.kind == "flag" && !in && x.flag != nil {
				gone = append(gone, x)
			}
		}
		given := map[*eopt]string{}
		for i, f := range l.flags {
			if rapid.Bool().Draw(c.T, "given") {
				given[f] = fmt.Sprintf("w%d", i)
				name := "--" + f.name
				if len(f.aliases) > 0 && rapid.Bool().Draw(c.T, "byAlias") {
					name = "--" + f.aliases[0]
				}
				tokens = append(tokens, name+"="+given[f])
			}
		}
		vals := len(l.args)
		if command >= 0 {
			vals = command
		}
		var run1 *eopt
		if mode == 0 && command >= 0 && len(l.cmds) > 0 {
			run1 = rapid.SampledFrom(l.cmds).Draw(c.T, "run")
		} else {
			vals = rapid.IntRange(0, vals).Draw(c.T, "vals")
		}
		for i := 0; i < vals; i++ {
			tokens = append(tokens, fmt.Sprintf("v%d", i))
		}
		if run1 != nil {
			tokens = append(tokens, run1.name)
			want = []string{"ran " + run1.name}
		} else {
			want = []string{"ran"}
			for i, a := range l.args {
				v := ""
				if i < vals {
					v = fmt.Sprintf("v%d", i)
				}
				if a.kind == "builtin" {
					v = "[]"
				}
				want = append(want, fmt.Sprintf("%s=%s", a.name, v))
			}
			for _, f := range l.flags {
				want = append(want, fmt.Sprintf("%s=%s", f.name, given[f]))
			}
			if mode == 1 && len(gone) > 0 {
				x := rapid.SampledFrom(gone).Draw(c.T, "gone")
				at := 0
				if inSub {
					at = 1
				}
				tokens = append(tokens[:at:at], append([]string{"--" + x.name + "=1"}, tokens[at:]...)...)
				wantErr = cli.UnknownOption
				want = nil
			}
			if mode == 2 && command < 0 && vals == len(l.args) {
				tokens = append(tokens, "more")
				wantErr = cli.UnexpectedArgument
				want = nil
			}
		}
		c.Showf("command line: %q", tokens)
		err := app.RunContext(context.Background(), append([]string{"app"}, tokens...))
		if wantErr != -1 {
			pe, ok := err.(*cli.ParseError)
			if !ok || pe.Code != wantErr {
				c.Failf("the error is %v, want the code %v", err, wantErr)
			}
		} else if err != nil {
			c.Failf("error %v", err)
		}
		if l.unordered {
			inits, l.inits = sorted(inits), sorted(l.inits)
		}
		if strings.Join(inits, " ") != strings.Join(l.inits, " ") {
			c.Failf("initializes %q, want %q", inits, l.inits)
		}
		if a, b := strings.Join(seen, " "), strings.Join(want, " "); a != b {
			c.Failf("saw %q, want %q", a, b)
		}
		if wantErr != -1 {
			return
		}
		for i, w := range [][]*eopt{l.flags, l.args, l.cmds} {
			if a, b := strings.Join(got[i], " "), strings.Join(names(w), " "); a != b {
				c.Failf("the %s are %q, want %q", []string{"flags", "args", "commands"}[i], a, b)
			}
		}
		if lateDone > 0 && !errors.Is(lateErr, cli.ErrTimingTooLate) {
			c.Failf("%s in %s returns %v, want that it is too late", late[0], timingNames[lateAt], lateErr)
		}
	})
}
