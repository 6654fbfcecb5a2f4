package core

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

type xcmd struct {
	name     string
	aliases  []string
	parent   *xcmd
	subs     []*xcmd
	handlers []*xhandler
	nargs    int // args of a command that has sub-commands
	cmd      *cli.Command
}

type xhandler struct {
	id       string
	kind     string // none, err, skip, cmd, reset, implicit
	index    int    // the sub-command
	implicit string
}

func (x *xcmd) path() string {
	if x.parent == nil {
		return x.name
	}
	return x.parent.path() + " " + x.name
}

func (x *xcmd) find(name string) *xcmd {
	for _, s := range x.subs {
		if s.name == name {
			return s
		}
		for _, a := range s.aliases {
			if a == name {
				return s
			}
		}
	}
	return nil
}

func (x *xcmd) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s%v %d", x.name, x.aliases, x.nargs)
	for _, h := range x.handlers {
		fmt.Fprintf(&b, " %s:%s", h.id, h.kind)
		switch h.kind {
		case "cmd":
			fmt.Fprintf(&b, "(%s)", x.subs[h.index].name)
		case "implicit":
			fmt.Fprintf(&b, "(%s)", h.implicit)
		}
	}
	b.WriteString("\n")
	for _, s := range x.subs {
		b.WriteString("  " + strings.ReplaceAll(strings.TrimRight(s.text(), "\n"), "\n", "\n  ") + "\n")
	}
	return b.String()
}

func drawXcmd(t *rapid.T, name string, depth int, n *int) *xcmd {
	x := &xcmd{name: name}
	if depth > 0 {
		for _, s := range drawNames(t, []string{"add", "sub", "run", "exec"}, "subs", 3) {
			y := drawXcmd(t, s, depth-1, n)
			y.parent = x
			if rapid.IntRange(0, 2).Draw(t, "alias") == 0 {
				y.aliases = []string{s + "1", s + "2"}[:rapid.IntRange(1, 2).Draw(t, "n")]
			}
			x.subs = append(x.subs, y)
		}
	}
	if len(x.subs) > 0 {
		x.nargs = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "nargs")
		for i, k := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "nhandlers"); i < k; i++ {
			*n++
			h := &xhandler{id: fmt.Sprint("h", *n), kind: rapid.SampledFrom([]string{"none", "none", "err", "skip", "cmd", "cmd", "reset", "implicit"}).Draw(t, "kind"),
				index: rapid.IntRange(0, len(x.subs)-1).Draw(t, "index")}
			h.implicit = x.subs[h.index].name
			if rapid.IntRange(0, 3).Draw(t, "byAlias") == 0 && len(x.subs[h.index].aliases) > 0 {
				h.implicit = x.subs[h.index].aliases[0]
			} else if rapid.IntRange(0, 5).Draw(t, "missing") == 0 {
				h.implicit = "missing"
			}
			x.handlers = append(x.handlers, h)
		}
	}
	return x
}

type xerr struct{ id string }

func (e *xerr) Error() string { return e.id }

// xresult is what a command line comes to
type xresult struct {
	calls   []string // handlers, with the error that they get
	ran     string   // the command that runs
	args    []string
	err     string
	skipped bool

	unclaimed bool
}

// chain is the effective handlers of a command, in the order in which they are tried
func (x *xcmd) chain() (res []*xhandler) {
	for y := x; y != nil; y = y.parent {
		set := false
		for _, h := range y.handlers {
			set = true
			if h.kind == "reset" {
				res = nil
			} else {
				res = append([]*xhandler{h}, res...)
			}
		}
		if set {
			return res
		}
	}
	return nil
}

func missing(name string) string { return fmt.Sprintf("%q is not a command", name) }

func (x *xcmd) route(tokens []string, r *xresult) {
	if len(tokens) < x.nargs {
		r.err = "expected argument"
		return
	}
	own := tokens[:x.nargs]
	tokens = tokens[x.nargs:]
	if len(x.subs) == 0 || len(tokens) == 0 {
		r.ran, r.args = x.path(), append(append([]string(nil), own...), tokens...)
		return
	}
	if s := x.find(tokens[0]); s != nil {
		s.route(tokens[1:], r)
		return
	}
	err := missing(tokens[0])
	for i, h := range x.chain() {
		last := i == len(x.chain())-1
		switch h.kind {
		case "none":
			r.calls = append(r.calls, h.id+" in "+x.path()+" after "+err)
			if last {
				r.err = missing(tokens[0])
			}
		case "err":
			r.calls = append(r.calls, h.id+" in "+x.path()+" after "+err)
			err = h.id
			if last {
				r.err = err
			}
		case "skip":
			r.calls = append(r.calls, h.id+" in "+x.path()+" after "+err)
			r.skipped = true
			return
		case "cmd":
			r.calls = append(r.calls, h.id+" in "+x.path()+" after "+err)
			x.subs[h.index%len(x.subs)].route(tokens[1:], r)
			return
		case "implicit":
			if s := x.find(h.implicit); s != nil {
				s.route(tokens, r)
				if r.err != "" && !last {
					// whether the other handlers are asked about the error of the implicit command
					r.unclaimed = true
				}
				return
			}
			err = missing(h.implicit)
			if last {
				r.err = err
			}
		}
	}
	if len(x.chain()) == 0 {
		r.err = err
	}
}

// TestP15_Route: which command a command line runs, and who is asked about one
// that is not found
func TestP15_Route(t *testing.T) {
	pbt.Run(t, "a command is not found, or one two levels down runs", 1500, func(c *pbt.C) {
		n := 0
		root := drawXcmd(c.T, "app", 3, &n)
		c.Showf("%s", root.text())
		var tokens []string
		cur := root
		for i, k := 0, rapid.IntRange(0, 5).Draw(c.T, "ntokens"); i < k; i++ {
			if cur != nil {
				for j := range cur.nargs {
					tokens = append(tokens, rapid.SampledFrom([]string{"v", "w", "add", "run1", "exec"}).Draw(c.T, fmt.Sprint("own", j)))
				}
			}
			switch rapid.IntRange(0, 4).Draw(c.T, "token") {
			case 0:
				tokens = append(tokens, rapid.SampledFrom([]string{"nope", "add", "sub", "exec", "1", "ad", "Add", "", "command", "app"}).Draw(c.T, "any"))
			default:
				if cur == nil || len(cur.subs) == 0 {
					tokens = append(tokens, rapid.SampledFrom([]string{"v", "nope", "add"}).Draw(c.T, "any"))
					continue
				}
				s := rapid.SampledFrom(cur.subs).Draw(c.T, "sub")
				tokens = append(tokens, rapid.SampledFrom(append([]string{s.name}, s.aliases...)).Draw(c.T, "as"))
				cur = s
				if rapid.IntRange(0, 9).Draw(c.T, "nearly") == 7 {
					tokens[len(tokens)-1] = strings.ToUpper(tokens[len(tokens)-1])
				}
			}
		}
		c.Showf("%q", tokens)
		var want, got xresult
		root.route(tokens, &want)
		if want.unclaimed {
			c.Label("not claimed")
			return
		}
		if len(want.calls) > 0 || want.err != "" || strings.Count(want.ran, " ") > 1 {
			c.NonTrivial()
		}
		switch {
		case want.err != "":
			c.Label("error, %d handlers", len(want.calls))
		case want.skipped:
			c.Label("skipped, %d handlers", len(want.calls))
		default:
			c.Label("runs, %d handlers", len(want.calls))
		}

		var build func(x *xcmd)
		build = func(x *xcmd) {
			x.cmd = &cli.Command{Name: x.name, Aliases: append([]string(nil), x.aliases...)}
			var uses []cli.Action
			for _, h := range x.handlers {
				switch h.kind {
				case "reset":
					uses = append(uses, cli.HandleCommandNotFound(nil))
				case "implicit":
					uses = append(uses, cli.ImplicitCommand(h.implicit))
				default:
					uses = append(uses, cli.HandleCommandNotFound(func(ctx *cli.Context, err error) (*cli.Command, error) {
						in := ctx
						for in != nil && !in.IsCommand() {
							in = in.Parent()
						}
						got.calls = append(got.calls, h.id+" in "+in.Path().String()+" after "+err.Error())
						switch h.kind {
						case "err":
							return nil, &xerr{h.id}
						case "skip":
							return nil, cli.ErrSkipCommand
						case "cmd":
							subs := in.Target().(*cli.Command).Subcommands
							// the command of this index in the command that asks
							k := h.index
							m := 0
							for _, s := range subs {
								if s.Name != "help" && s.Name != "version" {
									m++
								}
							}
							return subs[k%m], nil
						}
						return nil, nil
					}))
				}
			}
			x.cmd.Uses = cli.ActionPipeline(uses)
			x.cmd.Action = func(ctx *cli.Context) {
				if got.skipped {
					return
				}
				if got.ran != "" {
					c.Failf("both %s and %s run", got.ran, x.path())
				}
				got.ran = x.path()
				got.args = nil
				for i := range x.nargs {
					got.args = append(got.args, ctx.String(fmt.Sprint("own", i)))
				}
				if len(x.subs) == 0 {
					got.args = ctx.List("rest")
					if ctx.Path().String() != x.path() {
						c.Failf("the path of %s is %s", x.path(), ctx.Path())
					}
				}
			}
			if len(x.subs) == 0 {
				x.cmd.Args = []*cli.Arg{{Name: "rest", Value: new([]string), NArg: -1, Options: cli.DisableSplitting}}
			}
			for i := range x.nargs {
				x.cmd.Args = append(x.cmd.Args, &cli.Arg{Name: fmt.Sprint("own", i), Value: new(string), NArg: 1})
			}
			for _, s := range x.subs {
				build(s)
				x.cmd.Subcommands = append(x.cmd.Subcommands, s.cmd)
			}
		}
		build(root)
		app := newApp("app")
		app.Commands, app.Args, app.Uses, app.Action = root.cmd.Subcommands, root.cmd.Args, root.cmd.Uses, root.cmd.Action
		got.skipped = want.skipped
		err := run(app, tokens...)
		if err != nil {
			got.err = err.Error()
		}
		if want.err == "expected argument" && strings.HasPrefix(got.err, want.err) {
			got.err = want.err
		}
		if got.err != want.err {
			c.Failf("error %q, want %q", got.err, want.err)
		}
		if strings.Join(got.calls, "\n") != strings.Join(want.calls, "\n") {
			c.Failf("handlers %q, want %q", got.calls, want.calls)
		}
		if strings.HasSuffix(want.err, "is not a command") {
			var pe *cli.ParseError
			if !errors.As(err, &pe) || pe.Code != cli.CommandNotFound {
				c.Failf("the error is %#v", err)
			}
		}
		if !want.skipped && want.err == "" && (got.ran != want.ran || strings.Join(got.args, "\x00") != strings.Join(want.args, "\x00")) {
			c.Failf("%q %q runs, want %q %q", got.ran, got.args, want.ran, want.args)
		}
		if want.err != "" && got.ran != "" {
			c.Failf("%q runs", got.ran)
		}
	})
}
