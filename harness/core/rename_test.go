package core

import (
	"context"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// rnode is a command, flag or arg, whose initializers give it (or its command) other names
type rnode struct {
	kind   string
	now    string // the name it has now
	parent *rnode
	subs   []*rnode
	steps  []string
}

func (n *rnode) path() []string {
	var res []string
	if n.parent != nil {
		res = n.parent.path()
	}
	switch {
	case n.kind == "arg":
		return append(res, "<"+n.now+">")
	case n.kind == "flag" && len(n.now) == 1:
		return append(res, "-"+n.now)
	case n.kind == "flag":
		return append(res, "--"+n.now)
	}
	return append(res, n.now)
}

// TestP13_Rename: the path has the names that there are when it is asked for
func TestP13_Rename(t *testing.T) {
	pbt.Run(t, "the path is asked for before and after a name in it is changed", 2000, func(c *pbt.C) {
		count := 0
		fresh := func() string {
			count++
			if rapid.IntRange(0, 3).Draw(c.T, "short") == 0 && count < 26 {
				return string(rune('A' + count))
			}
			return fmt.Sprintf("n%d", count)
		}
		var build func(kind string, parent *rnode, depth int) *rnode
		build = func(kind string, parent *rnode, depth int) *rnode {
			n := &rnode{kind: kind, parent: parent, now: fresh()}
			if parent == nil {
				n.now = "app"
			}
			steps := []string{"look", "look", "look", "Named", "SetName", "field"}
			if parent != nil {
				steps = append(steps, "parent", "parent field")
			}
			n.steps = rapid.SliceOfN(rapid.SampledFrom(steps), 0, 5).Draw(c.T, "steps")
			if kind == "command" {
				for range rapid.IntRange(0, 2).Draw(c.T, "flags") {
					n.subs = append(n.subs, build("flag", n, 0))
				}
				if rapid.IntRange(0, 2).Draw(c.T, "arg") == 0 {
					n.subs = append(n.subs, build("arg", n, 0))
				}
				if depth > 0 {
					for range rapid.IntRange(0, 2).Draw(c.T, "subs") {
						n.subs = append(n.subs, build("command", n, depth-1))
					}
				}
			}
			c.Showf("%s %v: %q", kind, n.path(), n.steps)
			return n
		}
		root := build("command", nil, 2)

		looked, changed := map[*rnode]bool{}, false
		look := func(n *rnode, ctx *cli.Context) {
			for x, up := n, ctx; x != nil; x, up = x.parent, up.Parent() {
				if up.Path().String() != strings.Join(x.path(), " ") {
					c.Failf("the path is %q, expected %q", up.Path(), x.path())
				}
			}
			path := n.path()
			if !ctx.Matches(cli.PatternFilter(path[len(path)-1])) || !ctx.Matches(cli.PatternFilter(strings.Join(path, " "))) {
				c.Failf("%q doesn't match", path)
			}
			if rapid.Bool().Draw(c.T, "change the path") {
				// what is returned may be changed by who gets it
				p := ctx.Path()
				for i := range p {
					p[i] = "changed"
				}
				_ = append(p[:0], "x", "y", "z")
				if ctx.Path().String() != strings.Join(path, " ") {
					c.Failf("the path is %q after a change of the one returned earlier, expected %q", ctx.Path(), path)
				}
			}
			for x := n; x != nil; x = x.parent {
				changed = changed || looked[x]
			}
			looked[n] = true
		}
		set := func(target any, name string) {
			switch x := target.(type) {
			case *cli.Command:
				x.Name = name
			case *cli.Flag:
				x.Name = name
			case *cli.Arg:
				x.Name = name
			}
		}
		uses := func(n *rnode) cli.Action {
			return cli.ActionFunc(func(ctx *cli.Context) error {
				for _, s := range n.steps {
					name := fresh()
					switch s {
					case "look":
						look(n, ctx)
						continue
					case "Named":
						if err := ctx.Do(cli.Named(name)); err != nil {
							return err
						}
						n.now = name
					case "SetName":
						if err := ctx.SetName(name); err != nil {
							return err
						}
						n.now = name
					case "field":
						set(ctx.Target(), name)
						n.now = name
					case "parent":
						if err := ctx.Parent().SetName(name); err != nil {
							return err
						}
						n.parent.now = name
					case "parent field":
						set(ctx.Parent().Target(), name)
						n.parent.now = name
					}
				}
				return nil
			})
		}
		later := 0
		check := func(n *rnode) cli.Action {
			return cli.ActionFunc(func(ctx *cli.Context) error {
				later++
				look(n, ctx)
				return nil
			})
		}
		var command func(n *rnode) *cli.Command
		command = func(n *rnode) *cli.Command {
			cmd := &cli.Command{Name: n.now, Uses: uses(n), Before: check(n), Action: check(n), After: check(n)}
			for _, s := range n.subs {
				switch s.kind {
				case "flag":
					cmd.Flags = append(cmd.Flags, &cli.Flag{Name: s.now, Value: cli.Bool(), Uses: uses(s), Before: check(s), After: check(s)})
				case "arg":
					cmd.Args = append(cmd.Args, &cli.Arg{Name: s.now, NArg: 1, Value: cli.String(), Uses: uses(s), Before: check(s), Action: check(s), After: check(s)})
				default:
					cmd.Subcommands = append(cmd.Subcommands, command(s))
				}
			}
			return cmd
		}
		app := newApp("app")
		x := command(root)
		app.Uses, app.Before, app.Action, app.After, app.Flags, app.Args, app.Commands = x.Uses, x.Before, x.Action, x.After, x.Flags, x.Args, x.Subcommands
		tokens := []string{"app"}
		want := 0
		for _, s := range append([]*rnode{root}, root.subs...) {
			switch s.kind {
			case "flag":
				want += 2
			case "arg":
				tokens = append(tokens, "v")
				want += 3
			case "command":
				if s == root {
					want += 3
				}
			}
		}
		if err := app.RunContext(context.Background(), tokens); err != nil {
			c.Failf("run: %v", err)
		}
		if later != want {
			c.Failf("%d actions ran after the initialization, expected %d", later, want)
		}
		if changed {
			c.NonTrivial()
		}
	})
}
