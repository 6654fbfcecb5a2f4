package usage

import (
	"bytes"
	"context"
	"fmt"
	"slices"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// TestP33_Visibility: what is hidden, and the order of what is not.
func TestP33_Visibility(t *testing.T) {
	pbt.Run(t, "random flags and commands at up to 3 levels with Hidden, Visible, leading underscores, DisableAutoVisibility and Sorted options; non-trivial: something is hidden by its name or shown in spite of it, or two are sorted", 2500, func(c *pbt.C) {
		type node struct {
			name   string
			hidden bool
			opts   cli.Option
			via    string
			flags  []*node
			subs   []*node
		}
		var all []*node
		k := 0
		letters := rapid.Permutation([]rune("abcdefghijklmnopqrstuvwxyz")).Draw(c.T, "letters")
		newNode := func(kind string, auto bool) *node {
			n := &node{name: fmt.Sprintf("%c%s%d", letters[k%26], kind, k)}
			k++
			under := rapid.IntRange(0, 2).Draw(c.T, "underscore") == 0
			if under {
				n.name = "_" + n.name
				n.hidden = auto
			}
			switch rapid.IntRange(0, 5).Draw(c.T, "option") {
			case 0:
				n.opts = cli.Hidden
				n.hidden = true
			case 1:
				n.opts = cli.Visible
				n.hidden = false
			}
			if under && auto {
				c.NonTrivial()
			}
			n.via = rapid.SampledFrom([]string{"field", "uses"}).Draw(c.T, "via")
			all = append(all, n)
			return n
		}
		var fill func(n *node, auto bool, depth int)
		fill = func(n *node, auto bool, depth int) {
			if rapid.IntRange(0, 5).Draw(c.T, "disableAuto") == 0 {
				n.opts |= cli.DisableAutoVisibility
				auto = false
			}
			for _, o := range []cli.Option{cli.SortedFlags, cli.SortedCommands, cli.Sorted} {
				if rapid.IntRange(0, 3).Draw(c.T, "sorted") == 0 {
					n.opts |= o
				}
			}
			for range rapid.IntRange(0, 3).Draw(c.T, "nflags") {
				n.flags = append(n.flags, newNode("flag", auto))
			}
			if depth < 2 {
				for range rapid.IntRange(0, 3-depth).Draw(c.T, "nsubs") {
					s := newNode("sub", auto)
					// the option may be on the command itself
					fill(s, auto, depth+1)
					if s.opts&cli.DisableAutoVisibility != 0 && strings.HasPrefix(s.name, "_") && s.opts&(cli.Hidden) == 0 {
						s.hidden = false
					}
					n.subs = append(n.subs, s)
				}
			}
		}
		root := &node{via: "field"}
		fill(root, true, 0)
		path := []*node{root}
		for cur := root; len(cur.subs) > 0 && rapid.Bool().Draw(c.T, "deeper"); {
			cur = rapid.SampledFrom(cur.subs).Draw(c.T, "sub")
			path = append(path, cur)
		}
		var show func(n *node, indent string)
		show = func(n *node, indent string) {
			c.Showf("%s%q options %v via %s hidden %v", indent, n.name, n.opts, n.via, n.hidden)
			for _, f := range n.flags {
				c.Showf("%s  --%s %v via %s hidden %v", indent, f.name, f.opts, f.via, f.hidden)
			}
			for _, s := range n.subs {
				show(s, indent+"    ")
			}
		}
		show(root, "")

		var build func(n *node) *cli.Command
		build = func(n *node) *cli.Command {
			cmd := &cli.Command{Name: n.name, HelpText: "about " + n.name}
			if n.via == "field" {
				cmd.Options = n.opts
			} else {
				cmd.Uses = n.opts
			}
			for _, f := range n.flags {
				fl := &cli.Flag{Name: f.name, HelpText: "about " + f.name}
				if f.via == "field" {
					fl.Options = f.opts
				} else {
					fl.Uses = f.opts
				}
				cmd.Flags = append(cmd.Flags, fl)
			}
			for _, s := range n.subs {
				cmd.Subcommands = append(cmd.Subcommands, build(s))
			}
			return cmd
		}
		rootCmd := build(root)
		var out bytes.Buffer
		app := &cli.App{Name: "app", Stdout: &out, Stderr: &out, Flags: rootCmd.Flags, Commands: rootCmd.Subcommands, Options: rootCmd.Options}
		args := []string{"app"}
		for _, n := range path[1:] {
			args = append(args, n.name)
		}
		if rapid.Bool().Draw(c.T, "helpCommand") && len(root.subs) > 0 {
			args = append([]string{"app", "help"}, args[1:]...)
		} else {
			args = append(args, "--help")
		}
		c.Showf("%q", args)
		if err := app.RunContext(context.Background(), args); err != nil {
			if _, ok := err.(cli.ExitCoder); !ok {
				c.Failf("error %v", err)
			}
		}
		text := out.String()
		_, body, _ := strings.Cut(text, "\n\n") // after the usage line
		line := func(name string) int {
			for i, l := range strings.Split(body, "\n") {
				if slices.Contains(strings.FieldsFunc(l, func(r rune) bool { return strings.ContainsRune(" =,[]|", r) }), name) {
					return i
				}
			}
			return -1
		}
		here := path[len(path)-1]
		visible := map[string]bool{}
		check := func(what string, nodes []*node, prefix string, sorted bool) {
			var order []string
			for _, n := range nodes {
				at := line(prefix + n.name)
				visible[n.name] = true
				if n.hidden != (at < 0) {
					c.Failf("%s%s is hidden: %v; in the help screen: %v\n%s", prefix, n.name, n.hidden, at >= 0, text)
				}
				if at >= 0 {
					order = append(order, n.name)
				}
			}
			if sorted {
				slices.Sort(order)
			}
			for i := 1; i < len(order); i++ {
				if sorted {
					c.NonTrivial()
				}
				if line(prefix+order[i-1]) > line(prefix+order[i]) {
					c.Failf("%s: %s is after %s, sorted %v\n%s", what, order[i-1], order[i], sorted, text)
				}
			}
		}
		for _, n := range path {
			check("flags", n.flags, "--", n.opts&cli.SortedFlags != 0)
		}
		check("commands", here.subs, "", here.opts&cli.SortedCommands != 0)
		// nothing else
		for _, n := range all {
			if !visible[n.name] && (line(n.name) >= 0 || line("--"+n.name) >= 0) && n != here {
				c.Failf("%s is listed\n%s", n.name, text)
			}
		}
		if strings.Contains(text, "<no value>") {
			c.Failf("%s", text)
		}
	})
}
