package core

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

type hflag struct {
	level int
	names []string // the name, then the aliases
	value string
	raw   []string
	used  int // the level at which it is used, or -1
}

// TestP08_Hide: in each command a name or alias means the flag of the nearest
// command that has it
func TestP08_Hide(t *testing.T) {
	pbt.Run(t, "two flags of different levels share a name or alias, and one of them is used", 1200, func(c *pbt.C) {
		depth := rapid.IntRange(2, 3).Draw(c.T, "depth")
		var all []*hflag
		for l := 0; l < depth; l++ {
			names := drawNames(c.T, []string{"a", "b", "l", "long", "alt", "l-x"}, "names", 5)
			for len(names) > 0 {
				n := rapid.IntRange(1, min(3, len(names))).Draw(c.T, "n")
				all = append(all, &hflag{level: l, names: names[:n:n], used: -1})
				names = names[n:]
			}
		}
		// resolve is the flag meant by the name at a level; ok says whether this is claimed
		resolve := func(name string, level int) (f *hflag, ok bool) {
			for _, x := range all {
				if x.level <= level && slices.Contains(x.names, name) && (f == nil || f.level < x.level) {
					f = x
				}
			}
			if f == nil {
				return nil, false
			}
			for _, x := range all {
				// a hidden flag cannot be reached by its aliases, either
				if x.level > f.level && x.level <= level && slices.Contains(x.names, f.names[0]) {
					return nil, false
				}
			}
			return f, true
		}
		shared := false
		for _, x := range all {
			c.Showf("level %d %q", x.level, x.names)
		}
		var tokens []string
		for l := 0; l < depth; l++ {
			if l > 0 {
				tokens = append(tokens, fmt.Sprint("sub", l))
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "uses"); i < n; i++ {
				name := rapid.SampledFrom([]string{"a", "b", "l", "long", "alt", "l-x"}).Draw(c.T, "as")
				f, ok := resolve(name, l)
				if !ok || f.used >= 0 && f.used != l {
					continue
				}
				f.used = l
				f.value = fmt.Sprintf("v%d", len(tokens))
				d := "--"
				if len(name) == 1 {
					d = "-"
				}
				tokens = append(tokens, d+name, f.value)
				f.raw = append(f.raw, d+name, f.value)
			}
		}
		for _, x := range all {
			for _, y := range all {
				if x.level < y.level && (x.used >= 0 || y.used >= 0) {
					for _, n := range x.names {
						shared = shared || slices.Contains(y.names, n)
					}
				}
			}
		}
		if shared {
			c.NonTrivial()
		}
		c.Showf("%q", tokens)

		app := newApp("app")
		cmd := &cli.Command{}
		ran := false
		for l := depth - 1; l >= 0; l-- {
			next := &cli.Command{Name: fmt.Sprint("sub", l)}
			for _, x := range all {
				if x.level == l {
					next.Flags = append(next.Flags, &cli.Flag{Name: x.names[0], Aliases: append([]string(nil), x.names[1:]...), Value: new(string)})
				}
			}
			if l < depth-1 {
				next.Subcommands = []*cli.Command{cmd}
			} else {
				next.Action = func(ctx *cli.Context) {
					ran = true
					cur := ctx
					for l := depth - 1; l >= 0; l-- {
						for _, name := range []string{"a", "b", "l", "long", "alt", "l-x"} {
							f, ok := resolve(name, l)
							if !ok {
								continue
							}
							if got := cur.String(name); got != f.value {
								c.Failf("%q at level %d is %q, want %q of level %d", name, l, got, f.value, f.level)
							}
							if got := cur.Seen(name); got != (f.used >= 0) && f.used <= l {
								c.Failf("Seen(%q) at level %d is %v", name, l, got)
							}
							if f.used == l || f.used < 0 {
								if got := cur.Raw(name); strings.Join(got, " ") != strings.Join(f.raw, " ") {
									c.Failf("Raw(%q) at level %d is %q, want %q", name, l, got, f.raw)
								}
							}
						}
						cur = cur.Parent()
						if cur != nil && !cur.IsCommand() {
							cur = cur.Parent()
						}
					}
				}
			}
			cmd = next
		}
		app.Flags, app.Commands, app.Action = cmd.Flags, cmd.Subcommands, cmd.Action
		if err := run(app, tokens...); err != nil {
			c.Failf("error %v", err)
		}
		if !ran {
			c.Failf("nothing ran")
		}
	})
}
