package core

import (
	"fmt"
	"os"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// levels runs flags which are defined in an app or a sub-command and occur at
// this level and at those below.
func levels(c *pbt.C, withEnv bool) {
	depth := rapid.IntRange(1, 2).Draw(c.T, "depth")
	names := []string{"app", "sub", "subsub"}[:depth+1]
	type opt struct {
		oopt
		level int
		at    [][]string // occurrences by level
		env   string
		acts  []string
	}
	var opts []*opt
	tokens := make([][]string, depth+1)
	for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "nflags"); i < n; i++ {
		o := &opt{oopt: genOopt(c.T, i, false), level: rapid.IntRange(0, depth).Draw(c.T, "level"), at: make([][]string, depth+1)}
		o.each = rapid.IntRange(0, 3).Draw(c.T, "each") == 1
		if o.each {
			o.merge = false
		}
		if withEnv && rapid.Bool().Draw(c.T, "hasEnv") {
			o.env = rapid.SampledFrom(o.kind.values).Draw(c.T, "env")
			o.merge = false // what is merged with a value that was implicit in an outer command isn't documented
		}
		used := 0
		for l := o.level; l <= depth; l++ {
			k := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(c.T, "nocc")
			if k > 0 {
				used++
			}
			for ; k > 0; k-- {
				v := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
				o.occ = append(o.occ, v)
				o.at[l] = append(o.at[l], v)
				tokens[l] = append(tokens[l], "--"+o.long()+"="+v)
			}
		}
		if used > 1 && !withEnv || withEnv && o.env != "" && len(o.occ) > 0 && len(o.at[o.level]) == 0 {
			c.NonTrivial()
		}
		opts = append(opts, o)
		c.Showf("%s: %v occurrences %q env %q", names[o.level], o.oopt, o.at, o.env)
	}
	var line []string
	for l, t := range tokens {
		if l > 0 {
			line = append(line, names[l])
		}
		line = append(line, t...)
	}
	c.Showf("line %q", line)

	done := 0
	cmds := make([]*cli.Command, depth+1)
	for l := range cmds {
		cmds[l] = &cli.Command{Name: names[l]}
		if l > 0 {
			cmds[l-1].Subcommands = []*cli.Command{cmds[l]}
		}
	}
	for i, o := range opts {
		f := &cli.Flag{Name: o.name, Aliases: []string{o.alias}, Value: o.pointer(), Options: o.options(), Action: func(ctx *cli.Context) {
			o.acts = append(o.acts, vtext(ctx.Value("")))
		}}
		if o.env != "" {
			name := fmt.Sprintf("VERIF_LEVEL_%d", i)
			os.Setenv(name, o.env)
			defer os.Unsetenv(name)
			f.EnvVars = []string{name}
		}
		cmds[o.level].Flags = append(cmds[o.level].Flags, f)
	}
	cmds[depth].Action = func(ctx *cli.Context) {
		done++
		for _, o := range opts {
			want := o.fold(o.occ)
			if len(o.occ) == 0 && o.env != "" {
				want = o.fold([]string{o.env})
			}
			if got := vtext(ctx.Value(o.name)); got != vtext(want) {
				c.Failf("%s is %s, want %s", o.name, got, vtext(want))
			}
			if ctx.Occurrences(o.name) != len(o.occ) || ctx.Seen(o.name) != (len(o.occ) > 0) {
				c.Failf("%s: Occurrences %d, Seen %v; %d occurrences", o.name, ctx.Occurrences(o.name), ctx.Seen(o.name), len(o.occ))
			}
			// the Action runs at each level at which it occurs, with the value so far
			var acts []string
			var occ []string
			for l, at := range o.at {
				if len(at) == 0 {
					if l == o.level && o.env != "" && o.implied {
						acts = append(acts, vtext(o.fold([]string{o.env})))
					}
					continue
				}
				if o.each {
					for _, v := range at {
						acts = append(acts, vtext(oopt{kind: o.kind, split: o.split}.fold([]string{v})))
					}
				} else {
					occ = append(occ, at...)
					acts = append(acts, vtext(o.fold(occ)))
				}
			}
			if fmt.Sprint(o.acts) != fmt.Sprint(acts) {
				c.Failf("%s: the Action ran with %q, want %q", o.name, o.acts, acts)
			}
		}
	}
	app := newApp("app")
	app.Flags, app.Action, app.Commands = cmds[0].Flags, cmds[0].Action, cmds[0].Subcommands
	if err := run(app, line...); err != nil || done != 1 {
		c.Failf("error %v, ran %d", err, done)
	}
}

// TestP06_Levels: the occurrences of a flag of an outer command count together.
func TestP06_Levels(t *testing.T) {
	pbt.Run(t, "random flags of an app and its sub-commands, with occurrences at each level; non-trivial: a flag occurs at two levels", 4000, func(c *pbt.C) {
		levels(c, false)
	})
}

// TestP07_Levels: also an explicit value in a sub-command wins over the environment.
func TestP07_Levels(t *testing.T) {
	pbt.Run(t, "random flags of an app and its sub-commands with environment variables, with occurrences at each level; non-trivial: a flag with an environment variable occurs only in a sub-command", 4000, func(c *pbt.C) {
		levels(c, true)
	})
}
