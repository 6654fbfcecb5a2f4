package core

import (
	"context"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// TestP17_Request: what a completion function is told about the command line so far
func TestP17_Request(t *testing.T) {
	pbt.Run(t, "a word of a sub-command is completed after flags or args were given", 2500, func(c *pbt.C) {
		type level struct {
			names       []string
			strs, bools []string // names of the flags
			args        []string
			many        string
		}
		depth := rapid.IntRange(0, 2).Draw(c.T, "depth")
		var levels []*level
		for i := 0; i <= depth; i++ {
			l := &level{names: []string{"app"}}
			if i > 0 {
				l.names = []string{fmt.Sprintf("sub%d", i), fmt.Sprintf("s%d", i)}
			}
			for j := range rapid.IntRange(0, 2).Draw(c.T, "strs") {
				l.strs = append(l.strs, fmt.Sprintf("str%d%d", i, j))
			}
			for j := range rapid.IntRange(0, 1).Draw(c.T, "bools") {
				l.bools = append(l.bools, string(rune('A'+i*3+j)))
			}
			if i == depth || rapid.IntRange(0, 2).Draw(c.T, "outer args") == 0 {
				for j := range rapid.IntRange(0, 2).Draw(c.T, "args") {
					l.args = append(l.args, fmt.Sprintf("arg%d%d", i, j))
				}
			}
			if i == depth && (len(l.args) == 0 || rapid.Bool().Draw(c.T, "many")) {
				l.many = fmt.Sprintf("many%d", i)
			}
			levels = append(levels, l)
		}

		// the command line so far
		line := []string{"app"}
		flags, args := map[string][][]string{}, map[string][][]string{}
		value := map[string]string{}
		val := func() string { return rapid.SampledFrom([]string{"v", "w", "a b", "", "x=y"}).Draw(c.T, "value") }
		var own []string
		var target string
		missing, required := false, rapid.Bool().Draw(c.T, "required")
		given := false
		for i, l := range levels {
			own = []string{line[len(line)-1]}
			add := func(s ...string) {
				line = append(line, s...)
				own = append(own, s...)
			}
			flags, args = map[string][][]string{}, map[string][][]string{}
			// flags of the commands so far
			for range rapid.IntRange(0, 3).Draw(c.T, "uses") {
				var strs, bools []string
				for _, m := range levels[:i+1] {
					strs, bools = append(strs, m.strs...), append(bools, m.bools...)
				}
				if len(strs) > 0 && rapid.Bool().Draw(c.T, "string") {
					f, v := rapid.SampledFrom(strs).Draw(c.T, "flag"), val()
					switch {
					case v != "" && rapid.Bool().Draw(c.T, "apart"):
						add("--"+f, v)
					default:
						add("--" + f + "=" + v)
					}
					flags[f] = append(flags[f], []string{"--" + f, v})
					value[f] = v
					given = true
				} else if len(bools) > 0 {
					f := rapid.SampledFrom(bools).Draw(c.T, "flag")
					add("-" + f)
					flags[f] = append(flags[f], []string{"-" + f, ""})
					value[f] = "true"
					given = true
				}
			}
			n := len(l.args)
			if i == depth {
				n = rapid.IntRange(0, len(l.args)).Draw(c.T, "given")
			}
			for _, a := range l.args[:n] {
				v := val()
				if v == "" {
					v = "z"
				}
				add(v)
				args[a] = append(args[a], []string{"<" + a + ">", v})
				value[a] = v
				given = true
			}
			if i < depth {
				add(rapid.SampledFrom(levels[i+1].names).Draw(c.T, "sub"))
				continue
			}
			missing = n < len(l.args) && required
			if n < len(l.args) {
				target = "<" + l.args[n] + ">"
			} else if l.many != "" {
				for range rapid.IntRange(0, 2).Draw(c.T, "manyGiven") {
					add("m")
					args[l.many] = append(args[l.many], []string{"<" + l.many + ">", "m"})
					given = true
				}
				target = "<" + l.many + ">"
			} else {
				target = "<" + l.args[len(l.args)-1] + ">"
			}
		}
		last := levels[depth]
		word := rapid.SampledFrom([]string{"", "w", "wo rd", "é"}).Draw(c.T, "word")
		if len(last.strs) > 0 && rapid.IntRange(0, 2).Draw(c.T, "inline") == 0 {
			f := rapid.SampledFrom(last.strs).Draw(c.T, "of")
			target, word = "--"+f, "--"+f+"="+word
		}
		c.Showf("command line %q completing %q", line, word)
		if given && depth > 0 {
			c.NonTrivial()
		}

		// the app
		asked := 0
		items := []cli.CompletionItem{{Value: "one", HelpText: "help"}, {Value: "two", PreventSpaceAfter: true}}
		comp := cli.CompletionFunc(func(x *cli.Context) []cli.CompletionItem {
			asked++
			r := x.CompletionRequest()
			path := []string{"app"}
			for _, l := range levels[1:] {
				path = append(path, l.names[0])
			}
			if got, want := x.Path().String(), strings.Join(append(path, target), " "); got != want && !missing {
				c.Failf("the completion of %q is asked for, want %q", got, want)
			}
			if fmt.Sprintf("%q", r.Args) != fmt.Sprintf("%q", own) || r.Incomplete != word || (r.Err != nil) != missing {
				c.Failf("the request is %q %q %v, want %q %q, an error %v", r.Args, r.Incomplete, r.Err, own, word, missing)
			}
			for _, kind := range []map[string][][]string{flags, args} {
				for n, want := range kind {
					// what ends in a level belongs to it
					if got := r.Bindings[n]; fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
						c.Failf("bindings of %s are %q, want %q", n, got, want)
					}
				}
			}
			for n := range r.Bindings {
				if n != "" && flags[n] == nil && args[n] == nil {
					c.Failf("bindings have %q", n)
				}
			}
			for n, want := range value {
				if missing && (flags[n] != nil || args[n] != nil) {
					// nothing is set from a command line that can't be parsed as yet
					continue
				}
				if got := fmt.Sprint(x.Value(n)); got != want {
					c.Failf("the value of %s is %q, want %q", n, got, want)
				}
			}
			return items
		})
		var build func(i int) *cli.Command
		build = func(i int) *cli.Command {
			l := levels[i]
			x := &cli.Command{Name: l.names[0], Aliases: append([]string(nil), l.names[1:]...), Action: func() { c.Failf("an action ran") }}
			for _, f := range l.strs {
				x.Flags = append(x.Flags, &cli.Flag{Name: f, Value: new(string), Completion: comp})
			}
			for _, f := range l.bools {
				x.Flags = append(x.Flags, &cli.Flag{Name: f, Value: new(bool)})
			}
			for _, a := range l.args {
				x.Args = append(x.Args, &cli.Arg{Name: a, Completion: comp})
				if required || i < depth {
					x.Args[len(x.Args)-1].NArg = 1
				}
			}
			if l.many != "" {
				x.Args = append(x.Args, &cli.Arg{Name: l.many, NArg: cli.TakeUntilNextFlag, Value: new([]string), Completion: comp})
			}
			if i < depth {
				x.Subcommands = append(x.Subcommands, build(i+1))
			}
			return x
		}
		r := build(0)
		app := newApp("app")
		app.Flags, app.Args, app.Commands, app.Action = r.Flags, r.Args, r.Subcommands, r.Action
		ctx, err := app.Initialize(context.Background())
		if err != nil {
			c.Failf("Initialize: %v", err)
		}
		got := cli.FromContext(ctx).Complete(line, word)
		if asked != 1 || fmt.Sprint(got) != fmt.Sprint(items) {
			c.Failf("asked %d times, items %v", asked, got)
		}
		if cli.FromContext(ctx).CompletionRequest() != nil {
			c.Failf("the request remains")
		}
	})
}
