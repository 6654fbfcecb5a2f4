package ext

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/exec"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

var execToken = rapid.SampledFrom([]string{"ls", "-l", "--all", "{}", "--", "-", "a b", "", "é", "-exec", "--exec", "--name=x", "\\;", ";;", "+x", "1", "-run", "x;"})

// TestP24_ArgList: tokens up to the terminator, in flags, args and expressions
func TestP24_ArgList(t *testing.T) {
	pbt.Run(t, "a list contains a token that looks like a flag, or is not terminated", 12000, func(c *pbt.C) {
		form := rapid.SampledFrom([]string{"flag", "short", "arg", "expr"}).Draw(c.T, "form")
		var lists [][]string
		n := 1
		if form == "expr" {
			n = rapid.IntRange(1, 3).Draw(c.T, "uses")
		}
		tokens := []string{}
		terminated := true
		for i := range n {
			l := rapid.SliceOfN(execToken, 0, 4).Draw(c.T, "list")
			if (form == "arg" || form == "expr") && len(l) > 0 && strings.HasPrefix(l[0], "-") {
				l[0] = "cmd" // the first one decides whether it is an arg
			}
			if form == "arg" || form == "expr" {
				l = slices.DeleteFunc(l, func(s string) bool { return s == "--" })
			}
			end := rapid.SampledFrom([]string{";", ";", "+", "+", ""}).Draw(c.T, "end")
			if end == "" {
				if i < n-1 {
					end = ";"
				} else {
					terminated = false
				}
			}
			switch form {
			case "flag":
				tokens = append(tokens, "--exec")
			case "short":
				tokens = append(tokens, "-e")
			case "expr":
				tokens = append(tokens, "-exec")
			}
			if end != "" {
				l = append(l, end)
			}
			tokens = append(tokens, l...)
			if slices.ContainsFunc(l, func(s string) bool { return len(s) > 1 && s[0] == '-' }) {
				c.NonTrivial()
			}
			lists = append(lists, l)
		}
		after := terminated && rapid.Bool().Draw(c.T, "after")
		if after && form != "expr" {
			tokens = append(tokens, "--name", "n")
		}
		if !terminated {
			c.NonTrivial()
			c.Label("not terminated")
		}
		c.Showf("%s %q", form, tokens)
		c.Label("%s", form)

		check := func(l *exec.ArgList, want []string) string {
			if !slices.Equal([]string(*l), want) {
				return fmt.Sprintf("the list is %q, expected %q", *l, want)
			}
			args, delim := want[:len(want)-1], want[len(want)-1]
			if !slices.Equal(l.Args(), args) {
				return fmt.Sprintf("Args is %q, expected %q", l.Args(), args)
			}
			cmd, rest := l.Command()
			if len(args) == 0 && (cmd != "" || len(rest) > 0) || len(args) > 0 && (cmd != args[0] || !slices.Equal(rest, args[1:])) {
				return fmt.Sprintf("Command is %q %q", cmd, rest)
			}
			if l.UsePlaceholder() != (delim == "+") {
				return fmt.Sprintf("UsePlaceholder is %v", l.UsePlaceholder())
			}
			if s := strings.Join(want, " "); l.String() != s {
				return fmt.Sprintf("String is %q", l.String())
			}
			return ""
		}

		var problems []string
		var seen [][]string
		note := func(s string) {
			if s != "" {
				problems = append(problems, s)
			}
		}
		name := new(string)
		var buf bytes.Buffer
		app := &cli.App{Name: "app", Stdout: &buf, Stderr: &buf}
		ran := false
		app.Action = func(ctx *cli.Context) error {
			ran = true
			if form != "expr" {
				note(check(ctx.Value("exec").(*exec.ArgList), lists[0]))
				return nil
			}
			return expr.FromContext(ctx, "expression").Evaluate(ctx, "item", "other")
		}
		app.Flags = []*cli.Flag{{Name: "name", Value: name}}
		switch form {
		case "flag", "short":
			app.Flags = append(app.Flags, &cli.Flag{Name: "exec", Aliases: []string{"e"}, Value: new(exec.ArgList)})
		case "arg":
			app.Args = []*cli.Arg{{Name: "exec", Value: new(exec.ArgList)}}
		case "expr":
			app.Args = []*cli.Arg{{Name: "expression", Value: &expr.Expression{Exprs: []*expr.Expr{{
				Name: "exec",
				Args: []*cli.Arg{{Name: "cmd", Value: new(exec.ArgList)}},
				Evaluate: func(ctx *cli.Context, v any) {
					l := ctx.Value("cmd").(*exec.ArgList)
					seen = append(seen, slices.Clone([]string(*l)))
					note(check(l, lists[(len(seen)-1)%len(lists)]))
				},
			}}}}}
			tokens = append([]string{"--"}, tokens...)
		}
		err := app.RunContext(context.Background(), append([]string{"app"}, tokens...))
		if !terminated {
			if err == nil {
				c.Failf("no error (%d times evaluated, %q)", len(seen), problems)
			}
			if ran {
				c.Failf("the action runs in spite of %v", err)
			}
			return
		}
		if err != nil {
			c.Failf("error: %v", err)
		}
		if len(problems) > 0 {
			c.Failf("%s", strings.Join(problems, "\n"))
		}
		if form == "expr" && len(seen) != 2*len(lists) {
			c.Failf("evaluated %d times, expected %d", len(seen), 2*len(lists))
		}
		if after && form != "expr" && *name != "n" {
			c.Failf("the flag after the list is lost")
		}
	})
}

// TestP24_Open: the program that opens files is run with the file, if there is a display
func TestP24_Open(t *testing.T) {
	dir := t.TempDir()
	out := filepath.Join(dir, "out")
	pbt.Run(t, "the program runs", 40, func(c *pbt.C) {
		display := rapid.SampledFrom([]string{"", ":0"}).Draw(c.T, "display")
		code := rapid.IntRange(0, 3).Draw(c.T, "exit")
		file := rapid.SampledFrom([]string{"a.txt", "/x/y z", "-h", "http://example.com/?a=b&c", "é'\"$HOME"}).Draw(c.T, "file")
		installed := rapid.IntRange(0, 3).Draw(c.T, "installed") > 0
		c.Showf("DISPLAY=%s file %q exit code %d installed %v", display, file, code, installed)
		t.Setenv("DISPLAY", display)
		t.Setenv("PATH", dir)
		prog := filepath.Join(dir, "xdg-open")
		_ = os.Remove(out)
		_ = os.Remove(prog)
		if installed {
			if err := os.WriteFile(prog, []byte(fmt.Sprintf("#!/bin/sh\nprintf '%%s\\n' \"$@\" > %s\nexit %d\n", out, code)), 0o755); err != nil {
				t.Fatal(err)
			}
		}
		err := exec.Open(file)
		data, _ := os.ReadFile(out)
		if display == "" || !installed {
			if err == nil || len(data) > 0 {
				c.Failf("error %v, wrote %q", err, data)
			}
			return
		}
		c.NonTrivial()
		if (err != nil) != (code != 0) {
			c.Failf("error %v for the exit code %d", err, code)
		}
		if string(data) != file+"\n" {
			c.Failf("the program gets %q", data)
		}
	})
}
