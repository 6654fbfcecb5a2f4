package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"regexp"
	"runtime/debug"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// rspec is a description of an app from which the same app can be built any number of times
type rspec struct {
	name               string
	aliases            []string
	flags              []ropt
	args               []ropt
	subs               []*rspec
	options            cli.Option
	action             int
	unknown, unknownAs string
	help               string
	cat                string
}

type ropt struct {
	name    string
	aliases []string
	typ     int
	options cli.Option
	narg    any
	env     []string
	usage   string
	help    string
	extra   int
	cat     string
}

type rvalue struct{ s []string }

func (v *rvalue) Set(s string) error {
	if s == "bad" {
		return fmt.Errorf("bad value")
	}
	v.s = append(v.s, s)
	return nil
}
func (v *rvalue) String() string { return strings.Join(v.s, "+") }

var rtypes = []struct {
	name string
	make func() any
	// Optional has a meaning
	optional bool
}{
	{"bool", func() any { return new(bool) }, true},
	{"string", func() any { return new(string) }, false},
	{"[]string", func() any { return new([]string) }, false},
	{"int", func() any { return new(int) }, true},
	{"int8", func() any { return new(int8) }, true},
	{"uint16", func() any { return new(uint16) }, true},
	{"float64", func() any { return new(float64) }, true},
	{"duration", func() any { return new(time.Duration) }, true},
	{"map", func() any { return new(map[string]string) }, false},
	{"namevalue", func() any { return new(cli.NameValue) }, false},
	{"namevalues", func() any { return new([]*cli.NameValue) }, false},
	{"url", func() any { return new(*url.URL) }, false},
	{"regexp", func() any { return new(*regexp.Regexp) }, false},
	{"ip", func() any { return new(net.IP) }, false},
	{"bigint", func() any { return new(*big.Int) }, false},
	{"bigfloat", func() any { return new(*big.Float) }, false},
	{"bytes", func() any { return new([]byte) }, false},
	{"file", func() any { return new(cli.File) }, false},
	{"fileset", func() any { return new(cli.FileSet) }, false},
	{"value", func() any { return new(rvalue) }, false},
	{"nil", func() any { return nil }, false},
	{"default string", func() any { s := "def,ault"; return &s }, false},
	{"default list", func() any { s := []string{"d1", "d2"}; return &s }, false},
	{"default map", func() any { s := map[string]string{"k": "v"}; return &s }, false},
	{"default int", func() any { s := 42; return &s }, true},
}

func drawOpt(t *rapid.T, name string, isFlag bool) ropt {
	o := ropt{name: name, typ: rapid.IntRange(0, len(rtypes)-1).Draw(t, "type")}
	pool := []cli.Option{cli.Hidden, cli.Exits, cli.DisableSplitting, cli.Merge, cli.EachOccurrence, cli.ImpliedAction, cli.Visible, cli.AllowFileReference, cli.FileReference}
	typ := rtypes[o.typ]
	if isFlag {
		pool = append(pool, cli.NonPersistent)
		if typ.optional {
			pool = append(pool, cli.Optional)
		}
		if typ.name == "bool" {
			pool = append(pool, cli.No)
		}
	}
	if typ.name == "file" {
		pool = append(pool, cli.MustExist)
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "noptions"); i < n; i++ {
		o.options |= rapid.SampledFrom(pool).Draw(t, "option")
	}
	if typ.name == "value" || typ.name == "file" || typ.name == "fileset" {
		// the value has to have a Copy method for this
		o.options &^= cli.EachOccurrence
	}
	if rapid.IntRange(0, 9).Draw(t, "required") == 0 {
		o.options |= cli.Required
	}
	if !isFlag {
		o.narg = rapid.SampledFrom([]any{nil, 0, 0, 1, 2, -1, -2, -3}).Draw(t, "narg")
	}
	o.extra = rapid.IntRange(0, 11).Draw(t, "extra")
	o.usage = rapid.SampledFrom([]string{"", "", "use {NAME} for {2:OTHER}", "{", "%s{}", "a {B"}).Draw(t, "usage")
	o.help = rapid.SampledFrom([]string{"", "help text", "100% {x}"}).Draw(t, "help")
	o.cat = rapid.SampledFrom([]string{"", "", "", "cat", "Other cat"}).Draw(t, "cat")
	return o
}

var (
	rcmdNames  = []string{"sub", "add", "do-it", "_hidden", "x"}
	rflagNames = []string{"a", "b", "long", "long-er", "n", "_priv", "Z", "verb"}
	rargNames  = []string{"file", "arg", "rest", ""}
)

func drawSpec(t *rapid.T, name string, depth int) *rspec {
	s := &rspec{name: name}
	fs := drawNames(t, rflagNames, "flags", 4)
	for i := 0; i < len(fs); i++ {
		o := drawOpt(t, fs[i], true)
		if i+1 < len(fs) && rapid.IntRange(0, 2).Draw(t, "alias") == 0 {
			o.aliases = []string{fs[i+1]}
			i++
		} else if rapid.IntRange(0, 9).Draw(t, "alias") == 0 {
			o.aliases = []string{string(rune('à' + i))}
		}
		s.flags = append(s.flags, o)
	}
	for _, a := range drawNames(t, rargNames, "args", 3) {
		s.args = append(s.args, drawOpt(t, a, false))
	}
	if depth > 0 && rapid.Bool().Draw(t, "hasSubs") {
		for _, n := range drawNames(t, rcmdNames, "subs", 3) {
			sub := drawSpec(t, n, depth-1)
			if rapid.IntRange(0, 3).Draw(t, "alias") == 0 {
				sub.aliases = []string{n + "2"}
			}
			s.subs = append(s.subs, sub)
		}
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "noptions"); i < n; i++ {
		s.options |= rapid.SampledFrom([]cli.Option{cli.Hidden, cli.SkipFlagParsing, cli.DisallowFlagsAfterArgs, cli.RightToLeft, cli.PreventSetup,
			cli.SortedFlags, cli.SortedCommands, cli.Sorted, cli.ImpliedAction, cli.DisableAutoVisibility, cli.Visible}).Draw(t, "option")
	}
	s.action = rapid.IntRange(0, 4).Draw(t, "action")
	if len(s.subs) > 0 {
		s.unknown = rapid.SampledFrom([]string{"", "", "", "implicit", "command", "error", "nothing", "default"}).Draw(t, "unknown")
		s.unknownAs = rapid.SampledFrom(rcmdNames).Draw(t, "unknownAs")
	}
	s.help = rapid.SampledFrom([]string{"", "does things", "a\nb"}).Draw(t, "help")
	s.cat = rapid.SampledFrom([]string{"", "", "cat"}).Draw(t, "cat")
	return s
}

func (s *rspec) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s%v options %v action %d cat %q unknown %s %q\n", s.name, s.aliases, s.options, s.action, s.cat, s.unknown, s.unknownAs)
	for i, l := range [][]ropt{s.flags, s.args} {
		for _, o := range l {
			fmt.Fprintf(&b, "  %s %s%v %s options %v nargs %v extra %d usage %q\n", []string{"flag", "arg"}[i], o.name, o.aliases, rtypes[o.typ].name, o.options, o.narg, o.extra, o.usage)
		}
	}
	for _, x := range s.subs {
		b.WriteString("  " + strings.ReplaceAll(strings.TrimRight(x.text(), "\n"), "\n", "\n  ") + "\n")
	}
	return b.String()
}

func rshow(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *url.URL:
		if x == nil {
			return "nil"
		}
		return x.String()
	case *regexp.Regexp:
		if x == nil {
			return "nil"
		}
		return x.String()
	case *cli.File:
		if x == nil {
			return "nil"
		}
		return "file " + x.Name
	case *cli.FileSet:
		if x == nil {
			return "nil"
		}
		return fmt.Sprint("files ", x.Files, x.Recursive)
	case []*cli.NameValue:
		var s []string
		for _, n := range x {
			s = append(s, n.String())
		}
		return strings.Join(s, ";")
	case *rvalue:
		return x.String()
	}
	return fmt.Sprintf("%v", v)
}

type rlog struct{ lines []string }

func (l *rlog) act(tag string) func(*cli.Context) {
	return func(c *cli.Context) {
		line := tag + " " + c.Path().String()
		if c.IsCommand() {
			for _, f := range c.Flags() {
				line += fmt.Sprintf(" %s=%s/%v/%q", f.Name, rshow(c.Value(f.Name)), c.Seen(f.Name), c.Raw(f.Name))
			}
			for i := range c.LocalArgs() {
				line += fmt.Sprintf(" #%d=%s", i, rshow(c.Value(i)))
			}
			line += fmt.Sprintf(" args %q", c.Args())
		} else {
			line += fmt.Sprintf(" %s %q %d", rshow(c.Value("")), c.Raw(""), c.Occurrences(""))
		}
		l.lines = append(l.lines, line)
	}
}

func (o ropt) uses(l *rlog) any {
	switch o.extra {
	case 0:
		return cli.Enum("a", "b", "v")
	case 1:
		return cli.Mutex("a", "n", "long")
	case 2:
		return cli.CompletionValues("v", "val", "other")
	case 3:
		return cli.ValidatorFunc(func(s []string) error {
			if len(s) > 2 {
				return fmt.Errorf("too many %d", len(s))
			}
			return nil
		})
	case 4:
		return cli.ImplicitValue(func(*cli.Context) (string, bool) { return "1", true })
	case 5:
		return cli.FromEnv("VERIF_P16_{}")
	case 6:
		return cli.FileCompletion
	case 7:
		return cli.Before(cli.ActionFunc(func(c *cli.Context) error { l.act("before")(c); return nil }))
	}
	return nil
}

func (s *rspec) build(l *rlog) *cli.Command {
	c := &cli.Command{Name: s.name, Aliases: append([]string(nil), s.aliases...), Options: s.options, HelpText: s.help, Category: s.cat}
	for _, o := range s.flags {
		c.Flags = append(c.Flags, &cli.Flag{Name: o.name, Aliases: append([]string(nil), o.aliases...), Value: rtypes[o.typ].make(), Options: o.options,
			UsageText: o.usage, HelpText: o.help, Category: o.cat, Uses: o.uses(l), Action: l.act("flag")})
	}
	for _, o := range s.args {
		c.Args = append(c.Args, &cli.Arg{Name: o.name, Value: rtypes[o.typ].make(), Options: o.options, NArg: o.narg, UsageText: o.usage,
			HelpText: o.help, Category: o.cat, Uses: o.uses(l), Action: l.act("arg")})
	}
	for _, x := range s.subs {
		c.Subcommands = append(c.Subcommands, x.build(l))
	}
	handle := func(f func(*cli.Context) (*cli.Command, error)) cli.Action {
		return cli.HandleCommandNotFound(func(c *cli.Context, _ error) (*cli.Command, error) { return f(c) })
	}
	switch s.unknown {
	case "implicit":
		c.Uses = cli.ImplicitCommand(s.unknownAs)
	case "command":
		c.Uses = handle(func(c *cli.Context) (*cli.Command, error) {
			x, _ := c.Command().Command(s.unknownAs)
			return x, nil
		})
	case "error":
		c.Uses = handle(func(c *cli.Context) (*cli.Command, error) { return nil, errors.New("unknown here") })
	case "nothing":
		c.Uses = handle(func(c *cli.Context) (*cli.Command, error) { return nil, nil })
	case "default":
		c.Uses = cli.HandleCommandNotFound(nil)
	}
	switch s.action {
	case 0:
	case 1:
		c.Action = cli.DisplayHelpScreen()
	default:
		c.Action = l.act("runs")
	}
	return c
}

// ran is everything that can be observed of one run
type ran struct {
	err, out, errOut string
	code             string
	lines            []string
	panicked         string
}

func (r ran) String() string {
	return fmt.Sprintf("error: %s\nstdout: %q\nstderr: %q\n%s%s", r.err, r.out, r.errOut, strings.Join(r.lines, "\n"), r.panicked)
}

func (s *rspec) run(use func(*cli.App, context.Context) error) (r ran) {
	var l rlog
	var out, errOut bytes.Buffer
	defer func() {
		r.out, r.errOut, r.lines = out.String(), errOut.String(), l.lines
		if p := recover(); p != nil {
			var at []string
			st := strings.Split(string(debug.Stack()), "\n")
			for i := range st {
				if strings.HasPrefix(st[i], "\t/repo/") {
					at = append(at, strings.TrimSpace(st[i]))
				}
			}
			r.panicked = fmt.Sprintf("panic: %v\n%s", p, strings.Join(at, "\n"))
		}
	}()
	root := s.build(&l)
	app := &cli.App{Name: "app", Version: "1.0", HelpText: root.HelpText, Flags: root.Flags, Args: root.Args, Commands: root.Subcommands, Options: root.Options, Action: root.Action, Uses: root.Uses,
		Stdin: strings.NewReader("in\n"), Stdout: &out, Stderr: &errOut, FS: fstest.MapFS{"f.txt": {Data: []byte("1")}, "dir/g.txt": {Data: []byte("x,y")}}}
	if err := use(app, context.Background()); err != nil {
		r.err = err.Error()
		var pe *cli.ParseError
		if errors.As(err, &pe) {
			r.code = fmt.Sprint("code ", int(pe.Code))
		}
	}
	return
}

// names are the flags of the tree, and its commands
func (s *rspec) names() (flags, cmds []string) {
	for _, o := range s.flags {
		flags = append(append(flags, o.name), o.aliases...)
	}
	for _, x := range s.subs {
		cmds = append(append(cmds, x.name), x.aliases...)
		f, c := x.names()
		flags, cmds = append(flags, f...), append(cmds, c...)
	}
	return
}

func drawToken(t *rapid.T, s *rspec) string {
	names, cmds := s.names()
	if len(names) == 0 || rapid.IntRange(0, 3).Draw(t, "anyName") == 0 {
		names = rflagNames
	}
	clusters := names
	if rapid.IntRange(0, 4).Draw(t, "special") == 0 {
		names = []string{"help", "version", "zsh-completion", "no-a", "no-long", "nope", "à", "lon"}
	}
	switch rapid.IntRange(0, 11).Draw(t, "tok") {
	case 0, 1, 2:
		n := rapid.SampledFrom(names).Draw(t, "name")
		d := "--"
		if len(n) == 1 || rapid.IntRange(0, 5).Draw(t, "dash") == 0 {
			d = "-"
		}
		return d + n
	case 3, 4:
		n := rapid.SampledFrom(names).Draw(t, "name")
		d := "--"
		if len(n) == 1 {
			d = rapid.SampledFrom([]string{"-", "--"}).Draw(t, "dash")
		}
		return d + n + rapid.SampledFrom([]string{"=", "=v", "=1", "=a=b", "=x,y", "=@f.txt", "=-", "5", "v"}).Draw(t, "val")
	case 5:
		return "-" + strings.Join(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
			if n := rapid.SampledFrom(clusters).Draw(t, "short"); len([]rune(n)) == 1 {
				return n
			}
			return rapid.SampledFrom([]string{"a", "b", "n", "Z", "à", "1", "=", "-", "h"}).Draw(t, "short")
		}), 1, 4).Draw(t, "cluster"), "")
	case 6, 7:
		if len(cmds) > 0 && rapid.IntRange(0, 3).Draw(t, "anyCmd") > 0 {
			return rapid.SampledFrom(cmds).Draw(t, "cmd")
		}
		return rapid.SampledFrom([]string{"sub", "add", "do-it", "_hidden", "x", "sub2", "help", "version", "nope"}).Draw(t, "cmd")
	case 8:
		return rapid.SampledFrom([]string{"--", "-", "", "---", "--=", "-=", "--=v", "=", " ", "\x00", "@f.txt", "@nope", "@", "{}", "%s", "<arg>", "-1", "--1"}).Draw(t, "odd")
	case 9:
		return rapid.StringN(0, 4, 12).Draw(t, "any")
	default:
		return rapid.SampledFrom([]string{"v", "val", "1", "a", "b", "f.txt", "dir", "x,y", "k=v", "10s", "bad", "1.5"}).Draw(t, "value")
	}
}

func TestP16_AnyCommandLine(t *testing.T) {
	pbt.Run(t, "an action ran, or a parse got past the first token", 3000, func(c *pbt.C) {
		s := drawSpec(c.T, "app", 2)
		tokens := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return drawToken(t, s) }), 0, 7).Draw(c.T, "tokens")
		c.Showf("%scommand line: %q", s.text(), tokens)
		line := append([]string{"app"}, tokens...)
		one := s.run(func(a *cli.App, ctx context.Context) error { return a.RunContext(ctx, line) })
		if len(one.lines) > 0 || len(tokens) > 2 {
			c.NonTrivial()
		}
		switch {
		case one.err == "":
			c.Label("ran")
		case strings.Contains(one.err, "internal error"):
			c.Label("internal error")
		case strings.Contains(one.err, "exit with status"):
			c.Label("exit")
		default:
			c.Label("error %s", one.code)
		}
		if one.panicked != "" {
			c.Failf("%s", one.panicked)
		}
		if strings.Contains(one.err, "internal error") {
			// the app is well-formed
			c.Failf("%s", one.err)
		}
		two := s.run(func(a *cli.App, ctx context.Context) error { return a.RunContext(ctx, line) })
		if one.String() != two.String() {
			c.Failf("two runs differ:\n%s\n---\n%s", one, two)
		}
	})
}

// TestP17_AnyCompletion: a request for completions never runs an action of the
// command line which is being completed, and never panics
func TestP17_AnyCompletion(t *testing.T) {
	pbt.Run(t, "there is something to complete", 2000, func(c *pbt.C) {
		s := drawSpec(c.T, "app", 2)
		tokens := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return drawToken(t, s) }), 0, 5).Draw(c.T, "tokens")
		word := rapid.SampledFrom([]string{"", "-", "--", "--l", "--long", "--long=", "--long=v", "-a", "-n", "-nv", "s", "x", "v", "h", "-à", "--no", "--help"}).Draw(c.T, "word")
		c.Showf("%scommand line: %q and %q", s.text(), tokens, word)
		var items []cli.CompletionItem
		use := func(a *cli.App, ctx context.Context) error {
			x, err := a.Initialize(ctx)
			if err != nil {
				return err
			}
			items = cli.FromContext(x).Complete(append([]string{"app"}, tokens...), word)
			return fmt.Errorf("%v", items)
		}
		one := s.run(use)
		if one.panicked != "" {
			c.Failf("%s", one.panicked)
		}
		if len(items) > 0 {
			c.NonTrivial()
			c.Label("items")
		}
		for _, l := range one.lines {
			c.Failf("an action ran: %s", l)
		}
		two := s.run(use)
		if one.String() != two.String() {
			c.Failf("two runs differ:\n%s\n---\n%s", one, two)
		}
	})
}

// TestP15_Implicit: what follows is the same to the implicit command whether it is named or not
func TestP15_Implicit(t *testing.T) {
	pbt.Run(t, "an action of the implicit command ran", 4000, func(c *pbt.C) {
		root := drawSpec(c.T, "app", 0)
		root.args, root.options, root.unknown = nil, 0, "implicit"
		exec := drawSpec(c.T, "exec", 1)
		exec.aliases = []string{"ex"}
		root.subs = []*rspec{exec}
		if rapid.Bool().Draw(c.T, "another command") {
			root.subs = append(root.subs, drawSpec(c.T, "other", 0))
		}
		root.unknownAs = rapid.SampledFrom([]string{"exec", "ex"}).Draw(c.T, "name")
		// flags of the app, which come before the command
		var before []string
		for range rapid.IntRange(0, 2).Draw(c.T, "before") {
			if len(root.flags) > 0 {
				f := rapid.SampledFrom(root.flags).Draw(c.T, "flag")
				if rtypes[f.typ].name == "bool" {
					before = append(before, strings.Repeat("-", min(2, len(f.name)))+f.name)
				} else if len(f.name) > 1 {
					before = append(before, "--"+f.name+"=1")
				}
			}
		}
		tokens := append([]string{rapid.SampledFrom([]string{"v", "1", "a", "f.txt", "k=v", "x y", "no-such"}).Draw(c.T, "first")},
			rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return drawToken(t, exec) }), 0, 6).Draw(c.T, "tokens")...)
		c.Showf("%scommand line: %q %q", root.text(), before, tokens)
		run := func(tokens []string) ran {
			r := root.run(func(a *cli.App, ctx context.Context) error {
				return a.RunContext(ctx, append(append([]string{"app"}, before...), tokens...))
			})
			var lines []string
			for _, l := range r.lines {
				if strings.Contains(l, " app exec") {
					lines = append(lines, l)
				}
			}
			r.lines = lines
			return r
		}
		one, two := run(tokens), run(append([]string{root.unknownAs}, tokens...))
		if len(one.lines) > 0 {
			c.NonTrivial()
		}
		if one.String() != two.String() {
			c.Failf("without the name:\n%s\n---\nwith the name:\n%s", one, two)
		}
	})
}
