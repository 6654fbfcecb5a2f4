package core

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// optVia is how an option is set
var optVias = []string{"field", "uses", "pipeline", "setup", "prototype", "late field", "list"}

// withOption sets the options on the flag, arg or command
func withOption(via string, opt cli.Option, options *cli.Option, uses *any, app *cli.App) {
	switch via {
	case "field":
		*options |= opt
	case "uses":
		*uses = cli.Pipeline(*uses, opt)
	case "pipeline":
		*uses = cli.Pipeline(*uses, func() {}, cli.Pipeline(opt), func() {})
	case "setup":
		*uses = cli.Pipeline(*uses, cli.Setup{Uses: opt})
	case "prototype":
		*uses = cli.Pipeline(*uses, cli.Prototype{Options: opt})
	case "late field":
		app.Uses = cli.Pipeline(app.Uses, func() { *options |= opt })
	case "list":
		// each on its own
		for b := cli.Option(1); b <= opt; b <<= 1 {
			if opt&b != 0 {
				*uses = cli.Pipeline(*uses, b)
			}
		}
	}
}

// TestP33_OptionalValue: a flag with an optional value has the documented value when
// it is omitted.
func TestP33_OptionalValue(t *testing.T) {
	smart := map[string]any{
		"bool": true, "int": 1, "int8": int8(1), "int16": int16(1), "int32": int32(1), "int64": int64(1),
		"uint": uint(1), "uint8": uint8(1), "uint16": uint16(1), "uint32": uint32(1), "uint64": uint64(1),
		"float32": float32(1), "float64": float64(1), "duration": time.Second, "ip": net.ParseIP("127.0.0.1"),
	}
	pbt.Run(t, "random flags of 22 types with Optional or OptionalValue, and occurrences with and without a value, long, short and in clusters; non-trivial: a value is omitted after or before one which is not", 8000, func(c *pbt.C) {
		type flag struct {
			oopt
			smart bool
			omit  any // the value when omitted
			via   string
			vals  []any // of the occurrences
		}
		var flags []*flag
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "nflags"); i < n; i++ {
			f := &flag{oopt: genOopt(c.T, i, false)}
			f.merge, f.split = false, true
			f.each = rapid.IntRange(0, 3).Draw(c.T, "each") == 0
			f.via = rapid.SampledFrom(optVias).Draw(c.T, "via")
			if s, ok := smart[f.kind.name]; ok && rapid.Bool().Draw(c.T, "smart") {
				f.smart, f.omit = true, s
			} else {
				text := rapid.SampledFrom(f.kind.values).Draw(c.T, "omitted")
				f.omit = f.kind.set(nil, text, true)
				if f.kind.name == "bool" {
					f.omit = true // a bool flag without a value is true
				}
			}
			flags = append(flags, f)
		}
		var tokens []string
		for i, n := 0, rapid.IntRange(0, 5).Draw(c.T, "nocc"); i < n; i++ {
			f := rapid.SampledFrom(flags).Draw(c.T, "which")
			if f.kind.accumulates() && len(f.vals) > 0 {
				continue
			}
			omit := rapid.Bool().Draw(c.T, "omit")
			if omit {
				f.vals = append(f.vals, f.omit)
				switch rapid.IntRange(0, 1).Draw(c.T, "spelling") {
				case 0:
					tokens = append(tokens, "--"+f.long())
				default:
					tokens = append(tokens, "-"+f.short())
				}
			} else {
				text := rapid.SampledFrom(f.kind.values).Draw(c.T, "value")
				f.vals = append(f.vals, f.kind.set(nil, text, true))
				if f.kind.name != "bool" && rapid.Bool().Draw(c.T, "short") {
					tokens = append(tokens, "-"+f.short()+text)
				} else {
					tokens = append(tokens, "--"+f.long()+"="+text)
				}
			}
			if len(f.vals) > 1 && vtext(f.vals[len(f.vals)-1]) != vtext(f.vals[len(f.vals)-2]) {
				c.NonTrivial()
			}
		}
		for _, f := range flags {
			c.Showf("%v smart %v omitted %s via %s want %v", f.oopt, f.smart, vtext(f.omit), f.via, f.vals)
		}
		c.Showf("tokens %q", tokens)

		app := newApp("app")
		calls := map[string][]string{}
		for _, f := range flags {
			fl := &cli.Flag{Name: f.name, Aliases: []string{f.alias}, Value: f.pointer()}
			fl.Action = func(ctx *cli.Context) { calls[f.name] = append(calls[f.name], vtext(ctx.Value(""))) }
			if f.each {
				fl.Options |= cli.EachOccurrence
			}
			if f.smart {
				withOption(f.via, cli.Optional, &fl.Options, &fl.Uses, app)
			} else if rapid.Bool().Draw(c.T, "method") {
				fl.Uses = func(ctx *cli.Context) error { return ctx.SetOptionalValue(f.omit) }
			} else {
				fl.Uses = cli.OptionalValue(f.omit)
			}
			app.Flags = append(app.Flags, fl)
		}
		final := map[string]string{}
		app.Action = func(ctx *cli.Context) {
			for _, f := range flags {
				final[f.name] = vtext(ctx.Value(f.name))
			}
		}
		if err := run(app, tokens...); err != nil {
			c.Failf("error %v", err)
		}
		for _, f := range flags {
			want := f.defaultValue()
			if len(f.vals) > 0 {
				want = f.vals[len(f.vals)-1]
			}
			if final[f.name] != vtext(want) {
				c.Failf("%s is %s, want %s", f.name, final[f.name], vtext(want))
			}
			var wantCalls []string
			for i, v := range f.vals {
				if f.each || i == len(f.vals)-1 {
					wantCalls = append(wantCalls, vtext(v))
				}
			}
			if !reflect.DeepEqual(calls[f.name], wantCalls) {
				c.Failf("the Action of %s saw %q, want %q", f.name, calls[f.name], wantCalls)
			}
		}
	})
}

// TestP33_No: --no-x makes x false, and triggers its Action.
func TestP33_No(t *testing.T) {
	pbt.Run(t, "random bool flags with No in an app and its sub-commands, with occurrences of the flag or its mirror by any name in any of the commands; non-trivial: a mirror is used", 6000, func(c *pbt.C) {
		type flag struct {
			names  []string
			level  int
			dflt   bool
			no     bool
			used   string // "", "no", "yes"
			want   bool
			count  int
			calls  []bool
			before int
			after  int
			target bool
		}
		depth := rapid.IntRange(0, 2).Draw(c.T, "depth")
		var flags []*flag
		tokens := make([][]string, depth+1)
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "nflags"); i < n; i++ {
			x := string(rune('a' + i))
			f := &flag{
				names: rapid.SampledFrom([][]string{{"opt-" + x}, {"opt-" + x, x}, {x, "opt-" + x}, {"opt-" + x, "alt-" + x, x}, {x}, {"y" + x, x}, {"opt-" + x, "y" + x, "z" + x + x}}).Draw(c.T, "names"),
				level: rapid.IntRange(0, depth).Draw(c.T, "level"),
				dflt:  rapid.Bool().Draw(c.T, "default"),
				no:    rapid.IntRange(0, 4).Draw(c.T, "hasNo") > 0,
			}
			f.want = f.dflt
			f.used = rapid.SampledFrom([]string{"", "no", "yes"}).Draw(c.T, "used")
			if !f.no && f.used == "no" {
				f.used = "yes"
			}
			if f.used != "" {
				f.count = rapid.IntRange(1, 2).Draw(c.T, "count")
				at := rapid.IntRange(f.level, depth).Draw(c.T, "at")
				for range f.count {
					nm := rapid.SampledFrom(f.names).Draw(c.T, "spelling")
					switch {
					case f.used == "no" && len(nm) == 1 && nm != f.names[0]:
						nm = f.names[0]
						fallthrough
					case f.used == "no":
						tokens[at] = append(tokens[at], "--no-"+nm)
						f.want = false
						c.NonTrivial()
					default:
						f.want = true
						if len(nm) == 1 {
							tokens[at] = append(tokens[at], "-"+nm)
						} else if rapid.Bool().Draw(c.T, "explicit") {
							f.want = rapid.Bool().Draw(c.T, "value")
							tokens[at] = append(tokens[at], fmt.Sprintf("--%s=%v", nm, f.want))
						} else {
							tokens[at] = append(tokens[at], "--"+nm)
						}
					}
				}
			}
			flags = append(flags, f)
		}
		via := rapid.SampledFrom(optVias).Draw(c.T, "via")
		for _, f := range flags {
			c.Showf("%v level %d default %v no %v used %s*%d want %v", f.names, f.level, f.dflt, f.no, f.used, f.count, f.want)
		}
		app := newApp("app")
		cmds := []*cli.Command{{}}
		var args []string
		for i := 0; i <= depth; i++ {
			if i > 0 {
				cmds = append(cmds, &cli.Command{Name: fmt.Sprintf("sub%d", i)})
				cmds[i-1].Subcommands = []*cli.Command{cmds[i]}
				args = append(args, cmds[i].Name)
			}
			args = append(args, tokens[i]...)
		}
		c.Showf("via %s: %q", via, args)
		for _, f := range flags {
			fl := &cli.Flag{Name: f.names[0], Aliases: f.names[1:], Value: &f.target}
			f.target = f.dflt
			fl.Before = func() { f.before++ }
			fl.After = func() { f.after++ }
			fl.Action = func(ctx *cli.Context) {
				if ctx.Bool("") != f.target {
					c.Failf("in the Action of %v: Bool %v, variable %v", f.names, ctx.Bool(""), f.target)
				}
				if nm := strings.TrimLeft(ctx.Name(), "-"); nm != f.names[0] {
					c.Failf("in the Action of %v: the name is %q", f.names, nm)
				}
				f.calls = append(f.calls, ctx.Bool(""))
			}
			if f.no {
				withOption(via, cli.No, &fl.Options, &fl.Uses, app)
			}
			cmds[f.level].Flags = append(cmds[f.level].Flags, fl)
		}
		ran := 0
		check := func(ctx *cli.Context) {
			ran++
			for _, f := range flags {
				for _, nm := range f.names {
					if got := ctx.Bool(nm); got != f.want {
						c.Failf("%s is %v, want %v", nm, got, f.want)
					}
				}
				if f.no {
					fl, ok := ctx.LookupFlag("no-" + f.names[0])
					if !ok || fl.Name != "no-"+f.names[0] {
						c.Failf("no mirror of %s", f.names[0])
					}
				}
			}
		}
		cmds[depth].Action = check
		app.Flags, app.Commands = cmds[0].Flags, cmds[0].Subcommands
		if depth == 0 {
			app.Action = check
		}
		if err := run(app, args...); err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
		for _, f := range flags {
			n := min(1, f.count)
			if len(f.calls) != n || n > 0 && f.calls[0] != f.want {
				c.Failf("the Action of %s saw %v, want %d with %v", f.names[0], f.calls, n, f.want)
			}
			if f.before != 1 || f.after != 1 {
				c.Failf("Before of %s ran %d times, After %d", f.names[0], f.before, f.after)
			}
			if f.target != f.want {
				c.Failf("the variable of %s is %v, want %v", f.names[0], f.target, f.want)
			}
		}
	})
}

// TestP33_NonPersistent: a persistent flag is known in all sub-commands, another only
// in its own.
func TestP33_NonPersistent(t *testing.T) {
	pbt.Run(t, "random flags, some non-persistent, in an app and its sub-commands, used in one of the commands; non-trivial: a flag of an outer command is used in an inner one", 5000, func(c *pbt.C) {
		depth := rapid.IntRange(0, 3).Draw(c.T, "depth")
		level := rapid.IntRange(0, depth).Draw(c.T, "level")
		at := rapid.IntRange(0, depth).Draw(c.T, "at")
		non := rapid.Bool().Draw(c.T, "nonPersistent")
		via := rapid.SampledFrom(optVias).Draw(c.T, "via")
		spelling := rapid.SampledFrom([]string{"--flag=v", "-fv", "-f v", "--flag v", "--alias=v"}).Draw(c.T, "spelling")
		// another flag of the same name in a deeper command
		inner := -1
		if rapid.IntRange(0, 2).Draw(c.T, "hasInner") == 0 && level < depth {
			inner = rapid.IntRange(level+1, depth).Draw(c.T, "inner")
		}
		c.Showf("depth %d, flag at %d nonPersistent %v via %s, inner flag at %d, used at %d as %s", depth, level, non, via, inner, at, spelling)
		if at > level {
			c.NonTrivial()
		}
		app := newApp("app")
		cmds := []*cli.Command{{}}
		var args []string
		for i := 0; i <= depth; i++ {
			if i > 0 {
				cmds = append(cmds, &cli.Command{Name: fmt.Sprintf("sub%d", i)})
				cmds[i-1].Subcommands = []*cli.Command{cmds[i]}
				args = append(args, cmds[i].Name)
			}
			if i == at {
				args = append(args, strings.Fields(spelling)...)
			}
		}
		var outerGot, innerGot string
		fl := &cli.Flag{Name: "flag", Aliases: []string{"f", "alias"}, Value: &outerGot}
		if non {
			withOption(via, cli.NonPersistent, &fl.Options, &fl.Uses, app)
		}
		cmds[level].Flags = []*cli.Flag{fl}
		if inner >= 0 {
			cmds[inner].Flags = []*cli.Flag{{Name: "flag", Aliases: []string{"f", "alias"}, Value: &innerGot}}
		}
		ran := false
		cmds[depth].Action = func() { ran = true }
		app.Flags, app.Commands = cmds[0].Flags, cmds[0].Subcommands
		if depth == 0 {
			app.Action = func() { ran = true }
		}
		err := run(app, args...)
		wantOuter, wantInner, wantErr := "", "", false
		switch {
		case inner >= 0 && at >= inner:
			wantInner = "v"
		case at == level || at > level && !non:
			wantOuter = "v"
		default:
			wantErr = true
		}
		var pe *cli.ParseError
		if wantErr {
			if ran || !errors.As(err, &pe) || pe.Code != cli.UnknownOption {
				c.Failf("error %v, ran %v; want an unknown option", err, ran)
			}
			return
		}
		if err != nil || !ran || outerGot != wantOuter || innerGot != wantInner {
			c.Failf("error %v, ran %v, outer %q, inner %q; want %q, %q", err, ran, outerGot, innerGot, wantOuter, wantInner)
		}
	})
}

// TestP33_Exits: Exits ends the run with success after the Action of its flag or arg.
func TestP33_Exits(t *testing.T) {
	pbt.Run(t, "random flags and args with Actions, some failing, and some with Exits; non-trivial: one with Exits is given", 4000, func(c *pbt.C) {
		type opt struct {
			name  string
			isArg bool
			exits bool
			given bool
			fails bool
		}
		var opts []*opt
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "nflags"); i < n; i++ {
			opts = append(opts, &opt{name: fmt.Sprintf("opt%c", 'a'+i)})
		}
		if rapid.Bool().Draw(c.T, "hasArg") {
			opts = append(opts, &opt{name: "arg", isArg: true})
		}
		var args []string
		for _, o := range opts {
			o.exits = rapid.IntRange(0, 2).Draw(c.T, "exits") == 0
			o.given = rapid.Bool().Draw(c.T, "given")
			o.fails = rapid.IntRange(0, 5).Draw(c.T, "fails") == 5
			if o.given {
				if o.exits {
					c.NonTrivial()
				}
				if o.isArg {
					args = append(args, "v")
				} else {
					args = append(args, "--"+o.name+"=v")
				}
			}
		}
		via := rapid.SampledFrom(optVias).Draw(c.T, "via")
		for _, o := range opts {
			c.Showf("%+v", *o)
		}
		c.Showf("via %s: %q", via, args)
		app := newApp("app")
		var got []string
		failure := errors.New("failure")
		for _, o := range opts {
			act := func() error {
				got = append(got, o.name)
				if o.fails {
					return failure
				}
				return nil
			}
			var e cli.Option
			if o.exits {
				e = cli.Exits
			}
			if o.isArg {
				a := &cli.Arg{Name: o.name, Action: act, NArg: 0, Value: cli.String()}
				withOption(via, e, &a.Options, &a.Uses, app)
				app.Args = append(app.Args, a)
			} else {
				f := &cli.Flag{Name: o.name, Action: act, Value: cli.String()}
				withOption(via, e, &f.Options, &f.Uses, app)
				app.Flags = append(app.Flags, f)
			}
		}
		app.Action = func() { got = append(got, "app") }
		err := run(app, args...)
		var want []string
		wantErr := "none"
		for _, o := range opts {
			if !o.given {
				continue
			}
			want = append(want, o.name)
			if o.fails {
				wantErr = "failure"
				break
			}
			if o.exits {
				wantErr = "exit"
				break
			}
		}
		if wantErr == "none" {
			want = append(want, "app")
		}
		c.Label("%s", wantErr)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("ran %v, want %v", got, want)
		}
		var ec cli.ExitCoder
		switch wantErr {
		case "none":
			if err != nil {
				c.Failf("error %v", err)
			}
		case "failure":
			if !errors.Is(err, failure) {
				c.Failf("error %v, want %v", err, failure)
			}
		case "exit":
			if !errors.As(err, &ec) || ec.ExitCode() != 0 {
				c.Failf("error %v, want to exit with success", err)
			}
		}
	})
}

// TestP33_MustExist: a named path must exist before any Action.
func TestP33_MustExist(t *testing.T) {
	pbt.Run(t, "random paths for a string, File or FileSet flag or arg with MustExist, with several occurrences; non-trivial: one is missing", 5000, func(c *pbt.C) {
		files := fstest.MapFS{"a": {}, "d/b": {}, "d/e/c": {}, "é,x": {}}
		paths := []string{"a", "d", "d/b", "d/e", "d/e/c", "é,x", ".", "none", "d/none", "a/b", "A", "d/e/c/", "é"}
		kind := rapid.SampledFrom([]string{"string", "file", "fileset"}).Draw(c.T, "kind")
		isArg := rapid.Bool().Draw(c.T, "isArg")
		via := rapid.SampledFrom(optVias).Draw(c.T, "via")
		must := rapid.IntRange(0, 4).Draw(c.T, "must") > 0
		n := rapid.IntRange(0, 1).Draw(c.T, "n")
		if kind == "fileset" {
			n = rapid.IntRange(0, 3).Draw(c.T, "n2")
		}
		var given []string
		missing := false
		for range n {
			p := rapid.SampledFrom(paths).Draw(c.T, "path")
			if kind == "fileset" && strings.Contains(p, ",") {
				p = "a"
			}
			given = append(given, p)
			if _, err := fs.Stat(files, p); err != nil {
				missing = true
			}
		}
		if must && missing {
			c.NonTrivial()
		}
		c.Showf("%s arg=%v must exist %v via %s: %q", kind, isArg, must, via, given)
		var v any
		switch kind {
		case "string":
			v = cli.String()
		case "file":
			v = new(cli.File)
		default:
			v = new(cli.FileSet)
		}
		app := newApp("app")
		app.FS = files
		var opt cli.Option
		if must {
			opt = cli.MustExist
		}
		called, ran := 0, 0
		act := func() { called++ }
		var args []string
		if isArg {
			a := &cli.Arg{Name: "p", Value: v, Action: act}
			if kind != "fileset" {
				a.NArg = 0
			} else {
				a.NArg = cli.TakeUntilNextFlag
			}
			withOption(via, opt, &a.Options, &a.Uses, app)
			app.Args = []*cli.Arg{a}
			args = given
		} else {
			f := &cli.Flag{Name: "p", Value: v, Action: act}
			withOption(via, opt, &f.Options, &f.Uses, app)
			app.Flags = []*cli.Flag{f}
			for _, g := range given {
				args = append(args, "--p="+g)
			}
		}
		app.Action = func() { ran++ }
		err := run(app, args...)
		if must && missing {
			if err == nil || called+ran > 0 {
				c.Failf("error %v, the Action ran %d times, that of the app %d", err, called, ran)
			}
			if !errors.Is(err, fs.ErrNotExist) && !strings.Contains(err.Error(), "no such file") && !errors.Is(err, fs.ErrInvalid) {
				c.Failf("error %v does not say that the file is missing", err)
			}
			return
		}
		if err != nil || called != min(1, n) || ran != 1 {
			c.Failf("error %v, the Action ran %d times, that of the app %d", err, called, ran)
		}
	})
}

// TestP33_WorkingDirectory: the process is in the named directory when actions run.
func TestP33_WorkingDirectory(t *testing.T) {
	root := pbt.Unprivileged(t)
	root, err := filepath.EvalSymlinks(root)
	if err != nil {
		t.Fatal(err)
	}
	for _, d := range []string{"a/b/c", "d", "a/é"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.WriteFile(filepath.Join(root, "file"), nil, 0o644); err != nil {
		t.Fatal(err)
	}
	pbt.Run(t, "random directories, relative, absolute, missing or files, for a string or File flag or arg with WorkingDirectory in an app or a sub-command; non-trivial: the directory changes or cannot", 2000, func(c *pbt.C) {
		if err := os.Chdir(root); err != nil {
			t.Fatal(err)
		}
		defer os.Chdir(root)
		start := rapid.SampledFrom([]string{".", "a", "a/b"}).Draw(c.T, "start")
		dirs := []string{"a", "b", "a/b", "a/b/c", "d", "../d", "..", ".", "none", "file", "a/é", "./a/../d", "é", "/a/b", "/none", "/d"}
		dir := rapid.SampledFrom(dirs).Draw(c.T, "dir")
		if dir[0] == '/' {
			dir = root + dir
		}
		isArg := rapid.Bool().Draw(c.T, "isArg")
		given := rapid.IntRange(0, 4).Draw(c.T, "given") > 0
		file := rapid.Bool().Draw(c.T, "file")
		via := rapid.SampledFrom(optVias).Draw(c.T, "via")
		inSub := rapid.Bool().Draw(c.T, "inSub")
		if strings.Contains(dir, "..") && start == "." {
			dir = "a" // stay below
		}
		c.Showf("from %s to %s given %v arg=%v File %v via %s in sub %v", start, strings.ReplaceAll(dir, root, "ROOT"), given, isArg, file, via, inSub)
		if err := os.Chdir(start); err != nil {
			t.Fatal(err)
		}
		before, _ := os.Getwd()
		want := before
		fails := false
		if given {
			c.NonTrivial()
			w := dir
			if !filepath.IsAbs(w) {
				w = filepath.Join(before, w)
			}
			if st, err := os.Stat(w); err != nil || !st.IsDir() {
				fails = true
			} else {
				want = w
			}
		}
		var v any = cli.String()
		if file {
			v = new(cli.File)
		}
		app := newApp("app")
		var got []string
		act := func() {
			wd, err := os.Getwd()
			got = append(got, wd)
			if err != nil {
				c.Failf("Getwd: %v", err)
			}
		}
		cmd := &cli.Command{Name: "sub", Action: act}
		var args []string
		if isArg {
			a := &cli.Arg{Name: "dir", Value: v, Action: act, NArg: 0}
			withOption(via, cli.WorkingDirectory, &a.Options, &a.Uses, app)
			cmd.Args = []*cli.Arg{a}
			args = []string{dir}
		} else {
			f := &cli.Flag{Name: "dir", Value: v, Action: act}
			withOption(via, cli.WorkingDirectory, &f.Options, &f.Uses, app)
			cmd.Flags = []*cli.Flag{f}
			args = []string{"--dir=" + dir}
		}
		if !given {
			args = nil
		}
		if inSub {
			app.Commands = []*cli.Command{cmd}
			args = append([]string{"sub"}, args...)
		} else {
			app.Flags, app.Args, app.Action = cmd.Flags, cmd.Args, cmd.Action
		}
		err := app.RunContext(context.Background(), append([]string{"app"}, args...))
		after, _ := os.Getwd()
		if fails {
			if err == nil || len(got) > 0 || after != before {
				c.Failf("error %v, actions %v; the directory was %s and is %s", err, got, before, after)
			}
			return
		}
		n := 1
		if given {
			n = 2
		}
		if err != nil || len(got) != n {
			c.Failf("error %v, actions %v", err, got)
		}
		for _, g := range got {
			if g != want {
				c.Failf("an action runs in %s, want %s", g, want)
			}
		}
	})
}
