package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// tnode is a part of a template
type tnode struct {
	kind string // text, field, app, command, version, template, execute, func, join, repeat, before, after, trim, range, if
	s    string
	n    int
	body []tnode
}

type tdata struct {
	X     string
	Items []string
	On    bool
}

var tnames = []string{"t0", "t1", "t2", "t3"}
var tfuncs = []string{"F0", "F1"}

func genBody(t *rapid.T, from int, depth int, appData bool) []tnode {
	var res []tnode
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nparts"); i < n; i++ {
		kinds := []string{"text", "text", "func", "repeat", "before", "after", "trim"}
		if from < len(tnames) {
			kinds = append(kinds, "template", "execute", "template", "execute")
		}
		if appData {
			kinds = append(kinds, "app", "command", "version")
		} else {
			kinds = append(kinds, "field", "join", "field")
			if depth > 0 {
				kinds = append(kinds, "if")
			}
		}
		nd := tnode{kind: rapid.SampledFrom(kinds).Draw(t, "part")}
		switch nd.kind {
		case "text", "before", "after", "trim", "repeat":
			nd.s = rapid.SampledFrom([]string{"a", " b ", "", "c-d", "é"}).Draw(t, "text")
			nd.n = rapid.IntRange(0, 3).Draw(t, "times")
		case "func":
			nd.s = rapid.SampledFrom(tfuncs).Draw(t, "func")
			nd.n = rapid.IntRange(0, 3).Draw(t, "arg")
		case "template", "execute":
			nd.s = rapid.SampledFrom(tnames[from:]).Draw(t, "ref")
		case "if":
			nd.body = genBody(t, from, depth-1, appData)
		}
		res = append(res, nd)
	}
	return res
}

func source(body []tnode) string {
	var sb strings.Builder
	for _, nd := range body {
		switch nd.kind {
		case "text":
			sb.WriteString("<" + nd.s + ">")
		case "field":
			sb.WriteString("{{.X}}")
		case "app":
			sb.WriteString("{{.App.Name}}")
		case "version":
			sb.WriteString("{{.App.Version}}")
		case "command":
			sb.WriteString("{{.Command.Name}}")
		case "template":
			fmt.Fprintf(&sb, "{{template %q .}}", nd.s)
		case "execute":
			fmt.Fprintf(&sb, "{{Execute %q .}}", nd.s)
		case "func":
			fmt.Fprintf(&sb, "{{%s %d}}", nd.s, nd.n)
		case "join":
			sb.WriteString(`{{.Items | Join "/"}}`)
		case "repeat":
			fmt.Fprintf(&sb, "{{%q | Repeat %d}}", nd.s, nd.n)
		case "before":
			fmt.Fprintf(&sb, "{{SpaceBefore %q}}", nd.s)
		case "after":
			fmt.Fprintf(&sb, "{{SpaceAfter %q}}", nd.s)
		case "trim":
			fmt.Fprintf(&sb, "{{Trim %q}}", nd.s)
		case "if":
			sb.WriteString("{{if .On}}" + source(nd.body) + "{{end}}")
		}
	}
	return sb.String()
}

// tmodel is what is registered
type tmodel struct {
	bodies map[string][]tnode
	funcs  map[string]string
}

var errModel = errors.New("a template which does not exist")

func (m *tmodel) render(sb *strings.Builder, body []tnode, data *tdata, command string) error {
	for _, nd := range body {
		switch nd.kind {
		case "text":
			sb.WriteString("<" + nd.s + ">")
		case "field":
			sb.WriteString(data.X)
		case "app":
			sb.WriteString("the-app")
		case "version":
			sb.WriteString("1.2.3")
		case "command":
			sb.WriteString(command)
		case "template", "execute":
			b, ok := m.bodies[nd.s]
			if !ok {
				return errModel
			}
			if err := m.render(sb, b, data, command); err != nil {
				return err
			}
		case "func":
			fmt.Fprintf(sb, "%s(%d)", m.funcs[nd.s], nd.n)
		case "join":
			for i, s := range data.Items {
				if i > 0 {
					sb.WriteByte('/')
				}
				sb.WriteString(s)
			}
		case "repeat":
			for range nd.n {
				sb.WriteString(nd.s)
			}
		case "before":
			if nd.s != "" {
				sb.WriteString(" " + nd.s)
			}
		case "after":
			if nd.s != "" {
				sb.WriteString(nd.s + " ")
			}
		case "trim":
			sb.WriteString(strings.Trim(nd.s, " "))
		case "if":
			if data.On {
				if err := m.render(sb, nd.body, data, command); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// TestP36_Templates: what is executed is what was registered last, with the functions
// which were registered last.
func TestP36_Templates(t *testing.T) {
	pbt.Run(t, "random histories of registering templates, nested ones and functions and executing them, in the hooks of an app, its flag and a sub-command; non-trivial: a template or function is replaced which was used before", 5000, func(c *pbt.C) {
		type op struct {
			kind  string // register, define, func, execute, template, bind, bindfunc, missing
			name  string
			body  []tnode
			nest  map[string][]tnode
			as    string
			data  *tdata
			how   string
			where int
		}
		hooks := []string{"uses", "before", "flag before", "flag", "sub before", "sub"}
		appData := rapid.Bool().Draw(c.T, "app data")
		model := &tmodel{bodies: map[string][]tnode{}, funcs: map[string]string{"F0": "f", "F1": "g"}}
		var ops []*op
		where := 0
		for i, n := 0, rapid.IntRange(4, 14).Draw(c.T, "nops"); i < n; i++ {
			o := &op{kind: rapid.SampledFrom([]string{"register", "register", "register", "define", "func", "execute", "execute", "template", "bind", "bindfunc"}).Draw(c.T, "op")}
			if rapid.IntRange(0, 2).Draw(c.T, "move on") == 0 && where < len(hooks)-1 {
				where += rapid.IntRange(1, len(hooks)-1-where).Draw(c.T, "hook")
			}
			o.where = where
			o.how = rapid.SampledFrom([]string{"action", "method"}).Draw(c.T, "how")
			ni := rapid.IntRange(0, len(tnames)-1).Draw(c.T, "name")
			o.name = tnames[ni]
			switch o.kind {
			case "register", "define":
				if o.kind == "register" {
					o.body = genBody(c.T, ni+1, 1, appData)
				} else {
					o.name = ""
				}
				o.nest = map[string][]tnode{}
				m := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "nnested")
				if o.kind == "define" {
					m = max(m, 1)
				}
				for range m {
					nj := rapid.IntRange(0, len(tnames)-1).Draw(c.T, "nested")
					if tnames[nj] != o.name {
						o.nest[tnames[nj]] = genBody(c.T, nj+1, 1, appData)
					}
				}
			case "func":
				o.name = rapid.SampledFrom(tfuncs).Draw(c.T, "func name")
				o.as = fmt.Sprintf("f%d", i)
			default:
				o.data = &tdata{X: rapid.SampledFrom([]string{"x", "", "yy"}).Draw(c.T, "X"), On: rapid.Bool().Draw(c.T, "On")}
				for j, m := 0, rapid.IntRange(0, 3).Draw(c.T, "nitems"); j < m; j++ {
					o.data.Items = append(o.data.Items, fmt.Sprint("i", j))
				}
			}
			ops = append(ops, o)
		}
		for _, o := range ops {
			c.Showf("%s: %s %q (%s) %q nested %d as %q data %+v", hooks[o.where], o.kind, o.name, o.how, source(o.body), len(o.nest), o.as, o.data)
			for k, v := range o.nest {
				c.Showf("     %s = %q", k, source(v))
			}
		}

		// expected
		var want strings.Builder
		wantFail := false
		used := map[string]bool{}
		var mark func(body []tnode)
		mark = func(body []tnode) {
			for _, nd := range body {
				switch nd.kind {
				case "template", "execute":
					used[nd.s] = true
					mark(model.bodies[nd.s])
				case "func":
					used[nd.s] = true
				case "if":
					mark(nd.body)
				}
			}
		}
		for _, o := range ops {
			command := "the-app"
			if hooks[o.where] == "sub before" || hooks[o.where] == "sub" {
				command = "sub"
			}
			switch o.kind {
			case "register", "define":
				if o.kind == "register" {
					model.bodies[o.name] = o.body
					if used[o.name] {
						c.NonTrivial()
					}
				}
				for k, v := range o.nest {
					model.bodies[k] = v
					if used[k] {
						c.NonTrivial()
					}
				}
			case "func":
				model.funcs[o.name] = o.as
				if used[o.name] {
					c.NonTrivial()
				}
			default:
				b, ok := model.bodies[o.name]
				if !ok && o.kind != "execute" {
					continue // Template returns nil
				}
				used[o.name] = true
				mark(b)
				var sb strings.Builder
				err := errModel
				if ok {
					err = model.render(&sb, b, o.data, command)
				}
				if err != nil {
					if o.kind == "bind" || o.kind == "bindfunc" {
						want.WriteString("[error]")
						continue
					}
					want.WriteString("[fails]")
					wantFail = true
				} else {
					want.WriteString("[" + sb.String() + "]")
				}
			}
			if wantFail {
				break
			}
		}

		var stderr, stdout bytes.Buffer
		app := newApp("the-app")
		app.Version = "1.2.3"
		app.Stdout, app.Stderr = &stdout, &stderr
		var out strings.Builder
		var problems []string
		byHook := map[string][]any{}
		for _, o := range ops {
			var a any
			switch o.kind {
			case "register", "define":
				src := source(o.body)
				for k, v := range o.nest {
					def := fmt.Sprintf("{{define %q}}%s{{end}}", k, source(v))
					if o.kind == "define" {
						src += "\n" + def + "\n"
					} else {
						src = def + src
					}
				}
				if o.how == "action" {
					a = cli.RegisterTemplate(o.name, src)
				} else {
					a = func(cc *cli.Context) error { return cc.RegisterTemplate(o.name, src) }
				}
			case "func":
				fn := func(i int) string { return fmt.Sprintf("%s(%d)", o.as, i) }
				if o.how == "action" {
					a = cli.RegisterTemplateFunc(o.name, fn)
				} else {
					a = func(cc *cli.Context) error { return cc.RegisterTemplateFunc(o.name, fn) }
				}
			case "execute":
				var data func(*cli.Context) any
				if !appData {
					data = func(*cli.Context) any { return o.data }
				}
				run := cli.ExecuteTemplate(o.name, data)
				if o.how == "method" {
					run = cli.ActionOf(func(cc *cli.Context) error { return cc.ExecuteTemplate(o.name, data) })
				}
				a = func(cc *cli.Context) error {
					stdout.Reset()
					err := cc.Do(run)
					if err != nil {
						out.WriteString("[fails]")
					} else {
						out.WriteString("[" + stdout.String() + "]")
					}
					return err
				}
			default:
				a = func(cc *cli.Context) error {
					tpl := cc.Template(o.name)
					if tpl == nil {
						if o.kind != "template" {
							return nil
						}
						return nil
					}
					var data any = o.data
					if appData {
						data = map[string]any{"App": cc.App(), "Command": cc.Command()}
					}
					switch o.kind {
					case "template":
						var sb strings.Builder
						if err := tpl.Execute(&sb, data); err != nil {
							out.WriteString("[fails]")
							return err
						}
						out.WriteString("[" + sb.String() + "]")
					default:
						calls := 0
						str := tpl.Bind(data)
						if o.kind == "bindfunc" {
							str = tpl.BindFunc(func() any { calls++; return data })
							if calls != 0 {
								problems = append(problems, "the data is made too early")
							}
						}
						// a template with an error gives the text of the error
						var sb strings.Builder
						s := str.String()
						if err := tpl.Execute(&sb, data); err != nil {
							if s != err.Error() {
								problems = append(problems, fmt.Sprintf("%q is not the error %q", s, err))
							}
							out.WriteString("[error]")
							return nil
						}
						out.WriteString("[" + s + "]")
					}
					return nil
				}
			}
			h := hooks[o.where]
			byHook[h] = append(byHook[h], a)
		}
		app.Uses = cli.Pipeline(append([]any{
			cli.RegisterTemplateFunc("F0", func(i int) string { return fmt.Sprintf("f(%d)", i) }),
			cli.RegisterTemplateFunc("F1", func(i int) string { return fmt.Sprintf("g(%d)", i) }),
		}, byHook["uses"]...)...)
		app.Before = cli.Pipeline(byHook["before"]...)
		app.Flags = []*cli.Flag{{Name: "f", Value: new(bool), Before: cli.Pipeline(byHook["flag before"]...), Action: cli.Pipeline(byHook["flag"]...)}}
		app.Commands = []*cli.Command{{Name: "sub", Before: cli.Pipeline(byHook["sub before"]...), Action: cli.Pipeline(byHook["sub"]...)}}
		err := run(app, "-f", "sub")
		if wantFail != (err != nil) {
			c.Failf("error %v, want one: %v", err, wantFail)
		}
		if out.String() != want.String() {
			c.Failf("output\n%s, want\n%s", out.String(), want.String())
		}
		if len(problems) > 0 {
			c.Failf("%s", strings.Join(problems, "\n"))
		}
	})
}

type fdReader struct {
	io.Reader
	fd uintptr
}

func (f fdReader) Fd() uintptr { return f.fd }

// TestP36_Print: the Print actions write what fmt does, to the standard output or the
// file.
func TestP36_Print(t *testing.T) {
	pbt.Run(t, "random sequences of Print, Println, Printf, Fprint, Fprintln and Fprintf as actions and methods, to the standard output, a writer or none, and of prompts, in the hooks of an app and a sub-command; non-trivial: both outputs are written", 4000, func(c *pbt.C) {
		var stdout, stderr, other bytes.Buffer
		var wantOut, wantErr, wantOther bytes.Buffer
		hooks := make([][]any, 5)
		stdin := "line one\nrest"
		isTTY := rapid.Bool().Draw(c.T, "stdin is fd 0")
		prompted := false
		var problems []string
		for h := range hooks {
			for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "n"); i < n; i++ {
				var operands []any
				for j, m := 0, rapid.IntRange(0, 3).Draw(c.T, "noperands"); j < m; j++ {
					operands = append(operands, rapid.SampledFrom([]any{"a", "b c", 1, 2.5, nil, []string{"x"}, errors.New("e"), true, "%d"}).Draw(c.T, "operand"))
				}
				format := rapid.SampledFrom([]string{"%v", "a%%b", "%s %d\n", "", "%[2]v %[1]v"}).Draw(c.T, "format")
				kind := rapid.SampledFrom([]string{"Print", "Println", "Printf", "Fprint", "Fprintln", "Fprintf", "ReadString", "ReadPasswordString"}).Draw(c.T, "kind")
				method := rapid.Bool().Draw(c.T, "method")
				var w io.Writer
				var want *bytes.Buffer
				switch rapid.IntRange(0, 2).Draw(c.T, "writer") {
				case 0: // none
					want = &wantErr
				case 1:
					w, want = &other, &wantOther
				default:
					w, want = &stdout, &wantOut
				}
				c.Showf("hook %d %s %q %v method %v writer %T", h, kind, format, operands, method, w)
				var a any
				m := func(f func(*cli.Context) (int, error), buf *bytes.Buffer, text string) func(*cli.Context) error {
					return func(cc *cli.Context) error {
						n, err := f(cc)
						if n != len(text) {
							problems = append(problems, fmt.Sprintf("%s returns %d for %q", kind, n, text))
						}
						return err
					}
				}
				switch kind {
				case "Print":
					text := fmt.Sprint(operands...)
					wantOut.WriteString(text)
					a = cli.Print(operands...)
					if method {
						a = m(func(cc *cli.Context) (int, error) { return cc.Print(operands...) }, &wantOut, text)
					}
				case "Println":
					text := fmt.Sprintln(operands...)
					wantOut.WriteString(text)
					a = cli.Println(operands...)
					if method {
						a = m(func(cc *cli.Context) (int, error) { return cc.Println(operands...) }, &wantOut, text)
					}
				case "Printf":
					text := fmt.Sprintf(format, operands...)
					wantOut.WriteString(text)
					a = cli.Printf(format, operands...)
					if method {
						a = m(func(cc *cli.Context) (int, error) { return cc.Printf(format, operands...) }, &wantOut, text)
					}
				case "Fprint":
					text := fmt.Sprint(operands...)
					want.WriteString(text)
					a = cli.Fprint(w, operands...)
					if method {
						a = m(func(cc *cli.Context) (int, error) { return cc.Fprint(w, operands...) }, want, text)
					}
				case "Fprintln":
					text := fmt.Sprintln(operands...)
					want.WriteString(text)
					a = cli.Fprintln(w, operands...)
					if method {
						a = m(func(cc *cli.Context) (int, error) { return cc.Fprintln(w, operands...) }, want, text)
					}
				case "Fprintf":
					text := fmt.Sprintf(format, operands...)
					want.WriteString(text)
					a = cli.Fprintf(w, format, operands...)
					if method {
						a = m(func(cc *cli.Context) (int, error) { return cc.Fprintf(w, format, operands...) }, want, text)
					}
				case "ReadString", "ReadPasswordString":
					if kind == "ReadPasswordString" && isTTY || prompted {
						continue // which is for a real terminal
					}
					prompted = true
					wantErr.WriteString(format + "? ")
					a = func(cc *cli.Context) error {
						var s string
						var err error
						if kind == "ReadString" {
							s, err = cc.ReadString(format + "? ")
						} else {
							s, err = cc.ReadPasswordString(format + "? ")
						}
						if isTTY && (err != nil || s != "line one") || !isTTY && (err == nil || s != "") {
							problems = append(problems, fmt.Sprintf("%s from a terminal %v: %q, %v", kind, isTTY, s, err))
						}
						return nil
					}
				}
				hooks[h] = append(hooks[h], a)
			}
		}
		app := newApp("app")
		app.Stdout, app.Stderr = &stdout, &stderr
		app.Stdin = strings.NewReader(stdin)
		if isTTY {
			app.Stdin = fdReader{strings.NewReader(stdin), 0}
		} else if rapid.Bool().Draw(c.T, "other fd") {
			app.Stdin = fdReader{strings.NewReader(stdin), 77}
		}
		app.Uses = cli.Pipeline(hooks[0]...)
		app.Before = cli.Pipeline(hooks[1]...)
		app.Commands = []*cli.Command{{Name: "sub", Before: cli.Pipeline(hooks[2]...), Action: cli.Pipeline(hooks[3]...), After: cli.Pipeline(hooks[4]...)}}
		if err := run(app, "sub"); err != nil {
			c.Failf("error %v", err)
		}
		if wantOut.Len() > 0 && wantErr.Len() > 0 {
			c.NonTrivial()
		}
		if len(problems) > 0 {
			c.Failf("%s", strings.Join(problems, "\n"))
		}
		if stdout.String() != wantOut.String() {
			c.Failf("standard output %q, want %q", stdout.String(), wantOut.String())
		}
		if stderr.String() != wantErr.String() {
			c.Failf("standard error %q, want %q", stderr.String(), wantErr.String())
		}
		if other.String() != wantOther.String() {
			c.Failf("the writer has %q, want %q", other.String(), wantOther.String())
		}
	})
}

// TestP36_Version: version and license are printed, and nothing else happens.
func TestP36_Version(t *testing.T) {
	words := []string{"Copyright", "(c)", "2026", "the", "authors", "of", "this", "program", "all-rights-reserved"}
	pbt.Run(t, "random apps with a version and a license, which are printed by the built-in flag and command or by PrintVersion and PrintLicense in a flag or command of any name and level, with or without another template; non-trivial: it has another template or name", 3000, func(c *pbt.C) {
		name := rapid.SampledFrom([]string{"app", "my-app", "x"}).Draw(c.T, "name")
		version := rapid.SampledFrom([]string{"", "1.0", "v2-é", "3 {{.}}"}).Draw(c.T, "version")
		license := ""
		for i, n := 0, rapid.IntRange(0, 30).Draw(c.T, "nwords"); i < n; i++ {
			license += rapid.SampledFrom(words).Draw(c.T, "word") + " "
		}
		license = strings.TrimSpace(license)
		which := rapid.SampledFrom([]string{"version", "license"}).Draw(c.T, "which")
		kind := rapid.SampledFrom([]string{"built-in flag", "built-in command", "flag", "command", "sub flag", "action"}).Draw(c.T, "kind")
		if which == "license" && strings.HasPrefix(kind, "built-in") {
			kind = "flag"
		}
		own := rapid.SampledFrom([]string{"", "about"}).Draw(c.T, "own name")
		if which == "version" && (kind == "flag" || kind == "command") {
			own = "about" // the other name is taken by the built-in one
		}
		tpl := rapid.Bool().Draw(c.T, "own template")
		width := rapid.SampledFrom([]int{80, 80, 40, 20, 79}).Draw(c.T, "columns")
		os.Setenv("COLUMNS", fmt.Sprint(width))
		defer os.Unsetenv("COLUMNS")
		c.Showf("%s %q %q %s %s %q template %v", name, version, license, which, kind, own, tpl)

		var stdout, stderr bytes.Buffer
		ran := false
		note := func() { ran = true }
		app := newApp(name)
		app.Version, app.License = version, license
		app.Stdout, app.Stderr = &stdout, &stderr
		app.Action = note
		app.Commands = []*cli.Command{{Name: "sub", Action: note}}
		app.Flags = []*cli.Flag{{Name: "zzz", Value: new(bool)}}
		templateName := "Version"
		printer := cli.PrintVersion
		if which == "license" {
			templateName, printer = "License", cli.PrintLicense
		}
		command := name
		called := which
		if own != "" {
			called = own
		}
		var line []string
		// the name is that of the action where it has none
		switch kind {
		case "built-in flag":
			line = []string{"--version"}
		case "built-in command":
			line, command = []string{"version"}, "version"
		case "flag":
			app.Flags = append(app.Flags, &cli.Flag{Name: own, Uses: printer()})
			line = []string{"--" + called}
		case "sub flag":
			app.Commands[0].Flags = []*cli.Flag{{Name: own, Uses: printer()}}
			line, command = []string{"sub", "--" + called}, "sub"
		case "command":
			app.Commands = append(app.Commands, &cli.Command{Name: own, Uses: printer()})
			line, command = []string{called}, called
		case "action":
			app.Commands = append(app.Commands, &cli.Command{Name: "do", Action: cli.ExecuteTemplate(templateName, nil)})
			line, command = []string{"do"}, "do"
		}
		if version == "" {
			version = "0.0.0"
		}
		var want string
		if which == "version" {
			want = name + ", version " + version + "\n"
		} else {
			var buf bytes.Buffer
			cli.Wrap(&buf, license, "    ", width)
			want = buf.String() + "\n"
		}
		if tpl {
			reg := cli.RegisterTemplate(templateName, "{{.App.Name}}|{{.App.Version}}|{{.App.License}}|{{.Command.Name}}")
			if rapid.Bool().Draw(c.T, "in Before") {
				app.Before = reg
			} else {
				app.Uses = reg
			}
			want = name + "|" + version + "|" + license + "|" + command
		}
		if tpl || own != "" {
			c.NonTrivial()
		}
		err := app.RunContext(t.Context(), append([]string{name}, line...))
		if err != nil {
			code, ok := err.(cli.ExitCoder)
			if !ok || code.ExitCode() != 0 {
				c.Failf("error %v", err)
			}
		}
		if ran {
			c.Failf("the Action was executed")
		}
		if stdout.String() != want {
			c.Failf("output\n%q, want\n%q", stdout.String(), want)
		}
		if stderr.Len() > 0 {
			c.Failf("standard error %q", stderr.String())
		}
	})
}
