package core

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// napp is an app whose hooks run other apps
type napp struct {
	name  string
	runs  map[string][]*napp // by hook
	sub   bool               // its arg is in a sub-command
	how   int                // how the arg refers to a file
	fails string             // the hook which fails or panics
	panic bool
	stop  bool // an error of an inner app is an error of the hook

	given bool // inner apps are run with the context of the hook
	split bool // Initialize and Execute instead of RunContext
}

var nappHooks = []string{"uses", "before", "sub uses", "sub before", "flag", "arg", "sub action", "action", "sub after", "after"}

func (a *napp) text(b *strings.Builder) {
	fmt.Fprintf(b, "%s{", a.name)
	if a.sub {
		b.WriteString("sub ")
	}
	if a.split {
		b.WriteString("initialize+execute ")
	}
	fmt.Fprintf(b, "how%d ", a.how)
	if a.given {
		b.WriteString("given ")
	}
	if a.fails != "" {
		fmt.Fprintf(b, "%s fails(panic %v) ", a.fails, a.panic)
	}
	for _, h := range nappHooks {
		for _, x := range a.runs[h] {
			b.WriteString(h + ": ")
			x.text(b)
		}
	}
	b.WriteString("}")
}

func genNapp(t *rapid.T, n *int, depth int) *napp {
	*n++
	a := &napp{name: fmt.Sprintf("app%d", *n), runs: map[string][]*napp{}}
	a.sub = rapid.Bool().Draw(t, "sub")
	a.how = rapid.IntRange(0, 3).Draw(t, "how")
	a.split = rapid.IntRange(0, 3).Draw(t, "split") == 0
	a.stop = rapid.Bool().Draw(t, "stop")
	a.given = rapid.Bool().Draw(t, "given")
	if rapid.IntRange(0, 4).Draw(t, "fails") == 1 {
		a.fails = rapid.SampledFrom(nappHooks).Draw(t, "failsAt")
		a.panic = rapid.Bool().Draw(t, "panic")
	}
	if depth > 0 {
		for i, m := 0, rapid.IntRange(0, 2).Draw(t, "inner"); i < m; i++ {
			h := rapid.SampledFrom(nappHooks).Draw(t, "at")
			a.runs[h] = append(a.runs[h], genNapp(t, n, depth-1))
		}
	}
	return a
}

// events gives what the run does and its error
func (a *napp) events(out *[]string) (err string) {
	do := func(h string) bool {
		if !a.sub && strings.HasPrefix(h, "sub ") {
			return true
		}
		*out = append(*out, a.name+" "+h)
		for _, x := range a.runs[h] {
			if e := x.events(out); e != "" && a.stop {
				err = e
				return false
			}
			*out = append(*out, a.name+" again")
		}
		if a.fails == h {
			err = a.name + " fails"
			return false
		}
		return true
	}
	order := []string{"uses", "sub uses", "before", "flag", "arg", "action", "after"}
	if a.sub {
		// the flag is the app's, the arg is the sub-command's
		order = []string{"uses", "sub uses", "before", "flag", "sub before", "arg", "sub action", "sub after", "after"}
	}
	for _, h := range order {
		if h == "arg" {
			*out = append(*out, a.name+" reads of "+a.name)
		}
		if !do(h) {
			return
		}
	}
	return
}

type nrun struct {
	out []string
	bad string
}

func (r *nrun) run(in context.Context, a *napp) (err error) {
	var app *cli.App
	fail := errors.New(a.name + " fails")
	check := func(c *cli.Context, h string) {
		if cli.CurrentApp() != app && r.bad == "" {
			r.bad = fmt.Sprintf("in %s of %s, the current app is %s", h, a.name, nappName(cli.CurrentApp()))
		}
		if c.App() != app && r.bad == "" {
			r.bad = fmt.Sprintf("in %s of %s, the app of the context is %s", h, a.name, nappName(c.App()))
		}
	}
	checkPath := func(c *cli.Context, h string) {
		depth := 1
		if strings.HasPrefix(h, "sub ") {
			depth++
		}
		if h == "flag" {
			depth++
		}
		if h == "arg" {
			depth++
			if a.sub {
				depth++
			}
		}
		if r.bad == "" && (len(c.Path()) != depth || c.Path()[0] != a.name || c.Root().Name() != a.name || len(c.Lineage()) != depth) {
			r.bad = fmt.Sprintf("in %s of %s, the path is %q and the root %s", h, a.name, c.Path(), c.Root().Name())
		}
		if r.bad == "" && h != "uses" && h != "sub uses" && c.Bool("flag") != true {
			r.bad = fmt.Sprintf("in %s of %s, the flag is false", h, a.name)
		}
	}
	hook := func(h string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) error {
			r.out = append(r.out, a.name+" "+h)
			check(c, h)
			checkPath(c, h)
			for _, x := range a.runs[h] {
				in := context.Background()
				if a.given {
					in = c
				}
				err := r.run(in, x)
				if err != nil && a.stop {
					return err
				}
				r.out = append(r.out, a.name+" again")
				check(c, h)
			}
			if a.fails == h {
				if a.panic {
					panic(fail)
				}
				return fail
			}
			return nil
		})
	}
	app = newApp(a.name)
	app.FS = fstest.MapFS{"file": &fstest.MapFile{Data: []byte("of " + a.name)}}
	app.Uses, app.Before, app.After = hook("uses"), hook("before"), hook("after")
	app.Flags = []*cli.Flag{{Name: "flag", Value: new(bool), Action: hook("flag")}}
	arg := &cli.Arg{Name: "arg", NArg: 1, Value: new(string)}
	text := "file"
	switch a.how {
	case 0:
		arg.Options = cli.FileReference
	case 1:
		arg.Options, text = cli.AllowFileReference, "@file"
	case 2:
		arg.Uses = cli.Transform(cli.TransformFileReference(nil))
	default:
		arg.Uses, text = cli.Transform(cli.TransformOptionalFileReference(nil)), "@file"
	}
	argHook := hook("arg")
	arg.Action = cli.ActionOf(func(c *cli.Context) error {
		r.out = append(r.out, fmt.Sprintf("%s reads %v", a.name, c.Value("")))
		return c.Do(argHook)
	})
	line := []string{a.name, "--flag"}
	if a.sub {
		app.Commands = []*cli.Command{{
			Name: "sub", Args: []*cli.Arg{arg},
			Uses: hook("sub uses"), Before: hook("sub before"), Action: hook("sub action"), After: hook("sub after"),
		}}
		line = append(line, "sub")
	} else {
		app.Args = []*cli.Arg{arg}
		app.Action = hook("action")
		app.Uses = cli.Pipeline(app.Uses)
	}
	line = append(line, text)
	defer func() {
		if e := recover(); e != nil {
			if e != any(fail) && fmt.Sprint(e) != fail.Error() {
				panic(e)
			}
			err = fail
		}
	}()
	if a.split {
		ctx, err := app.Initialize(in)
		if err != nil {
			return err
		}
		return cli.FromContext(ctx).Execute(line)
	}
	return app.RunContext(in, line)
}

func nappName(a *cli.App) string {
	if a == nil {
		return "nil"
	}
	return a.Name
}

func TestP13_NestedApps(t *testing.T) {
	pbt.Run(t, "an action runs another app", 400, func(c *pbt.C) {
		n := 0
		var apps []*napp
		for i, m := 0, rapid.IntRange(1, 2).Draw(c.T, "apps"); i < m; i++ {
			apps = append(apps, genNapp(c.T, &n, 2))
		}
		for _, a := range apps {
			var b strings.Builder
			a.text(&b)
			c.Showf("%s", b.String())
		}
		if n > len(apps) {
			c.NonTrivial()
		}
		for _, a := range apps {
			var want []string
			wantErr := a.events(&want)
			var r nrun
			err := r.run(context.Background(), a)
			if r.bad != "" {
				c.Failf("%s", r.bad)
			}
			got := ""
			if err != nil {
				got = err.Error()
			}
			if got != wantErr {
				c.Failf("error %q, want %q", got, wantErr)
			}
			if a, b := strings.Join(r.out, "; "), strings.Join(want, "; "); a != b {
				c.Failf("saw\n%s, want\n%s", a, b)
			}
			if cli.CurrentApp() != nil {
				c.Failf("the current app is %s afterwards", nappName(cli.CurrentApp()))
			}
		}
	})
}
