package ext

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// what a function was called with
type bcalls struct {
	got  [][]any
	err  error
	kind string
}

func (b *bcalls) call(v ...any) error {
	for i := range v {
		v[i] = bshow(v[i])
	}
	b.got = append(b.got, v)
	return b.err
}

func bshow(v any) any {
	switch v := v.(type) {
	case *cli.File:
		return "file " + v.Name
	case *cli.FileSet:
		return fmt.Sprintf("files %q %v", v.Files, v.Recursive)
	case *cli.NameValue:
		return "pair " + v.String()
	case []*cli.NameValue:
		var b strings.Builder
		for _, p := range v {
			b.WriteString(p.String() + ";")
		}
		return b.String()
	case *cli.Context:
		return "context"
	case *color.Mode:
		return "mode " + v.String()
	}
	if r := reflect.ValueOf(v); r.Kind() == reflect.Slice && r.Len() == 0 {
		return fmt.Sprintf("%T empty", v)
	}
	return fmt.Sprintf("%T %v", v, v)
}

var errBind = errors.New("binder failed")

// bdef is one binder
type bdef struct {
	kind string // how it is made
	name any    // its name, nil for none
	text string // the text for a static value
}

func (b bdef) String() string { return fmt.Sprintf("%s(%v%s)", b.kind, b.name, b.text) }

// btype is a type of value with its binders
type btype struct {
	name     string
	texts    []string
	fresh    func() any
	implicit bool // the type of the value can follow from the binder
	// one makes Call or Action of T; three of T, string, T
	one, two, three func(form string, rec *bcalls, b []bdef) cli.Action
	eval            func(n int, rec *bcalls, b []bdef) expr.Evaluator
	redirect        func(name any, static *string) cli.Action
	indirect        func(rec *bcalls, name any, static *string) cli.Action
	indirectFrom    func(rec *bcalls, name any) cli.Action
	static          func(text string) any
}

func mkbind[T any](named func(...any) bind.Binder[T], name string, fresh func() any, parse func(any) T, texts ...string) btype {
	static := func(text string) T {
		v := fresh()
		if err := cli.Set(v, text); err != nil {
			panic(err)
		}
		return parse(v)
	}
	conv := func(b bdef) bind.Binder[T] {
		var names []any
		if b.name != nil {
			names = []any{b.name}
		}
		switch b.kind {
		case "named":
			return named(names...)
		case "for":
			return bind.For[T](names...)
		case "value":
			return bind.Value[T](names...)
		case "exact":
			return bind.Exact[T]()
		case "static":
			return bind.Exact(static(b.text))
		case "func":
			return bind.Func[T](func(c *cli.Context) (T, error) { return static(b.text), nil })
		case "failing":
			return bind.Func[T](func(c *cli.Context) (T, error) { return static(b.text), errBind })
		case "context":
			return bind.FromContext(func(ctx context.Context) T { return cli.FromContext(ctx).Value(b.name).(T) })
		}
		panic(b.kind)
	}
	str := func(b bdef) bind.Binder[string] {
		var names []any
		if b.name != nil {
			names = []any{b.name}
		}
		switch b.kind {
		case "named":
			return bind.String(names...)
		case "for":
			return bind.For[string](names...)
		case "value":
			return bind.Value[string](names...)
		case "exact":
			return bind.Exact[string]()
		case "static":
			return bind.Exact(b.text)
		case "func":
			return bind.Func[string](func(c *cli.Context) (string, error) { return b.text, nil })
		case "failing":
			return bind.Func[string](func(c *cli.Context) (string, error) { return b.text, errBind })
		case "context":
			return bind.FromContext(func(ctx context.Context) string { return cli.FromContext(ctx).String(b.name) })
		}
		panic(b.kind)
	}
	act := func(rec *bcalls, v ...any) cli.Action {
		return cli.ActionOf(func() error { return rec.call(v...) })
	}
	_, isAny := any(new(T)).(*any)
	return btype{
		name: name, texts: texts, fresh: fresh, implicit: !isAny,
		static: func(text string) any { return bshow(static(text)) },
		one: func(form string, rec *bcalls, b []bdef) cli.Action {
			if form == "action" {
				return bind.Action(func(t T) cli.Action { return act(rec, t) }, conv(b[0]))
			}
			return bind.Call(func(t T) error { return rec.call(t) }, conv(b[0]))
		},
		two: func(form string, rec *bcalls, b []bdef) cli.Action {
			if form == "action" {
				return bind.Action2(func(t T, s string) cli.Action { return act(rec, t, s) }, conv(b[0]), str(b[1]))
			}
			return bind.Call2(func(t T, s string) error { return rec.call(t, s) }, conv(b[0]), str(b[1]))
		},
		three: func(form string, rec *bcalls, b []bdef) cli.Action {
			if form == "action" {
				return bind.Action3(func(t T, s string, u T) cli.Action { return act(rec, t, s, u) }, conv(b[0]), str(b[1]), conv(b[2]))
			}
			return bind.Call3(func(t T, s string, u T) error { return rec.call(t, s, u) }, conv(b[0]), str(b[1]), conv(b[2]))
		},
		eval: func(n int, rec *bcalls, b []bdef) expr.Evaluator {
			pass := func(v ...any) expr.Evaluator {
				return expr.EvaluatorFunc(func(_ *cli.Context, item any, yield func(any) error) error {
					if err := rec.call(append([]any{item}, v...)...); err != nil {
						return err
					}
					return yield(item)
				})
			}
			switch n {
			case 1:
				return bind.Evaluator(func(t T) expr.Evaluator { return pass(t) }, conv(b[0]))
			case 2:
				return bind.Evaluator2(func(t T, s string) expr.Evaluator { return pass(t, s) }, conv(b[0]), str(b[1]))
			}
			return bind.Evaluator3(func(t T, s string, u T) expr.Evaluator { return pass(t, s, u) }, conv(b[0]), str(b[1]), conv(b[2]))
		},
		redirect: func(name any, s *string) cli.Action {
			if s != nil {
				return bind.Redirect(name, static(*s))
			}
			return bind.Redirect[T](name)
		},
		indirect: func(rec *bcalls, name any, s *string) cli.Action {
			fn := func(t string, u T) error { return rec.call(t, u) }
			if s != nil {
				return bind.Indirect(name, fn, static(*s))
			}
			return bind.Indirect(name, fn)
		},
		indirectFrom: func(rec *bcalls, name any) cli.Action {
			return bind.Indirect(name, func(t T, s string) error { return rec.call(t, s) })
		},
	}
}

func deref[T any](v any) T     { return *v.(*T) }
func same[T any](v any) T      { return v.(T) }
func newOf[T any]() func() any { return func() any { return new(T) } }

var bindTypes = []btype{
	mkbind(bind.Bool, "bool", newOf[bool](), deref[bool], "true", "false"),
	mkbind(bind.String, "string", newOf[string](), deref[string], "", "a", "b c"),
	mkbind(bind.List, "list", newOf[[]string](), deref[[]string], "a", "b,c"),
	mkbind(bind.Int, "int", newOf[int](), deref[int], "1", "-5", "300"),
	mkbind(bind.Int8, "int8", newOf[int8](), deref[int8], "1", "-5"),
	mkbind(bind.Int16, "int16", newOf[int16](), deref[int16], "1", "-5", "300"),
	mkbind(bind.Int32, "int32", newOf[int32](), deref[int32], "1", "70000"),
	mkbind(bind.Int64, "int64", newOf[int64](), deref[int64], "1", "5000000000"),
	mkbind(bind.Uint, "uint", newOf[uint](), deref[uint], "1", "300"),
	mkbind(bind.Uint8, "uint8", newOf[uint8](), deref[uint8], "1", "255"),
	mkbind(bind.Uint16, "uint16", newOf[uint16](), deref[uint16], "1", "300"),
	mkbind(bind.Uint32, "uint32", newOf[uint32](), deref[uint32], "1", "70000"),
	mkbind(bind.Uint64, "uint64", newOf[uint64](), deref[uint64], "1", "5000000000"),
	mkbind(bind.Float32, "float32", newOf[float32](), deref[float32], "1", "2.5"),
	mkbind(bind.Float64, "float64", newOf[float64](), deref[float64], "1", "0.1"),
	mkbind(bind.Duration, "duration", newOf[time.Duration](), deref[time.Duration], "1s", "3h"),
	mkbind(bind.File, "file", newOf[cli.File](), same[*cli.File], "f", "g/h"),
	mkbind(bind.FileSet, "files", newOf[cli.FileSet](), same[*cli.FileSet], "f", "g/h"),
	mkbind(bind.Map, "map", newOf[map[string]string](), deref[map[string]string], "a=1", "b=2,c=3"),
	mkbind(bind.NameValue, "pair", newOf[cli.NameValue](), same[*cli.NameValue], "a=1", "b=2"),
	mkbind(bind.NameValues, "pairs", newOf[[]*cli.NameValue](), deref[[]*cli.NameValue], "a=1", "b=2"),
	mkbind(bind.URL, "url", newOf[*url.URL](), deref[*url.URL], "http://a/b", "c"),
	mkbind(bind.Regexp, "regexp", newOf[*regexp.Regexp](), deref[*regexp.Regexp], "[a]", "x+"),
	mkbind(bind.IP, "ip", newOf[net.IP](), deref[net.IP], "127.0.0.1", "::1"),
	mkbind(bind.BigInt, "bigint", newOf[*big.Int](), deref[*big.Int], "5", "-123456789012345678901234567890"),
	mkbind(bind.BigFloat, "bigfloat", newOf[*big.Float](), deref[*big.Float], "5", "1.5"),
	mkbind(bind.Bytes, "bytes", newOf[[]byte](), deref[[]byte], "abcd", "00"),
	mkbind(bind.Value[*color.Mode], "custom", newOf[color.Mode](), same[*color.Mode], "always", "never"),
	mkbind(bind.Interface, "any", newOf[int](), func(v any) any { return *v.(*int) }, "4", "7"),
}

// expected is what the value looks like
func (bt btype) expected(text string, set bool) any {
	v := bt.fresh()
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{{Name: "f", Value: v}}}
	var res any
	app.Action = func(c *cli.Context) { res = bshow(c.Value("f")) }
	args := []string{"app"}
	if set {
		args = append(args, "--f="+text)
	}
	if err := app.RunContext(context.Background(), args); err != nil {
		panic(err)
	}
	return res
}

// TestP29_Call: bound functions are called with the values of the flags and args they name
func TestP29_Call(t *testing.T) {
	pbt.Run(t, "Call and Action with 1 to 3 binders of any type on a flag, arg, command or sub-command; non-trivial: the function is called with two or more values", 6000, func(c *pbt.C) {
		bt := rapid.SampledFrom(bindTypes).Draw(c.T, "type")
		text := func(l string) string { return rapid.SampledFrom(bt.texts).Draw(c.T, l) }
		where := rapid.SampledFrom([]string{"flag", "arg", "command", "sub"}).Draw(c.T, "where")
		timing := rapid.SampledFrom([]string{"uses", "before", "action"}).Draw(c.T, "timing")
		form := rapid.SampledFrom([]string{"call", "action"}).Draw(c.T, "form")
		n := rapid.IntRange(1, 3).Draw(c.T, "binders")
		own := where == "flag" || where == "arg"

		// the options: flags a (T) and s (string), args x (T), y (string), z (T)
		vals := map[string]string{"a": text("a"), "x": text("x"), "z": text("z"), "s": rapid.SampledFrom([]string{"s1", "s2"}).Draw(c.T, "s"), "y": rapid.SampledFrom([]string{"y1", "y2"}).Draw(c.T, "y")}
		given := map[string]bool{"a": rapid.Bool().Draw(c.T, "give a"), "s": rapid.Bool().Draw(c.T, "give s"), "x": true, "y": true, "z": rapid.Bool().Draw(c.T, "give z")}
		me := map[string]string{"flag": "a", "arg": "x"}[where]

		var defs []bdef
		resolve := func(i int, d bdef) string {
			if d.name == nil {
				if own {
					return me
				}
				return []string{"x", "y", "z"}[i]
			}
			switch name := d.name.(type) {
			case int:
				return []string{"x", "y", "z"}[name]
			case string:
				if name == "" {
					return me
				}
				return name
			}
			panic("name")
		}
		typed := map[string]bool{}
		statics, fails := false, false
		for i := range n {
			var d bdef
			if i == 1 {
				names := []any{"s", "y"}
				if !own {
					names = append(names, 1, nil)
				}
				d = bdef{rapid.SampledFrom([]string{"named", "for", "value", "static", "func", "failing", "context", "exact"}).Draw(c.T, "kind"), rapid.SampledFrom(names).Draw(c.T, "name"), ""}
				if d.kind == "exact" && own || d.kind == "context" && d.name == nil {
					d.kind = "named"
				}
				if d.kind == "exact" {
					d.name = nil
				}
				switch d.kind {
				case "static", "func", "failing":
					d.name, d.text = nil, "text"
				}
			} else {
				names := []any{"a", "x", "z", nil}
				if own {
					names = append(names, "")
				} else {
					names = append(names, 0, 2)
				}
				d = bdef{rapid.SampledFrom([]string{"named", "for", "value", "static", "func", "failing", "context", "exact"}).Draw(c.T, "kind"), rapid.SampledFrom(names).Draw(c.T, "name"), ""}
				if d.kind == "context" && d.name == nil {
					d.kind = "named"
				}
				switch d.kind {
				case "static", "func", "failing":
					d.name, d.text = nil, text("static")
				case "exact":
					d.name = nil
				}
			}
			switch d.kind {
			case "static":
				statics = true
			case "failing":
				fails = true
			case "named", "for", "value", "exact":
				typed[resolve(i, d)] = true
			}
			defs = append(defs, d)
		}
		infer := timing == "uses" && bt.implicit && !statics && rapid.Bool().Draw(c.T, "infer")
		c.Showf("%s: %s of %v in %s of %s, infer %v, values %q given %v", bt.name, form, defs, timing, where, infer, vals, given)
		c.Label("%s", where)
		if infer {
			c.Label("inferred type")
		}

		rec := &bcalls{}
		if rapid.IntRange(0, 5).Draw(c.T, "fails") == 0 {
			rec.err = errBind
		}
		action := [](func(string, *bcalls, []bdef) cli.Action){bt.one, bt.two, bt.three}[n-1](form, rec, defs)
		value := func(name string) any {
			if infer && typed[name] {
				return nil
			}
			if name == "s" || name == "y" {
				return new(string)
			}
			return bt.fresh()
		}
		ran := false
		cmd := &cli.Command{
			Name:  "cmd",
			Flags: []*cli.Flag{{Name: "a", Value: value("a")}, {Name: "s", Value: value("s")}},
			Args:  []*cli.Arg{{Name: "x", Value: value("x"), NArg: 1}, {Name: "y", Value: value("y"), NArg: 1}, {Name: "z", Value: value("z"), NArg: cli.OptionalArg(nil)}},
		}
		after := cli.ActionOf(func() { ran = true })
		put := func(uses, before, act *any) {
			switch timing {
			case "uses":
				*uses = action
			case "before":
				*before = action
			default:
				*act = action
			}
		}
		switch where {
		case "flag":
			put(&cmd.Flags[0].Uses, &cmd.Flags[0].Before, &cmd.Flags[0].Action)
			cmd.Action = after
		case "arg":
			put(&cmd.Args[0].Uses, &cmd.Args[0].Before, &cmd.Args[0].Action)
			cmd.Action = after
		default:
			put(&cmd.Uses, &cmd.Before, &cmd.Action)
			if timing == "action" {
				cmd.Action = cli.Pipeline(action, after)
			} else {
				cmd.Action = after
			}
		}
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
		tokens := []string{"app"}
		if where == "sub" {
			app.Commands = []*cli.Command{cmd}
			tokens = append(tokens, "cmd")
		} else {
			app.Flags, app.Args, app.Uses, app.Before, app.Action = cmd.Flags, cmd.Args, cmd.Uses, cmd.Before, cmd.Action
		}
		for _, f := range []string{"a", "s"} {
			if given[f] {
				tokens = append(tokens, "--"+f+"="+vals[f])
			}
		}
		tokens = append(tokens, "--", vals["x"], vals["y"])
		if given["z"] {
			tokens = append(tokens, vals["z"])
		}
		err := app.RunContext(context.Background(), tokens)

		// expected
		var want []any
		for i, d := range defs {
			switch d.kind {
			case "static", "func":
				if i == 1 {
					want = append(want, "string text")
				} else {
					want = append(want, bt.static(d.text))
				}
			case "failing":
			default:
				name := resolve(i, d)
				if name == "s" || name == "y" {
					v := vals[name]
					if !given[name] {
						v = ""
					}
					want = append(want, "string "+v)
				} else {
					want = append(want, bt.expected(vals[name], given[name]))
				}
			}
		}
		called := where != "flag" || given["a"]
		wantErr := called && (fails || rec.err != nil)
		if wantErr != (err != nil) || err != nil && !errors.Is(err, errBind) {
			c.Failf("%q gives the error %v", tokens, err)
		}
		if called && fails || !called {
			if len(rec.got) > 0 {
				c.Failf("%q calls it with %q", tokens, rec.got)
			}
		} else if len(rec.got) != 1 || !reflect.DeepEqual(rec.got[0], want) {
			c.Failf("%q calls it with %q, expected %q", tokens, rec.got, want)
		}
		if ran == wantErr {
			c.Failf("%q: the action ran: %v", tokens, ran)
		}
		if len(rec.got) > 0 && n > 1 {
			c.NonTrivial()
		}
	})
}

// TestP29_Redirect: redirects set the other option, indirect calls get both values
func TestP29_Redirect(t *testing.T) {
	pbt.Run(t, "Redirect and Indirect between options of any type; non-trivial: both options occur", 4000, func(c *pbt.C) {
		bt := rapid.SampledFrom(bindTypes).Draw(c.T, "type")
		text := func(l string) string { return rapid.SampledFrom(bt.texts).Draw(c.T, l) }
		how := rapid.SampledFrom([]string{"redirect", "indirect", "indirect from"}).Draw(c.T, "how")
		if _, isValue := bt.fresh().(cli.Value); isValue && how == "redirect" {
			how = "indirect" // a custom value cannot be set directly
		}
		infer := bt.implicit && rapid.Bool().Draw(c.T, "infer")
		targetIsArg := rapid.Bool().Draw(c.T, "arg")
		timing := rapid.SampledFrom([]string{"uses", "action"}).Draw(c.T, "timing")
		if timing == "action" {
			infer = false
		}
		var static *string
		if how != "indirect from" && rapid.Bool().Draw(c.T, "static") {
			s := text("static value")
			static = &s
		}
		giveT, giveU := rapid.Bool().Draw(c.T, "give t"), rapid.IntRange(0, 3).Draw(c.T, "give u") > 0
		flip := rapid.Bool().Draw(c.T, "flip")
		initial := rapid.Bool().Draw(c.T, "order")
		rec := &bcalls{}

		// t is the target, u the flag with the action
		tv, uv := any(new(string)), bt.fresh()
		tt, ut := "target", text("u")
		if how != "indirect" {
			tv = bt.fresh()
			tt = text("t")
		}
		if how == "indirect from" {
			uv, ut = new(string), "some text"
		}
		if static != nil {
			uv, ut = new(bool), ""
		}
		if infer {
			tv, uv = nil, nil
		}
		var action cli.Action
		switch how {
		case "redirect":
			action = bt.redirect("t", static)
		case "indirect":
			action = bt.indirect(rec, "t", static)
		default:
			action = bt.indirectFrom(rec, "t")
		}
		u := &cli.Flag{Name: "u", Value: uv}
		if timing == "uses" {
			u.Uses = action
		} else {
			u.Action = action
		}
		st := "none"
		if static != nil {
			st = *static
		}
		c.Showf("%s %s in %s: t %q %v u %q %v static %q infer %v arg %v flip %v %v", bt.name, how, timing, tt, giveT, ut, giveU, st, infer, targetIsArg, flip, initial)
		c.Label("%s", how)
		var after any
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{u}, Action: func(ctx *cli.Context) { after = bshow(ctx.Value("t")) }}
		tokens := []string{}
		if giveU {
			tok := "--u=" + ut
			if static != nil {
				tok = "--u"
			}
			tokens = append(tokens, tok)
		}
		if targetIsArg {
			app.Args = []*cli.Arg{{Name: "t", Value: tv, NArg: 0}}
			if giveT {
				tokens = append(tokens, "--", tt)
			}
		} else {
			target := &cli.Flag{Name: "t", Value: tv}
			app.Flags = append(app.Flags, target)
			if initial {
				slices.Reverse(app.Flags)
			}
			if giveT {
				tokens = append(tokens, "--t="+tt)
				if flip {
					slices.Reverse(tokens)
				}
			}
		}
		if err := app.RunContext(context.Background(), append([]string{"app"}, tokens...)); err != nil {
			c.Failf("%q gives the error %v", tokens, err)
		}
		if giveT && giveU {
			c.NonTrivial()
		}
		wantT := any("string ")
		if how != "indirect" {
			wantT = bt.expected(tt, giveT)
		} else if giveT {
			wantT = "string target"
		}
		var want [][]any
		if giveU {
			wantU := any("string some text")
			if how != "indirect from" {
				if static != nil {
					wantU = bt.static(*static)
				} else {
					wantU = bt.expected(ut, true)
				}
			}
			if how == "redirect" {
				wantT = wantU
			} else {
				want = [][]any{{wantT, wantU}}
			}
		}
		if !reflect.DeepEqual(rec.got, want) {
			c.Failf("%q calls it with %q, expected %q", tokens, rec.got, want)
		}
		if !reflect.DeepEqual(after, wantT) {
			c.Failf("%q sets %q, expected %q", tokens, after, wantT)
		}
	})
}

// TestP29_Evaluator: bound evaluators see the args of their operator
func TestP29_Evaluator(t *testing.T) {
	pbt.Run(t, "expressions with a bound operator of 1 to 3 args of any type, used several times; non-trivial: two or more uses", 3000, func(c *pbt.C) {
		bt := rapid.SampledFrom(bindTypes).Draw(c.T, "type")
		text := func(l string) string { return rapid.SampledFrom(bt.texts).Draw(c.T, l) }
		n := rapid.IntRange(1, 3).Draw(c.T, "args")
		inUses := rapid.Bool().Draw(c.T, "uses")
		kinds := []string{"named", "for", "value"}
		argNames := []string{"x", "y", "z"}
		var defs []bdef
		fails := false
		var from []string
		typed := map[string]bool{}
		for i := range n {
			d := bdef{kind: rapid.SampledFrom(kinds).Draw(c.T, "kind")}
			name := argNames[i]
			if rapid.IntRange(0, 7).Draw(c.T, "other") == 7 {
				d.kind = rapid.SampledFrom([]string{"static", "func", "failing"}).Draw(c.T, "other kind")
				d.text = text("static")
				defs = append(defs, d)
				from = append(from, "=")
				fails = fails || d.kind == "failing"
				continue
			}
			switch rapid.IntRange(0, 3).Draw(c.T, "by") {
			case 0:
				d.name = argNames[i]
			case 1:
				d.name = i
			case 2:
				name = map[int]string{0: "a", 1: "s", 2: "a"}[i]
				d.name = name
			}
			typed[name] = true
			from = append(from, name)
			defs = append(defs, d)
		}
		infer := inUses && bt.implicit && rapid.Bool().Draw(c.T, "infer")
		value := func(name string) any {
			if infer && typed[name] && name != "a" && name != "s" {
				return nil
			}
			if name == "y" || name == "s" {
				return new(string)
			}
			return bt.fresh()
		}
		rec := &bcalls{}
		if rapid.IntRange(0, 9).Draw(c.T, "error") == 7 {
			rec.err = errors.New("evaluated")
		}
		op := &expr.Expr{Name: "op"}
		for i := range n {
			op.Args = append(op.Args, &cli.Arg{Name: argNames[i], Value: value(argNames[i]), NArg: 1})
		}
		if inUses {
			op.Uses = bt.eval(n, rec, defs)
		} else {
			op.Evaluate = bt.eval(n, rec, defs)
		}
		vals := map[string]string{"a": text("a"), "s": "s1"}
		tokens := []string{"app", "--a=" + vals["a"], "--s=" + vals["s"], "."}
		items := rapid.IntRange(0, 2).Draw(c.T, "items")
		type one struct{ texts []string }
		var uses [][]any
		for u := range rapid.IntRange(0, 3).Draw(c.T, "uses") {
			tokens = append(tokens, "-op")
			args := map[string]any{"a": bt.expected(vals["a"], true), "s": "string s1"}
			for i := range n {
				v := fmt.Sprintf("y%d", u)
				if i != 1 {
					v = text("arg")
					if v == "" || v[0] == '-' {
						v = bt.texts[1]
						if v == "" || v[0] == '-' {
							v = bt.texts[0]
						}
					}
					args[argNames[i]] = bt.expected(v, true)
				} else {
					args["y"] = "string " + v
				}
				tokens = append(tokens, v)
			}
			var w []any
			for i := range n {
				switch {
				case from[i] != "=":
					w = append(w, args[from[i]])
				case i == 1:
					w = append(w, "string "+defs[i].text)
				default:
					w = append(w, bt.static(defs[i].text))
				}
			}
			uses = append(uses, w)
		}
		c.Showf("%s: evaluator of %v, uses %v infer %v items %d: %q", bt.name, defs, inUses, infer, items, tokens)
		if len(uses) > 1 && items > 0 {
			c.NonTrivial()
		}
		var list []any
		for i := range items {
			list = append(list, i)
		}
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard,
			Flags: []*cli.Flag{{Name: "a", Value: bt.fresh()}, {Name: "s"}},
			Args:  []*cli.Arg{{Name: "start", NArg: -2}, {Name: "expression", Value: &expr.Expression{Exprs: []*expr.Expr{op}}}},
			Action: func(ctx *cli.Context) error {
				return expr.FromContext(ctx, "expression").Evaluate(ctx, list...)
			}}
		var wantErr error
		if items > 0 && len(uses) > 0 {
			if rec.err != nil {
				wantErr = rec.err
			}
			if fails {
				wantErr = errBind
			}
		}
		if err := app.RunContext(context.Background(), tokens); err != wantErr && !errors.Is(err, wantErr) {
			c.Failf("error %v, expected %v", err, wantErr)
		}
		var want [][]any
		for i := range items {
			for _, u := range uses {
				want = append(want, append([]any{fmt.Sprintf("int %d", i)}, u...))
			}
		}
		if fails {
			want = nil
		} else if wantErr != nil {
			want = want[:1]
		}
		if !reflect.DeepEqual(rec.got, want) {
			c.Failf("evaluated with %q, expected %q", rec.got, want)
		}
	})
}
