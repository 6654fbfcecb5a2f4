package core

import (
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// ivalue is the value of a flag or arg which initializes values
type ivalue struct {
	s    string
	init cli.ActionPipeline
}

func (i *ivalue) Set(s string) error      { i.s = s; return nil }
func (i *ivalue) String() string          { return i.s }
func (i *ivalue) Initializer() cli.Action { return i.init }

// avalue is a value with args
type avalue struct{ args []*cli.Arg }

func (a *avalue) LocalArgs() []*cli.Arg              { return a.args }
func (a *avalue) SetLocalArgs(args []*cli.Arg) error { a.args = args; return nil }

// bvalue is another one
type bvalue struct{ args []*cli.Arg }

func (a *bvalue) LocalArgs() []*cli.Arg        { return a.args }
func (a *bvalue) SetLocalArgs(args []*cli.Arg) { a.args = args }

type otherValue struct{ n int }

func (g *pgen) giveValues(t *ptgt, ids *int) {
	if !g.values {
		return
	}
	initializer := false
	for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(g.t, "nvalues"); i < n; i++ {
		*ids++
		v := &ptgt{kind: "value", name: fmt.Sprintf("<-val%d>", *ids), parent: t}
		v.path = append(append([]string(nil), t.path...), v.name)
		g.fill(v)
		ways := 3
		if t.kind != "cmd" {
			ways = 5
		}
		v.how = rapid.IntRange(0, ways).Draw(g.t, "provided")
		initializer = initializer || v.how >= 4
		if initializer {
			// those of the Initializer come last
			v.how = 4
		}
		nargs := 0
		switch rapid.IntRange(0, 5).Draw(g.t, "valueKind") {
		case 0:
			v.val = nil
		case 1:
			v.val = "text"
		case 2:
			v.val = &otherValue{1}
		case 3:
			v.val = &bvalue{}
			nargs = rapid.IntRange(1, 2).Draw(g.t, "nvargs")
		default:
			v.val = &avalue{}
			nargs = rapid.IntRange(1, 2).Draw(g.t, "nvargs")
		}
		for j := 0; j < nargs; j++ {
			*ids++
			a := &ptgt{kind: "arg", name: fmt.Sprintf("<arg%d>", *ids), parent: v}
			a.path = append(append([]string(nil), v.path...), a.name)
			g.fill(a)
			a.always = rapid.Bool().Draw(g.t, "trigger")
			a.how = rapid.IntRange(0, 3).Draw(g.t, "added")
			if len(v.args) > 0 && v.args[0].how > 0 && a.how == 0 {
				a.how = 1 // those which the value has come first
			}
			v.args = append(v.args, a)
		}
		t.values = append(t.values, v)
	}
}

// valueOf is the value of a flag or arg
func (b *pbuilder) valueOf(t *ptgt) any {
	var p cli.ActionPipeline
	for _, v := range t.values {
		if v.how >= 4 {
			p = append(p, b.provide(v))
		}
	}
	if len(p) == 0 {
		return new(string)
	}
	return &ivalue{init: p}
}

// provide is the action for a value
func (b *pbuilder) provide(v *ptgt) cli.Action {
	var opts []cli.Action
	s := cli.Setup{}
	if a := b.pipeline(v.user[tBefore], tBefore); a != nil {
		s.Before = a
	}
	if a := b.pipeline(v.user[tAction], tAction); a != nil {
		s.Action = a
	}
	opts = append(opts, s)
	if a := b.pipeline(v.user[tAfter], tAfter); a != nil {
		opts = append(opts, cli.After(a))
	}
	for _, a := range v.args {
		b.build(a)
		arg := a.arg
		if a.always {
			arg.Options |= cli.Trigger
		}
		switch a.how {
		case 0:
			switch x := v.val.(type) {
			case *avalue:
				x.args = append(x.args, arg)
			case *bvalue:
				x.args = append(x.args, arg)
			}
		case 1:
			opts = append(opts, cli.AddArg(arg))
		case 2:
			opts = append(opts, cli.AddArgs(arg))
		case 3:
			opts = append(opts, cli.ActionOf(func(c *cli.Context) error { return c.AddArg(arg) }))
		}
	}
	if a := b.pipeline(v.user[tInit], tInit); a != nil {
		opts = append(opts, a)
	}
	val, name := v.val, strings.Trim(v.name, "<->")
	switch v.how {
	case 1:
		return cli.ActionOf(func(c *cli.Context) error { return c.ProvideValueInitializer(val, name, opts...) })
	case 2:
		return cli.Setup{Uses: cli.ProvideValueInitializer(val, name, opts...)}
	case 3:
		return cli.Initializer(cli.ProvideValueInitializer(val, name, cli.Pipeline(nil, cli.ActionPipeline(opts))))
	}
	return cli.ProvideValueInitializer(val, name, opts...)
}

// valueCheck finds what is wrong with the context in which an event occurs
func valueCheck(root *ptgt) func(*cli.Context, int) string {
	byName := map[string]*ptgt{}
	root.walk(func(t *ptgt) { byName[t.name] = t })
	return func(c *cli.Context, at int) string {
		if msg := timingCheck(c, at); msg != "" {
			return msg
		}
		path := c.Path()
		if t := byName[path[len(path)-1]]; t != nil && at != tInit {
			for _, v := range t.values {
				got, ok := c.LookupValueTarget(strings.Trim(v.name, "<->"))
				if !ok || got != v.val {
					return fmt.Sprintf("LookupValueTarget(%q) is %v, %v", v.name, got, ok)
				}
			}
			if _, ok := c.LookupValueTarget("no-such"); ok {
				return "LookupValueTarget finds what is not there"
			}
		}
		last := path[len(path)-1]
		if !strings.HasPrefix(last, "<-") {
			return ""
		}
		v := byName[last]
		if c.Name() != last {
			return "Name is " + c.Name()
		}
		if got := c.Target(); got != v.val {
			return fmt.Sprintf("Target is %v", got)
		}
		if got, ok := c.LookupValueTarget(""); !ok || got != v.val {
			return fmt.Sprintf("LookupValueTarget is %v, %v", got, ok)
		}
		if !c.HasValue() || c.IsCommand() || c.IsFlag() || c.IsArg() {
			return fmt.Sprintf("HasValue, IsCommand, IsFlag, IsArg are %v, %v, %v, %v", c.HasValue(), c.IsCommand(), c.IsFlag(), c.IsArg())
		}
		if p := c.Parent(); p == nil || p.Name() != path[len(path)-2] {
			return "Parent is another one"
		}
		if at != tInit {
			var names []string
			for _, a := range c.LocalArgs() {
				names = append(names, "<"+a.Name+">")
			}
			var want []string
			for _, a := range v.args {
				want = append(want, a.name)
			}
			if fmt.Sprint(names) != fmt.Sprint(want) {
				return fmt.Sprintf("LocalArgs are %v, want %v", names, want)
			}
		}
		return ""
	}
}

// TestP37_Order: what initializes and runs for a value is that of its flag, arg or command.
func TestP37_Order(t *testing.T) {
	pbt.Run(t, "random trees of up to 3 levels of commands as for P10 whose commands, flags and args provide up to 2 value initializers each, in 5 ways, for values with and without args, whose actions are for all timings; some actions fail; non-trivial: an action of a value or of its args runs", 3000, func(c *pbt.C) {
		g := &pgen{t: c.T, values: true}
		ids := 0
		root := g.tree(nil, "app", 2, &ids)
		steps, tokens := g.steps(root)
		all := root.events()
		if rapid.IntRange(0, 3).Draw(c.T, "fails") == 3 && len(all) > 0 {
			e := rapid.SampledFrom(all).Draw(c.T, "fails")
			e.err = &plainError{e.id}
		}
		root.show(c, "")
		c.Showf("tokens %q", tokens)
		b := &pbuilder{check: valueCheck(root)}
		app := b.app(root)
		err := run(app, tokens...)

		var want ptrace
		want.init(root)
		want.execute(steps)
		for _, e := range want.events {
			if strings.Contains(e, "<-") && !strings.HasSuffix(e, timingNames[tInit]) {
				c.NonTrivial()
			}
		}
		if err != want.err {
			c.Failf("error %v, want %v", err, want.err)
		}
		if d := diffTrace(b.trace.events, want.events); d != "" {
			c.Failf("%s", d)
		}
	})
}

// metaText are the texts which can be set on a value
type metaText struct {
	Help, Manual, Usage, Category, Default string
	Desc                                   any
	Aliases                                []string
	Data                                   map[string]any
	Hidden                                 string // the calls of SetHidden end with
}

type mfull struct{ m metaText }

func (v *mfull) SetHelpText(s string)       { v.m.Help = s }
func (v *mfull) SetManualText(s string)     { v.m.Manual = s }
func (v *mfull) SetUsageText(s string)      { v.m.Usage = s }
func (v *mfull) SetCategory(s string)       { v.m.Category = s }
func (v *mfull) SetDefaultText(s string)    { v.m.Default = s }
func (v *mfull) SetDescription(s any)       { v.m.Desc = s }
func (v *mfull) SetAliases(a []string)      { v.m.Aliases = a }
func (v *mfull) SetHidden(b bool)           { v.m.Hidden = fmt.Sprint(b) }
func (v *mfull) SetData(name string, x any) { v.m.Data[name] = x }
func (v *mfull) LookupData(name string) (any, bool) {
	x, ok := v.m.Data[name]
	return x, ok
}

// mtext is one whose description is text
type mtext struct{ m metaText }

func (v *mtext) SetHelpText(s string)    { v.m.Help = s }
func (v *mtext) SetDescription(s string) { v.m.Desc = s }
func (v *mtext) SetCategory(s string)    { v.m.Category = s }

// TestP37_Meta: actions which describe a value are calls of its methods.
func TestP37_Meta(t *testing.T) {
	fields := []string{"help", "manual", "usage", "category", "desc", "data", "hidden", "visible", "alias"}
	pfields := []string{"help", "manual", "usage", "category", "desc", "data", "default", "aliases", "hidden"}
	pbt.Run(t, "values with all, some and none of the methods, in a flag, arg or command, initialized by up to 8 actions (the descriptive actions, as actions and methods, and Prototypes, of fields in any order and number); data is looked up in all hooks of the value and its host; non-trivial: a Prototype and another action, or a field set twice", 4000, func(c *pbt.C) {
		type op struct {
			field, text string
			method      bool
			proto       map[string]string
		}
		var ops []op
		inProto, explicit := map[string]bool{}, map[string]int{}
		n := rapid.IntRange(1, 8).Draw(c.T, "nops")
		protos := 0
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 2).Draw(c.T, "proto") == 0 {
				o := op{proto: map[string]string{}}
				for _, f := range pfields {
					// only one of the Prototypes sets a field, which nothing else does
					if rapid.IntRange(0, 2).Draw(c.T, "has") == 0 && !inProto[f] && explicit[f] == 0 && f != "data" && f != "hidden" || (f == "data" || f == "hidden") && rapid.IntRange(0, 3).Draw(c.T, "has") == 0 {
						inProto[f] = true
						o.proto[f] = fmt.Sprintf("proto %s %d", f, i)
					}
				}
				protos++
				ops = append(ops, o)
				continue
			}
			f := rapid.SampledFrom(fields).Draw(c.T, "field")
			if inProto[f] && f != "data" && f != "hidden" {
				continue
			}
			explicit[f]++
			ops = append(ops, op{field: f, text: fmt.Sprintf("%s %d", f, i), method: rapid.Bool().Draw(c.T, "method")})
		}
		name := rapid.SampledFrom([]string{"val", "_val", "v-1"}).Draw(c.T, "name")
		kind := rapid.IntRange(0, 4).Draw(c.T, "kind")
		hostKind := rapid.SampledFrom([]string{"flag", "arg", "command"}).Draw(c.T, "host")
		c.Showf("ops %+v, value %q of kind %d in %s", ops, name, kind, hostKind)

		full, text := &mfull{metaText{Data: map[string]any{}}}, &mtext{}
		var v any
		switch kind {
		case 0, 1, 2:
			v = full
		case 3:
			v = text
		case 4:
			v = rapid.SampledFrom([]any{nil, 5, "text", &otherValue{}}).Draw(c.T, "plain")
		}
		want := metaText{Data: map[string]any{}}
		hidden, explicitVisible := false, false
		var actions []cli.Action
		set := func(f, s string) {
			switch f {
			case "help":
				want.Help = s
			case "manual":
				want.Manual = s
			case "usage":
				want.Usage = s
			case "category":
				want.Category = s
			case "default":
				want.Default = s
			case "desc":
				want.Desc = s
			case "aliases":
				want.Aliases = []string{s, s + "2"}
			case "data":
				want.Data[s[len(s)-1:]] = s
				want.Data["k"] = s
			case "hidden":
				hidden = true
			case "visible":
				hidden, explicitVisible = false, true
			}
		}
		for _, o := range ops {
			o := o
			if o.proto != nil {
				p := cli.Prototype{HelpText: o.proto["help"], ManualText: o.proto["manual"], UsageText: o.proto["usage"], Category: o.proto["category"], DefaultText: o.proto["default"]}
				if s := o.proto["desc"]; s != "" {
					p.Description = s
				}
				if s := o.proto["aliases"]; s != "" {
					p.Aliases = []string{s, s + "2"}
				}
				if s := o.proto["data"]; s != "" {
					p.Data = map[string]any{s[len(s)-1:]: s, "k": s}
				}
				if o.proto["hidden"] != "" {
					p.Options |= cli.Hidden
				}
				for _, f := range pfields {
					if s := o.proto[f]; s != "" {
						set(f, s)
					}
				}
				actions = append(actions, p)
				continue
			}
			set(o.field, o.text)
			var a cli.Action
			var fn func(*cli.Context) error
			s := o.text
			switch o.field {
			case "help":
				a, fn = cli.HelpText(s), func(c *cli.Context) error { return c.SetHelpText(s) }
			case "manual":
				a, fn = cli.ManualText(s), func(c *cli.Context) error { return c.SetManualText(s) }
			case "usage":
				a, fn = cli.UsageText(s), func(c *cli.Context) error { return c.SetUsageText(s) }
			case "category":
				a, fn = cli.Category(s), func(c *cli.Context) error { return c.SetCategory(s) }
			case "desc":
				a, fn = cli.Description(s), func(c *cli.Context) error { return c.SetDescription(s) }
			case "data":
				a = cli.Pipeline(cli.Data(s[len(s)-1:], s), cli.Data("k", s))
				fn = func(c *cli.Context) error {
					c.SetData("k", s)
					return c.SetData(s[len(s)-1:], s)
				}
			case "hidden":
				a, fn = cli.Hidden, func(c *cli.Context) error { return c.Do(cli.Hidden) }
			case "visible":
				a, fn = cli.Visible, func(c *cli.Context) error { return c.Do(cli.Visible) }
			case "alias": // which is documented to be ignored
				a, fn = cli.Alias(s), func(c *cli.Context) error { return c.AddAlias(s) }
			}
			if o.method {
				a = cli.ActionOf(fn)
			}
			actions = append(actions, a)
		}
		if strings.HasPrefix(name, "_") && !explicitVisible {
			hidden = true
		}
		want.Hidden = fmt.Sprint(hidden)
		for _, k := range explicit {
			if k > 1 {
				c.NonTrivial()
			}
		}
		if protos > 0 && len(ops) > protos {
			c.NonTrivial()
		}

		var wrong []string
		hook := func(where string, initializing bool) cli.Action {
			return cli.ActionOf(func(ctx *cli.Context) {
				look := func(k string, wantV any, wantOK bool) {
					if got, ok := ctx.LookupData(k); got != wantV || ok != wantOK {
						wrong = append(wrong, fmt.Sprintf("in %s, LookupData(%q) is %v, %v, want %v, %v", where, k, got, ok, wantV, wantOK))
					}
				}
				look("of-host", "host", true)
				look("nothing", nil, false)
				if !strings.HasPrefix(ctx.Name(), "<-") {
					return
				}
				for k, x := range want.Data {
					if kind > 2 {
						look(k, nil, false)
					} else {
						look(k, x, true)
					}
				}
			})
		}
		actions = append(actions, cli.Setup{Before: hook("Before", false), Action: hook("Action", false), After: hook("After", false), Uses: hook("Uses", false)})
		uses := cli.Pipeline(cli.Data("of-host", "host"), cli.ProvideValueInitializer(v, name, actions...))
		app := newApp("app")
		var desc []any
		host := cli.Setup{Uses: uses, Before: hook("host's Before", false), Action: cli.Pipeline(hook("host's Action", false), func(ctx *cli.Context) {
			// the host is not described
			desc = append(desc, ctx.HelpText(), ctx.ManualText(), ctx.UsageText(), ctx.Category(), ctx.Description())
		}), After: hook("host's After", false)}
		switch hostKind {
		case "flag":
			app.Flags = []*cli.Flag{{Name: "f", Uses: host, Value: new(string)}}
		case "arg":
			app.Args = []*cli.Arg{{Name: "f", Uses: host, Value: new(string)}}
		case "command":
			app.Commands = []*cli.Command{{Name: "f", Uses: host}}
		}
		tokens := map[string][]string{"flag": {"--f", "x"}, "arg": {"x"}, "command": {"f"}}[hostKind]
		if err := run(app, tokens...); err != nil {
			c.Failf("error %v", err)
		}
		if len(wrong) > 0 {
			c.Failf("%s", strings.Join(wrong, "\n"))
		}
		for _, d := range desc {
			if d != "" && d != nil {
				c.Failf("the host has %q", desc)
			}
		}
		if len(desc) != 5 {
			c.Failf("the Action of the host ran %d times", len(desc)/5)
		}
		switch kind {
		case 0, 1, 2:
			if got := full.m; fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", want) {
				c.Failf("the value has %#v\nwant %#v", got, want)
			}
		case 3:
			w := metaText{Help: want.Help, Desc: want.Desc, Category: want.Category}
			if got := text.m; fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", w) {
				c.Failf("the value has %#v\nwant %#v", got, w)
			}
		}
	})
}
