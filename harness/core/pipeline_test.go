package core

import (
	"context"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// The trace model. Every action that the generated app contains logs an event
// and may register other actions; the model says in which order these happen.

const (
	tInit = iota
	tBefore
	tAction
	tAfter
)

var timings = []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}
var timingNames = []string{"init", "before", "action", "after"}

type pev struct {
	id   string
	regs []preg
	err  error
}

type preg struct {
	at  int
	how int
	e   *pev
}

type phook struct {
	at      int
	pattern string
	e       *pev
}

type ptgt struct {
	kind   string // cmd flag arg value
	name   string // in the path
	path   []string
	user   [4][]*pev
	hooks  []phook
	flags  []*ptgt
	args   []*ptgt
	subs   []*ptgt
	values []*ptgt // which are initialized by this one
	parent *ptgt

	count, triggered int
	deferred         [4][]*pev
	usedValidators   []*pev
	always           bool // its Action is requested by Trigger
	how              int  // how the value is provided, or how its args are added
	val              any

	flag *cli.Flag
	arg  *cli.Arg
	cmd  *cli.Command
}

type ptrace struct {
	events []string
	err    error // the first error of an event

	parseFailed bool
}

func (tr *ptrace) add(id string, path []string, at int) {
	tr.events = append(tr.events, id+"@"+strings.Join(path, " ")+"/"+timingNames[at])
}

// run is what an event does in the model
func (tr *ptrace) run(e *pev, t *ptgt, path []string, at int) {
	if tr.err != nil {
		return
	}
	tr.add(e.id, path, at)
	for _, r := range e.regs {
		if tr.err != nil {
			return
		}
		if r.at == at {
			tr.run(r.e, t, path, at)
		} else {
			t.deferred[r.at] = append(t.deferred[r.at], r.e)
		}
	}
	if tr.err == nil && e.err != nil {
		tr.err = e.err
	}
}

func (tr *ptrace) runAll(es []*pev, t *ptgt, at int) {
	for _, e := range es {
		tr.run(e, t, t.path, at)
	}
}

// pmatch is the documented pattern syntax of context paths
func pmatch(pattern string, path []string) bool {
	parts := strings.Fields(pattern)
	if len(parts) > len(path) {
		return false
	}
	path = path[len(path)-len(parts):]
	for i, p := range parts {
		f := path[i]
		isFlag, isArg := strings.HasPrefix(f, "-"), strings.HasPrefix(f, "<") && !strings.HasPrefix(f, "<-")
		ok := false
		switch p {
		case "*":
			ok = !isFlag && !strings.HasPrefix(f, "<")
		case "-", "--":
			ok = isFlag
		case "<>":
			ok = isArg
		default:
			ok = p == f || strings.HasPrefix(p, "-") && "-"+p == f
		}
		if !ok {
			return false
		}
	}
	return true
}

func (tr *ptrace) hooks(owner, t *ptgt, at int) {
	for _, h := range owner.hooks {
		if h.at == at && (h.pattern == "" || pmatch(h.pattern, t.path)) {
			if tr.err != nil {
				return
			}
			tr.add(h.e.id, t.path, at)
			if h.e.err != nil {
				tr.err = h.e.err
			}
		}
	}
}

func (t *ptgt) ancestors() []*ptgt { // nearest first
	var res []*ptgt
	for p := t.parent; p != nil; p = p.parent {
		res = append(res, p)
	}
	return res
}

func (tr *ptrace) init(t *ptgt) {
	a := t.ancestors()
	for i := len(a) - 1; i >= 0; i-- {
		tr.hooks(a[i], t, tInit)
	}
	if t.kind == "value" {
		// it has nothing but the actions which initialize it
		for _, at := range []int{tBefore, tAction, tAfter} {
			t.deferred[at] = append(t.deferred[at], t.user[at]...)
			t.user[at] = nil
		}
	}
	tr.runAll(t.user[tInit], t, tInit)
	for _, l := range [][]*ptgt{t.flags, t.args, t.subs, t.values} {
		for _, x := range l {
			tr.init(x)
		}
	}
}

func (tr *ptrace) before(t *ptgt, given ...*ptgt) {
	if t.kind == "cmd" {
		tr.hooks(t, t, tBefore)
	} else {
		tr.runAll(t.usedValidators, t, tBefore)
	}
	tr.runAll(t.deferred[tBefore], t, tBefore)
	tr.runAll(t.user[tBefore], t, tBefore)
	// flags of outer commands which this command is given are validated
	a := t.ancestors()
	for i := len(a) - 1; i >= 0; i-- {
		for _, f := range a[i].flags {
			for _, g := range given {
				if f == g {
					for _, e := range f.usedValidators {
						tr.run(e, f, append(append([]string(nil), t.path...), f.name), tBefore)
					}
					break
				}
			}
		}
	}
	for _, x := range t.flags {
		tr.before(x)
	}
	for _, x := range t.args {
		tr.before(x)
	}
	for _, x := range t.values {
		tr.before(x)
	}
	for _, a := range t.ancestors() {
		tr.hooks(a, t, tBefore)
	}
}

func (tr *ptrace) after(t *ptgt) {
	a := t.ancestors()
	for i := len(a) - 1; i >= 0; i-- {
		tr.hooks(a[i], t, tAfter)
	}
	if t.kind == "cmd" {
		tr.hooks(t, t, tAfter)
	}
	tr.runAll(t.deferred[tAfter], t, tAfter)
	tr.runAll(t.user[tAfter], t, tAfter)
	for _, x := range t.flags {
		tr.after(x)
	}
	for _, x := range t.args {
		tr.after(x)
	}
	for _, x := range t.values {
		tr.after(x)
	}
}

// trigger runs the Action of a flag or arg in the context of the command that is running
func (tr *ptrace) trigger(t, cmd *ptgt) {
	if t.count > t.triggered {
		t.triggered = t.count
		path := append(append([]string(nil), cmd.path...), t.name)
		for _, es := range [][]*pev{t.deferred[tAction], t.user[tAction]} {
			for _, e := range es {
				tr.run(e, t, path, tAction)
			}
		}
		for _, v := range t.values {
			tr.triggerValue(v, path)
		}
	}
}

// triggerValue runs the Action of a value and of its args which request it
func (tr *ptrace) triggerValue(v *ptgt, path []string) {
	path = append(append([]string(nil), path...), v.name)
	for _, a := range v.args {
		if a.always {
			apath := append(append([]string(nil), path...), a.name)
			for _, es := range [][]*pev{a.deferred[tAction], a.user[tAction]} {
				for _, e := range es {
					tr.run(e, a, apath, tAction)
				}
			}
		}
	}
	for _, e := range v.deferred[tAction] {
		tr.run(e, v, path, tAction)
	}
}

// step is what one command of the command line is given
type pstep struct {
	t     *ptgt
	bad   bool // does not parse
	flags []*ptgt
	args  []*ptgt
}

func (tr *ptrace) execute(steps []pstep) {
	t := steps[0].t
	if tr.err != nil {
		return
	}
	if steps[0].bad {
		tr.parseFailed = true
		return
	}
	for _, f := range steps[0].flags {
		f.count++
	}
	for _, a := range steps[0].args {
		a.count++
	}
	tr.before(t, steps[0].flags...)
	if tr.err != nil {
		return
	}
	anc := t.ancestors()
	for i := len(anc) - 1; i >= 0; i-- {
		for _, f := range anc[i].flags {
			tr.trigger(f, t)
		}
	}
	for _, f := range t.flags {
		tr.trigger(f, t)
	}
	for _, a := range t.args {
		tr.trigger(a, t)
	}
	if len(steps) > 1 {
		if tr.err == nil {
			tr.execute(steps[1:])
		}
		if tr.err != nil || tr.parseFailed {
			return
		}
		for _, v := range t.values {
			tr.triggerValue(v, t.path)
		}
	} else {
		for _, v := range t.values {
			tr.triggerValue(v, t.path)
		}
		tr.runAll(t.deferred[tAction], t, tAction)
		tr.runAll(t.user[tAction], t, tAction)
	}
	if tr.err != nil || tr.parseFailed {
		return
	}
	tr.after(t)
}

type pgen struct {
	t *rapid.T
	n int

	values bool // whether targets initialize values
}

func (g *pgen) ev(prefix string, at, depth int) *pev {
	g.n++
	e := &pev{id: fmt.Sprintf("%s%d", prefix, g.n)}
	if depth > 0 && rapid.IntRange(0, 2).Draw(g.t, "registers") == 0 {
		for i, n := 0, rapid.IntRange(1, 2).Draw(g.t, "nreg"); i < n; i++ {
			to := rapid.IntRange(at, tAfter).Draw(g.t, "regAt")
			e.regs = append(e.regs, preg{at: to, how: rapid.IntRange(0, 5).Draw(g.t, "how"), e: g.ev("r", to, depth-1)})
		}
	}
	return e
}

func (g *pgen) evs(prefix string, at int) (res []*pev) {
	for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(g.t, "n"+prefix); i < n; i++ {
		res = append(res, g.ev(prefix, at, 2))
	}
	return
}

func (g *pgen) fill(t *ptgt) {
	t.user[tInit] = g.evs("u", tInit)
	t.user[tBefore] = g.evs("b", tBefore)
	t.user[tAction] = g.evs("x", tAction)
	t.user[tAfter] = g.evs("f", tAfter)
}

func (g *pgen) tree(parent *ptgt, name string, depth int, ids *int) *ptgt {
	t := &ptgt{kind: "cmd", name: name, parent: parent}
	if parent != nil {
		t.path = append(append([]string(nil), parent.path...), name)
	} else {
		t.path = []string{name}
	}
	g.fill(t)
	g.giveValues(t, ids)
	child := func(kind, name string) *ptgt {
		c := &ptgt{kind: kind, name: name, parent: t, path: append(append([]string(nil), t.path...), name)}
		g.fill(c)
		if rapid.IntRange(0, 2).Draw(g.t, "hasValidator") == 0 {
			g.n++
			c.usedValidators = append(c.usedValidators, &pev{id: fmt.Sprintf("v%d", g.n)})
		}
		g.giveValues(c, ids)
		return c
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(g.t, "nflags"); i < n; i++ {
		*ids++
		t.flags = append(t.flags, child("flag", fmt.Sprintf("--flag%d", *ids)))
	}
	if depth > 0 && rapid.Bool().Draw(g.t, "hasSubs") {
		for i, n := 0, rapid.IntRange(1, 2).Draw(g.t, "nsubs"); i < n; i++ {
			*ids++
			t.subs = append(t.subs, g.tree(t, fmt.Sprintf("sub%d", *ids), depth-1, ids))
		}
		if len(t.user[tAction]) == 0 {
			t.user[tAction] = append(t.user[tAction], g.ev("x", tAction, 1))
		}
	} else {
		for i, n := 0, rapid.IntRange(0, 2).Draw(g.t, "nargs"); i < n; i++ {
			*ids++
			t.args = append(t.args, child("arg", fmt.Sprintf("<arg%d>", *ids)))
		}
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(g.t, "nhooks"); i < n; i++ {
		g.n++
		t.hooks = append(t.hooks, phook{
			at:      rapid.SampledFrom([]int{tInit, tBefore, tBefore, tAfter, tAfter}).Draw(g.t, "hookAt"),
			pattern: rapid.SampledFrom([]string{"*", "-", "<>", "app *", "app", "* -", "* <>", "sub1", "sub2", "sub2 -", "app sub3", "-flag1", "--flag2", "-flag3", "app -", "sub3 <>", "* *", "* * *", ""}).Draw(g.t, "pattern"),
			e:       &pev{id: fmt.Sprintf("h%d", g.n)},
		})
	}
	return t
}

func (t *ptgt) walk(fn func(*ptgt)) {
	fn(t)
	for _, l := range [][]*ptgt{t.flags, t.args, t.subs, t.values} {
		for _, x := range l {
			x.walk(fn)
		}
	}
}

// builder makes the real app
type pbuilder struct {
	trace ptrace
	check func(*cli.Context, int) string
}

func (b *pbuilder) action(e *pev, at int) cli.Action {
	return cli.ActionOf(func(ctx *cli.Context) error {
		path := []string(ctx.Path())
		if strings.HasPrefix(e.id, "h") {
			// hooks also run for what is built in
			switch path[len(path)-1] {
			case "", "help", "--help", "version", "--version", "--zsh-completion", "<command>", "<topic>":
				return nil
			}
			if len(path) > 1 {
				switch path[len(path)-2] {
				case "help", "version":
					return nil
				}
			}
		}
		b.trace.add(e.id, path, at)
		if msg := b.check(ctx, at); msg != "" {
			b.trace.events = append(b.trace.events, "WRONG: "+msg)
		}
		for _, r := range e.regs {
			a := b.action(r.e, r.at)
			var err error
			switch {
			case r.how == 0:
				err = ctx.At(timings[r.at], a)
			case r.how == 1:
				err = ctx.Do(cli.At(timings[r.at], a))
			case r.how == 2 && r.at == tBefore:
				err = ctx.Before(a)
			case r.how == 2 && r.at == tAfter:
				err = ctx.After(a)
			case r.how == 2 && r.at == tAction:
				err = ctx.Action(a)
			case r.how == 3:
				s := cli.Setup{}
				switch r.at {
				case tInit:
					s.Uses = a
				case tBefore:
					s.Before = a
				case tAction:
					s.Action = a
				case tAfter:
					s.After = a
				}
				err = ctx.Do(s)
			case r.how == 4 && r.at == tBefore:
				err = cli.Before(a).Execute(ctx)
			case r.how == 4 && r.at == tAfter:
				err = cli.Do(ctx, cli.After(a))
			default:
				err = cli.Do(ctx, cli.Pipeline(nil, cli.At(timings[r.at], cli.Pipeline(a, nil))))
			}
			if err != nil {
				return err
			}
		}
		return e.err
	})
}

func (b *pbuilder) pipeline(es []*pev, at int) cli.Action {
	if len(es) == 0 {
		return nil
	}
	var p cli.ActionPipeline
	for _, e := range es {
		p = append(p, b.action(e, at))
	}
	if len(p) == 1 {
		return p[0]
	}
	return p
}

func (b *pbuilder) uses(t *ptgt) cli.Action {
	var p cli.ActionPipeline
	for _, h := range t.hooks {
		a := b.action(h.e, h.at)
		switch {
		case h.at == tBefore && h.pattern != "":
			p = append(p, cli.HookBefore(h.pattern, a))
		case h.at == tAfter && h.pattern != "":
			p = append(p, cli.HookAfter(h.pattern, a))
		case h.pattern == "":
			p = append(p, cli.Hook(timings[h.at], a))
		default:
			p = append(p, cli.Hook(timings[h.at], cli.IfMatch(cli.PatternFilter(h.pattern), a)))
		}
	}
	for _, v := range t.usedValidators {
		p = append(p, cli.At(cli.ValidatorTiming, b.action(v, tBefore)))
	}
	if u := b.pipeline(t.user[tInit], tInit); u != nil {
		p = append(p, u)
	}
	for _, v := range t.values {
		if v.how < 4 {
			p = append(p, b.provide(v))
		}
	}
	if len(p) == 0 {
		return nil
	}
	return p
}

func (b *pbuilder) build(t *ptgt) {
	before, action, after := b.pipeline(t.user[tBefore], tBefore), b.pipeline(t.user[tAction], tAction), b.pipeline(t.user[tAfter], tAfter)
	switch t.kind {
	case "flag":
		t.flag = &cli.Flag{Name: strings.TrimLeft(t.name, "-"), Value: b.valueOf(t), Uses: b.uses(t), Before: before, Action: action, After: after}
	case "arg":
		t.arg = &cli.Arg{Name: strings.Trim(t.name, "<>"), Value: b.valueOf(t), Uses: b.uses(t), Before: before, Action: action, After: after}
	case "cmd":
		t.cmd = &cli.Command{Name: t.name, Uses: b.uses(t), Before: before, Action: action, After: after}
		for _, f := range t.flags {
			b.build(f)
			t.cmd.Flags = append(t.cmd.Flags, f.flag)
		}
		for _, a := range t.args {
			b.build(a)
			t.cmd.Args = append(t.cmd.Args, a.arg)
		}
		for _, s := range t.subs {
			b.build(s)
			t.cmd.Subcommands = append(t.cmd.Subcommands, s.cmd)
		}
	}
}

func (t *ptgt) show(c *pbt.C, indent string) {
	var parts []string
	ids := func(label string, es []*pev) {
		if len(es) == 0 {
			return
		}
		var f func(e *pev) string
		f = func(e *pev) string {
			s := e.id
			if e.err != nil {
				s += "!"
			}
			for _, r := range e.regs {
				s += fmt.Sprintf("[%s/%d: %s]", timingNames[r.at], r.how, f(r.e))
			}
			return s
		}
		s := label + "="
		for _, e := range es {
			s += f(e) + " "
		}
		parts = append(parts, s)
	}
	for _, h := range t.hooks {
		err := ""
		if h.e.err != nil {
			err = "!"
		}
		parts = append(parts, fmt.Sprintf("hook %s%s %s %q", h.e.id, err, timingNames[h.at], h.pattern))
	}
	ids("validators", t.usedValidators)
	for i, es := range t.user {
		ids(timingNames[i], es)
	}
	if t.always {
		parts = append(parts, "Trigger")
	}
	if t.kind == "value" || t.how != 0 {
		parts = append(parts, fmt.Sprintf("%T, way %d", t.val, t.how))
	}
	c.Showf("%s%s: %s", indent, t.name, strings.Join(parts, ", "))
	for _, l := range [][]*ptgt{t.flags, t.args, t.subs, t.values} {
		for _, x := range l {
			x.show(c, indent+"  ")
		}
	}
}

// steps draws a command line
func (g *pgen) steps(root *ptgt) (steps []pstep, tokens []string) {
	t := root
	var scope []*ptgt
	for {
		s := pstep{t: t}
		scope = append(scope, t.flags...)
		for i, n := 0, rapid.IntRange(0, 2).Draw(g.t, "nuse"); i < n && len(scope) > 0; i++ {
			f := rapid.SampledFrom(scope).Draw(g.t, "use")
			s.flags = append(s.flags, f)
			tokens = append(tokens, f.name+"=v")
		}
		for i, n := 0, rapid.IntRange(0, len(t.args)).Draw(g.t, "nargUse"); i < n; i++ {
			s.args = append(s.args, t.args[i])
			tokens = append(tokens, "v")
		}
		steps = append(steps, s)
		if len(t.subs) == 0 || rapid.IntRange(0, 3).Draw(g.t, "stop") == 0 {
			return
		}
		t = rapid.SampledFrom(t.subs).Draw(g.t, "sub")
		tokens = append(tokens, t.name)
	}
}

func (b *pbuilder) app(root *ptgt) *cli.App {
	b.build(root)
	app := newApp("app")
	r := root.cmd
	app.Uses, app.Before, app.Action, app.After = r.Uses, r.Before, r.Action, r.After
	app.Flags, app.Args, app.Commands = r.Flags, r.Args, r.Subcommands
	return app
}

func timingCheck(ctx *cli.Context, at int) string {
	got := []bool{ctx.IsInitializing(), ctx.IsBefore(), ctx.IsAction(), ctx.IsAfter()}
	for i, g := range got {
		if g != (i == at) {
			return fmt.Sprintf("IsInitializing, IsBefore, IsAction, IsAfter are %v", got)
		}
	}
	if ctx.Timing() != timings[at] {
		return fmt.Sprintf("Timing is %v", ctx.Timing())
	}
	if cli.FromContext(ctx) != ctx || cli.FromContext(context.WithValue(ctx, tKey{}, 1)) != ctx {
		return "FromContext does not give the context"
	}
	return ""
}

type tKey struct{}

func diffTrace(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("event %d is %s, want %s\ngot  %v\nwant %v", i, g, w, got, want)
		}
	}
	return ""
}

// TestP10_Trace: every action of an app runs when and as often as the pipelines say.
func TestP10_Trace(t *testing.T) {
	pbt.Run(t, "random trees of up to 3 levels of commands with flags and args, whose Uses, Before, Action, After, validators and hooks register further actions at later timings in 6 ways; non-trivial: a registered action, a hook or a sub-command is part of the run", 4000, func(c *pbt.C) {
		g := &pgen{t: c.T}
		ids := 0
		root := g.tree(nil, "app", 2, &ids)
		steps, tokens := g.steps(root)
		root.show(c, "")
		c.Showf("tokens %q", tokens)
		b := &pbuilder{check: timingCheck}
		app := b.app(root)
		err := run(app, tokens...)

		var want ptrace
		want.init(root)
		want.execute(steps)
		for _, e := range want.events {
			if e[0] == 'r' || e[0] == 'h' {
				c.NonTrivial()
			}
		}
		if len(steps) > 1 {
			c.NonTrivial()
		}
		if err != nil {
			c.Failf("error %v", err)
		}
		if d := diffTrace(b.trace.events, want.events); d != "" {
			c.Failf("%s", d)
		}
	})
}

// all events of a tree which can fail, with the registered ones
func (t *ptgt) events() (res []*pev) {
	var sub func(e *pev)
	sub = func(e *pev) {
		res = append(res, e)
		for _, r := range e.regs {
			sub(r.e)
		}
	}
	t.walk(func(x *ptgt) {
		for _, h := range x.hooks {
			sub(h.e)
		}
		for _, v := range x.usedValidators {
			sub(v)
		}
		for _, es := range x.user {
			for _, e := range es {
				sub(e)
			}
		}
	})
	return
}

type plainError struct{ id string }

func (p *plainError) Error() string { return "error of " + p.id }

// TestP11_Errors: the first error ends the run and is its result.
func TestP11_Errors(t *testing.T) {
	pbt.Run(t, "random trees of commands (as for P10) in which one to three actions, hooks or validators fail with a plain error, an ExitCoder or a ParseError, or in which the command line of one of the commands does not parse; non-trivial: the run fails", 4000, func(c *pbt.C) {
		g := &pgen{t: c.T}
		ids := 0
		root := g.tree(nil, "app", 2, &ids)
		steps, tokens := g.steps(root)
		all := root.events()
		wantCode := map[error]int{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nfail"); i < n && len(all) > 0; i++ {
			e := rapid.SampledFrom(all).Draw(c.T, "fails")
			if e.err != nil {
				continue
			}
			switch rapid.IntRange(0, 4).Draw(c.T, "errKind") {
			case 0, 1:
				e.err = &plainError{e.id}
				wantCode[e.err] = 1
			case 2:
				n := rapid.IntRange(0, 130).Draw(c.T, "code")
				e.err = cli.Exit("message of "+e.id, n)
				wantCode[e.err] = n
			case 3:
				e.err = &cli.ParseError{Code: cli.InvalidArgument, Name: e.id}
				wantCode[e.err] = 2
			case 4:
				e.err = cli.Exit(fmt.Sprintf("message of %s", e.id))
				wantCode[e.err] = 1
			}
		}
		bad := -1
		if rapid.IntRange(0, 3).Draw(c.T, "badLine") == 0 {
			bad = len(steps) - 1
			tokens = append(tokens, "--not-a-flag")
		}
		root.show(c, "")
		c.Showf("tokens %q", tokens)
		b := &pbuilder{check: timingCheck}
		app := b.app(root)

		var want ptrace
		want.init(root)
		parseFails := false
		if want.err == nil {
			if bad >= 0 {
				steps[bad].bad = true
			}
			want.execute(steps)
			parseFails = want.parseFailed
		}

		handled := 0
		var gotCode int
		var gotMsg string
		saved := cli.ExitHandler
		defer func() { cli.ExitHandler = saved }()
		cli.ExitHandler = func(_ *cli.Context, msg string, code int) { handled++; gotCode = code; gotMsg = msg }
		viaRun := rapid.Bool().Draw(c.T, "viaRun")
		var err error
		if viaRun {
			app.Run(append([]string{"app"}, tokens...))
		} else {
			err = run(app, tokens...)
		}
		if d := diffTrace(b.trace.events, want.events); d != "" {
			c.Failf("%s", d)
		}
		if want.err != nil || parseFails {
			c.NonTrivial()
		}
		if viaRun {
			switch {
			case want.err == nil && !parseFails:
				if handled != 0 {
					c.Failf("the exit handler was called with %q, %d", gotMsg, gotCode)
				}
			case parseFails:
				if handled != 1 || gotCode != 2 || !strings.Contains(gotMsg, "not-a-flag") {
					c.Failf("the exit handler was called %d times with %q, %d", handled, gotMsg, gotCode)
				}
			default:
				if handled != 1 || gotCode != wantCode[want.err] || gotMsg != want.err.Error() {
					c.Failf("the exit handler was called %d times with %q, %d, want %q, %d", handled, gotMsg, gotCode, want.err, wantCode[want.err])
				}
			}
			return
		}
		if parseFails {
			pe, ok := err.(*cli.ParseError)
			if !ok || pe.Code != cli.UnknownOption || pe.Name != "--not-a-flag" || pe.ExitCode() != 2 {
				c.Failf("error %#v", err)
			}
			return
		}
		if want.err == nil {
			if err != nil {
				c.Failf("error %v", err)
			}
			return
		}
		if err != want.err {
			c.Failf("the error is %T %v, want %v", err, err, want.err)
		}
	})
}
