package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// A small language of composed actions and an interpreter for it.

type cnode struct {
	kind  string // leaf mw list nil suppress match at setup recover
	id    string
	form  int
	calls int
	swall bool
	err   error
	match int // 0 no, 1 yes, 2 nil filter
	at    int // index in ctimings
	opt   bool
	sub   []*cnode
	parts [4]*cnode
	// setup: what is added with Use, and whether it is in a Prototype
	use   []*cnode
	proto bool
	// match: the filter when it isn't a function, and whether to assert it
	timing cli.Timing
	modes  cli.FilterModes
	assert bool
}

// the filters which are used other than functions
var cmodes = []cli.FilterModes{
	cli.AnyFlag, cli.AnyArg, cli.AnyCommand, cli.Anything, cli.HasValue, cli.RootCommand,
	cli.AnyFlag | cli.HasValue, cli.AnyArg | cli.HasValue, cli.AnyFlag | cli.AnyCommand, cli.RootCommand | cli.AnyCommand, cli.RootCommand | cli.HasValue,
}

func (n *cnode) filter() cli.ContextFilter {
	switch n.match {
	case 2:
		return nil
	case 3:
		return n.timing
	case 4:
		return n.modes
	case 5:
		return cli.ContextFilterFunc(nil)
	}
	return cli.ContextFilterFunc(func(*cli.Context) bool { return n.match == 1 })
}

var ctimings = []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming, cli.ValidatorTiming, cli.ImplicitValueTiming}
var ctimingNames = []string{"Initial", "Before", "Action", "After", "Validator", "ImplicitValue"}

func cactual(at int) int {
	if at >= 4 {
		return tBefore
	}
	return at
}

func (n *cnode) String() string {
	if n == nil {
		return "-"
	}
	var subs []string
	for _, s := range n.sub {
		subs = append(subs, s.String())
	}
	in := strings.Join(subs, ", ")
	switch n.kind {
	case "leaf":
		if n.err != nil {
			return fmt.Sprintf("%s.%d!", n.id, n.form)
		}
		return fmt.Sprintf("%s.%d", n.id, n.form)
	case "mw":
		s := fmt.Sprintf("mw %s.%d calls next %dx", n.id, n.form, n.calls)
		if n.swall {
			s += " ignoring errors"
		}
		if n.err != nil {
			s += "!"
		}
		return "(" + s + ")"
	case "list":
		return []string{"ActionPipeline", "Pipeline", "Append", "Prepend"}[n.form] + "[" + in + "]"
	case "nil":
		return "nil"
	case "match":
		fn := "IfMatch"
		if n.assert {
			fn = "Assert"
		}
		f := []string{"no", "yes", "nil", n.timing.Describe(), n.modes.String(), "no function"}[n.match]
		return fn + "(" + f + ", " + in + ")"
	case "tsetup":
		return []string{"FlagSetup", "ArgSetup", "CommandSetup"}[n.form] + "(" + n.id + ")"
	case "panic":
		return "panic " + n.id
	case "at":
		return fmt.Sprintf("%s.%d(%s)", ctimingNames[n.at], n.form, in)
	case "setup":
		s := "Setup{"
		for i, p := range n.parts {
			if p != nil {
				s += []string{"Uses", "Before", "Action", "After"}[i] + ": " + p.String() + ", "
			}
		}
		if n.opt {
			s += "Optional"
		}
		s += "}"
		if n.proto {
			s = "Prototype{" + s + "}"
		}
		for _, u := range n.use {
			s += ".Use(" + u.String() + ")"
		}
		return s
	}
	return n.kind + "(" + in + ")"
}

type cgen struct {
	c *pbt.C
	n int
	// the parts at which middleware is allowed to be deferred to the Action
	noActionMW bool
	errs       bool
}

func (g *cgen) id() string { g.n++; return fmt.Sprintf("e%d", g.n) }

func (g *cgen) fault() error {
	if g.errs && rapid.IntRange(0, 9).Draw(g.c.T, "fails") == 0 {
		return fmt.Errorf("failure %d", g.n)
	}
	return nil
}

func (g *cgen) node(depth int, inAction bool) *cnode {
	t := g.c.T
	k := rapid.IntRange(0, 21).Draw(t, "kind")
	if k == 20 {
		return &cnode{kind: "tsetup", id: g.id(), form: rapid.IntRange(0, 2).Draw(t, "setup of")}
	}
	if depth <= 0 && k > 8 {
		k = k % 9
	}
	switch {
	case k <= 4:
		return &cnode{kind: "leaf", id: g.id(), form: rapid.IntRange(0, 7).Draw(t, "form"), err: g.fault()}
	case k <= 7:
		if inAction {
			return &cnode{kind: "leaf", id: g.id(), form: 0}
		}
		return &cnode{kind: "mw", id: g.id(), form: rapid.IntRange(0, 2).Draw(t, "form"),
			calls: rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "calls"),
			swall: rapid.IntRange(0, 3).Draw(t, "ignores") == 0, err: g.fault()}
	case k == 8:
		return &cnode{kind: "nil"}
	case k <= 12:
		n := &cnode{kind: "list", form: rapid.IntRange(0, 3).Draw(t, "ctor")}
		for i, m := 0, rapid.IntRange(0, 4).Draw(t, "len"); i < m; i++ {
			n.sub = append(n.sub, g.node(depth-1, inAction))
		}
		n.at = rapid.IntRange(0, len(n.sub)).Draw(t, "split")
		return n
	case k == 13:
		return &cnode{kind: "suppress", sub: []*cnode{g.node(depth-1, inAction)}}
	case k == 14:
		n := &cnode{kind: "recover", sub: []*cnode{g.node(depth-1, inAction)}}
		if rapid.IntRange(0, 3).Draw(t, "panics") == 1 {
			n.sub[0] = &cnode{kind: "list", form: 1, sub: []*cnode{n.sub[0], {kind: "panic", id: g.id(), form: rapid.IntRange(0, 1).Draw(t, "with")}}}
		}
		return n
	case k == 15:
		n := &cnode{kind: "match", match: rapid.IntRange(0, 5).Draw(t, "matches"), sub: []*cnode{g.node(depth-1, inAction)}}
		n.timing = rapid.SampledFrom(ctimings[:4]).Draw(t, "timing")
		n.modes = rapid.SampledFrom(cmodes).Draw(t, "modes")
		n.assert = n.match != 2 && rapid.IntRange(0, 3).Draw(t, "assert") == 1
		return n
	case k == 16:
		n := &cnode{kind: "setup", opt: rapid.Bool().Draw(t, "optional")}
		for i := range n.parts {
			if rapid.IntRange(0, 2).Draw(t, "part") == 0 {
				// a nil part is no part
				if p := g.node(depth-1, inAction || g.noActionMW && i == tAction); p.kind != "nil" {
					n.parts[i] = p
				}
			}
		}
		n.proto = rapid.IntRange(0, 3).Draw(t, "prototype") == 1
		for rapid.IntRange(0, 3).Draw(t, "use") == 1 {
			n.use = append(n.use, g.node(depth-1, inAction))
		}
		return n
	default:
		at := rapid.IntRange(0, 5).Draw(t, "at")
		return &cnode{kind: "at", at: at, form: rapid.IntRange(0, 2).Draw(t, "form"),
			sub: []*cnode{g.node(depth-1, inAction || g.noActionMW && at == tAction)}}
	}
}

// ---- the real thing

type clegacy struct{ f func(*cli.Context) error }

func (l clegacy) Execute(c *cli.Context) error { return l.f(c) }

type caction struct{ f func(context.Context) error }

func (l *caction) Execute(c context.Context) error { return l.f(c) }

type cmiddle struct {
	f func(context.Context, cli.Action) error
}

func (l *cmiddle) Execute(c context.Context) error                          { return l.f(c, nil) }
func (l *cmiddle) ExecuteWithNext(c context.Context, next cli.Action) error { return l.f(c, next) }

type creal struct{ events []string }

func (r *creal) log(s string, c context.Context) {
	if c != nil {
		tim := cli.FromContext(c).Timing()
		for i, t := range timings {
			if t == tim {
				s += "/" + timingNames[i]
			}
		}
	}
	r.events = append(r.events, s)
}

// build gives any of the forms that ActionOf takes
func (r *creal) build(n *cnode) any {
	switch n.kind {
	case "leaf":
		if n.err != nil {
			switch n.form % 4 {
			case 0:
				return func(c *cli.Context) error { r.log(n.id, c); return n.err }
			case 1:
				return func(c context.Context) error { r.log(n.id, c); return n.err }
			case 2:
				return func() error { r.log(n.id, nil); return n.err }
			default:
				return clegacy{func(c *cli.Context) error { r.log(n.id, c); return n.err }}
			}
		}
		switch n.form {
		case 0:
			return func(c *cli.Context) error { r.log(n.id, c); return nil }
		case 1:
			return func(c *cli.Context) { r.log(n.id, c) }
		case 2:
			return func(c context.Context) error { r.log(n.id, c); return nil }
		case 3:
			return func(c context.Context) { r.log(n.id, c) }
		case 4:
			return func() error { r.log(n.id, nil); return nil }
		case 5:
			return func() { r.log(n.id, nil) }
		case 6:
			return clegacy{func(c *cli.Context) error { r.log(n.id, c); return nil }}
		default:
			return &caction{func(c context.Context) error { r.log(n.id, c); return nil }}
		}
	case "mw":
		body := func(c context.Context, next cli.Action) error {
			r.log(n.id+"<", c)
			for i := 0; i < n.calls; i++ {
				if err := cli.Do(c, next); err != nil && !n.swall {
					return err
				}
			}
			r.log(n.id+">", c)
			return n.err
		}
		switch n.form {
		case 0:
			return func(c *cli.Context, next cli.Action) error { return body(c, next) }
		case 1:
			return func(next cli.Action) cli.Action {
				return cli.ActionFunc(func(c *cli.Context) error { return body(c, next) })
			}
		default:
			return &cmiddle{body}
		}
	case "nil":
		return nil
	case "list":
		if n.form == 1 {
			var all []any
			for _, s := range n.sub {
				all = append(all, r.build(s))
			}
			return cli.Pipeline(all...)
		}
		if n.form > 1 {
			// part of the list is appended or prepended to the pipeline of the rest;
			// the other pipelines made from it are different ones
			var parts [2][]any
			var actions []cli.Action
			for i, s := range n.sub {
				v := r.build(s)
				if (n.form == 2) == (i < n.at) {
					parts[0] = append(parts[0], v)
				} else {
					actions = append(actions, cli.ActionOf(v))
				}
			}
			other := cli.ActionOf(func() { r.log("other", nil) })
			p := cli.Pipeline(parts[0]...)
			extend := p.Append
			if n.form == 3 {
				extend = p.Prepend
			}
			extend(other, other)
			res := extend(actions...)
			extend(other)
			return res
		}
		p := cli.ActionPipeline{}
		for _, s := range n.sub {
			p = append(p, r.action(s))
		}
		return p
	case "suppress":
		return cli.SuppressError(r.action(n.sub[0]))
	case "recover":
		return cli.Recover(r.action(n.sub[0]))
	case "match":
		if n.assert {
			return cli.Assert(n.filter(), r.action(n.sub[0]))
		}
		return cli.IfMatch(n.filter(), r.action(n.sub[0]))
	case "tsetup":
		switch n.form {
		case 0:
			return cli.FlagSetup(func(f *cli.Flag) { r.log(n.id+" "+f.Name, nil) })
		case 1:
			return cli.ArgSetup(func(a *cli.Arg) { r.log(n.id+" "+a.Name, nil) })
		}
		return cli.CommandSetup(func(cmd *cli.Command) { r.log(n.id+" "+cmd.Name, nil) })
	case "panic":
		if n.form == 1 {
			return func() { panic(errors.New("panic of " + n.id)) }
		}
		return func() { panic("panic of " + n.id) }
	case "setup":
		s := cli.Setup{Optional: n.opt}
		for i, p := range n.parts {
			if p == nil {
				continue
			}
			v := r.build(p)
			switch i {
			case tInit:
				s.Uses = v
			case tBefore:
				s.Before = v
			case tAction:
				s.Action = v
			case tAfter:
				s.After = v
			}
		}
		if n.proto {
			p := cli.Prototype{Setup: s}
			other := p
			for _, u := range n.use {
				p = p.Use(r.action(u))
				other.Use(cli.ActionOf(func() { r.log("other", nil) }))
			}
			if n.opt {
				return p
			}
			return &p
		}
		other := s
		for _, u := range n.use {
			s = s.Use(r.action(u))
			other.Use(cli.ActionOf(func() { r.log("other", nil) }))
		}
		return s
	case "at":
		a := r.action(n.sub[0])
		if n.form == 0 || n.at >= 4 && n.form == 1 {
			return cli.At(ctimings[n.at], a)
		}
		if n.form == 1 {
			switch n.at {
			case tInit:
				return cli.Initializer(a)
			case tBefore:
				return cli.Before(a)
			case tAfter:
				return cli.After(a)
			}
		}
		return func(c *cli.Context) error {
			switch n.at {
			case tInit:
				return c.Use(a)
			case tBefore:
				return c.Before(a)
			case tAction:
				return c.Action(a)
			case tAfter:
				return c.After(a)
			}
			return c.At(ctimings[n.at], a)
		}
	}
	panic(n.kind)
}

func (r *creal) action(n *cnode) cli.Action { return cli.ActionOf(r.build(n)) }

// ---- the interpreter

type cint struct {
	events   []string
	cur      int
	deferred [5][]*cnode
	target   string
	panicked string
}

// cpanic is the "error" of an action which panics
type cpanic string

func (c cpanic) Error() string { return string(c) }

// cassert is the error of a failed assertion
type cassert struct {
	desc   string
	timing cli.Timing
}

func (c cassert) Error() string {
	if c.desc == "" {
		return "context does not meet requirements for action"
	}
	return "context must be " + c.desc
}

func (x *cint) isCmd() bool { return x.target == "command" || x.target == "sub" }

func (x *cint) matches(n *cnode) bool {
	switch n.match {
	case 3:
		return n.timing == timings[x.cur]
	case 4:
		// each of them has to match
		for m, ok := range map[cli.FilterModes]bool{
			cli.AnyFlag: x.target == "flag", cli.AnyArg: x.target == "arg", cli.AnyCommand: x.isCmd(),
			cli.HasValue: !x.isCmd(), cli.RootCommand: x.target == "command",
		} {
			if n.modes != cli.Anything && n.modes&m == m && !ok {
				return false
			}
		}
		return true
	}
	return n.match == 1 || n.match == 5
}

var errTooLate = cli.ErrTimingTooLate

func cnorm(n *cnode) *cnode {
	for n.kind == "match" && n.match == 2 {
		n = n.sub[0]
	}
	return n
}

func cflat(n *cnode) []*cnode {
	n = cnorm(n)
	if n.kind != "list" {
		return []*cnode{n}
	}
	var out []*cnode
	for _, s := range n.sub {
		out = append(out, cflat(s)...)
	}
	return out
}

func (x *cint) log(s string, form int, err bool, mw bool) {
	noctx := !mw && (!err && (form == 4 || form == 5) || err && form%4 == 2)
	if !noctx {
		s += "/" + timingNames[x.cur]
	}
	x.events = append(x.events, s)
}

func (x *cint) items(l []*cnode) error {
	for i, n := range l {
		n = cnorm(n)
		if n.kind == "mw" {
			return x.middleware(n, l[i+1:])
		}
		if err := x.node(n); err != nil {
			return err
		}
	}
	return nil
}

func (x *cint) middleware(n *cnode, rest []*cnode) error {
	x.log(n.id+"<", 0, false, true)
	for i := 0; i < n.calls; i++ {
		err := x.items(rest)
		if _, ok := err.(cpanic); err != nil && (ok || !n.swall) {
			return err
		}
	}
	x.log(n.id+">", 0, false, true)
	return n.err
}

func (x *cint) act(n *cnode, at int, optional bool) error {
	n = cnorm(n)
	actual := cactual(at)
	switch {
	case x.cur < actual:
		if at == tAction && n.kind == "mw" {
			x.deferred[at] = append([]*cnode{n}, x.deferred[at]...)
		} else {
			x.deferred[at] = append(x.deferred[at], cflat(n)...)
		}
		return nil
	case x.cur == actual:
		return x.node(n)
	case optional:
		return nil
	}
	return errTooLate
}

func (x *cint) node(n *cnode) error {
	n = cnorm(n)
	switch n.kind {
	case "leaf":
		x.log(n.id, n.form, n.err != nil, false)
		return n.err
	case "mw":
		return x.middleware(n, nil)
	case "nil":
		return nil
	case "list":
		if n.form == 1 {
			// nested pipelines were made part of this one
			return x.items(cflat(n))
		}
		if n.form > 1 {
			var l []*cnode
			for i, s := range n.sub {
				if (n.form == 2) == (i < n.at) {
					l = append(l, cflat(s)...)
				} else {
					l = append(l, s)
				}
			}
			return x.items(l)
		}
		return x.items(n.sub)
	case "suppress":
		if p, ok := x.node(n.sub[0]).(cpanic); ok {
			return p
		}
		return nil
	case "panic":
		return cpanic("panic of " + n.id)
	case "recover":
		err := x.node(n.sub[0])
		if p, ok := err.(cpanic); ok {
			x.panicked = string(p)
			return nil
		}
		return err
	case "match":
		if x.matches(n) {
			return x.node(n.sub[0])
		}
		if n.assert {
			e := cassert{timing: timings[x.cur]}
			switch n.match {
			case 3:
				e.desc = n.timing.Describe()
			case 4:
				e.desc = n.modes.Describe()
			}
			return e
		}
		return nil
	case "tsetup":
		name := map[string]string{"flag": "f", "arg": "a", "sub": "sub", "command": "app"}[x.target]
		if n.form == 2 && !x.isCmd() {
			// the command which it belongs to
			name = "app"
		}
		if x.cur == tInit && (n.form == 2 || []string{"flag", "arg"}[n.form] == x.target) {
			x.events = append(x.events, n.id+" "+name)
		}
		return nil
	case "at":
		if n.at == 5 {
			// just a Before action, marked
			return x.act(&cnode{kind: "list", form: 1, sub: n.sub}, tBefore, false)
		}
		return x.act(n.sub[0], n.at, false)
	case "setup":
		for i, p := range n.parts {
			if i == tInit {
				for _, u := range n.use {
					if p == nil {
						p = &cnode{kind: "nil"}
					}
					p = &cnode{kind: "list", form: 2, at: 1, sub: []*cnode{p, u}}
				}
			}
			if p == nil {
				continue
			}
			if err := x.act(p, i, n.opt); err != nil {
				return err
			}
		}
		return nil
	}
	panic(n.kind)
}

func isAssert(err error) bool { _, ok := err.(cassert); return ok }

func TestP12_Compose(t *testing.T) {
	pbt.Run(t, "some action of the target ran and one of its pipelines has two or more actions in a composition (list, wrapper, middleware or other timing)", 1500, func(c *pbt.C) {
		kind := rapid.SampledFrom([]string{"command", "flag", "arg", "sub"}).Draw(c.T, "target")
		isCmd := kind == "command" || kind == "sub"
		g := &cgen{c: c, noActionMW: isCmd, errs: rapid.IntRange(0, 2).Draw(c.T, "errs") == 0}
		var user [4]*cnode
		for i := range user {
			if rapid.IntRange(0, 3).Draw(c.T, "has") != 0 {
				user[i] = g.node(4, false)
				c.Showf("%s of the %s: %s", timingNames[i], kind, user[i])
			}
		}
		// the interpreter's account
		x := &cint{target: kind}
		var want error
		step := func(at int, lists ...[]*cnode) {
			x.cur = at
			for _, l := range lists {
				if want == nil {
					want = x.items(l)
				}
			}
		}
		flat := func(n *cnode) []*cnode {
			if n == nil {
				return nil
			}
			return cflat(n)
		}
		step(tInit)
		userStep := func(at int) {
			if want == nil && user[at] != nil {
				want = x.node(user[at])
			}
		}
		userStep(tInit)
		step(tBefore, append(append([]*cnode(nil), x.deferred[4]...), x.deferred[tBefore]...))
		userStep(tBefore)
		x.cur = tAction
		if isCmd {
			step(tAction, x.deferred[tAction])
			userStep(tAction)
		} else {
			step(tAction, append(append([]*cnode(nil), x.deferred[tAction]...), flat(user[tAction])...))
		}
		step(tAfter, x.deferred[tAfter])
		userStep(tAfter)

		// the code's
		r := &creal{}
		var parts [4]any
		for i, n := range user {
			if n != nil {
				parts[i] = r.build(n)
			}
		}
		app := newApp("app")
		tokens := []string{}
		switch kind {
		case "command":
			app.Uses, app.Before, app.Action, app.After = parts[0], parts[1], parts[2], parts[3]
			if parts[2] == nil {
				app.Action = func() {}
			}
		case "sub":
			cmd := &cli.Command{Name: "sub", Uses: parts[0], Before: parts[1], Action: parts[2], After: parts[3]}
			if parts[2] == nil {
				cmd.Action = func() {}
			}
			app.Commands = []*cli.Command{cmd}
			tokens = []string{"sub"}
		case "flag":
			app.Flags = []*cli.Flag{{Name: "f", Value: new(string), Uses: parts[0], Before: parts[1], Action: parts[2], After: parts[3]}}
			app.Action = func() {}
			tokens = []string{"-f", "v"}
		case "arg":
			app.Args = []*cli.Arg{{Name: "a", Value: new(string), Uses: parts[0], Before: parts[1], Action: parts[2], After: parts[3]}}
			app.Action = func() {}
			tokens = []string{"v"}
		}
		var stderr bytes.Buffer
		app.Stderr = &stderr
		err := run(app, tokens...)
		if len(x.events) > 0 && g.n > 1 {
			c.NonTrivial()
		}
		c.Label("%s", kind)
		if want != nil {
			c.Label("ends in an error")
		}
		if a, b := strings.Join(r.events, " "), strings.Join(x.events, " "); a != b {
			c.Failf("the actions ran as\n    %s\nwant\n    %s", a, b)
		}
		if want == nil && x.panicked != "" {
			c.Label("recovers from a panic")
			var ie *cli.InternalError
			if isCmd && (!errors.As(err, &ie) || ie.Err.Error() != x.panicked || stderr.Len() == 0) {
				c.Failf("error %v (%T), want the one for %q with its stack on stderr", err, err, x.panicked)
			}
			return
		}
		switch {
		case isAssert(want):
			c.Label("fails an assertion")
			e := want.(cassert)
			var ie *cli.InternalError
			if e.desc == "" {
				if err == nil || err.Error() != e.Error() {
					c.Failf("error %v, want %v", err, e)
				}
			} else if !errors.As(err, &ie) || ie.Err.Error() != e.Error() || ie.Timing != e.timing || ie.Unwrap() != ie.Err || !strings.Contains(ie.Error(), e.Error()) {
				c.Failf("error %v (%T), want %v at %v", err, err, e, e.timing)
			}
		case want == nil:
			if err != nil {
				c.Failf("error %v, want none", err)
			}
		case want == errTooLate:
			if !errors.Is(err, cli.ErrTimingTooLate) {
				c.Failf("error %v, want that it is too late", err)
			}
		default:
			if err != want {
				c.Failf("error %v, want %v", err, want)
			}
		}
	})
}
