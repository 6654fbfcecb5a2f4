package core

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// nnode is a command, flag or arg of a generated tree
type nnode struct {
	kind    string
	name    string // plain
	aliases []string
	parent  *nnode
	flags   []*nnode
	args    []*nnode
	subs    []*nnode
	// category, description, help, usage, manual text and data
	meta [6]string

	cmd  *cli.Command
	flag *cli.Flag
	arg  *cli.Arg
}

func (n *nnode) label() string {
	switch n.kind {
	case "flag":
		if len(n.name) == 1 {
			return "-" + n.name
		}
		return "--" + n.name
	case "arg":
		return "<" + n.name + ">"
	}
	return n.name
}

func (n *nnode) path() []string {
	if n.parent == nil {
		return []string{n.label()}
	}
	return append(append([]string(nil), n.parent.path()...), n.label())
}

func (n *nnode) lineage() []*nnode { // itself first
	var l []*nnode
	for ; n != nil; n = n.parent {
		l = append(l, n)
	}
	return l
}

func (n *nnode) all(f func(*nnode)) {
	f(n)
	for _, l := range [][]*nnode{n.flags, n.args, n.subs} {
		for _, x := range l {
			x.all(f)
		}
	}
}

// target is what Context.Target gives; nil for the root
func (n *nnode) is(v any) bool {
	switch n.kind {
	case "flag":
		return v == any(n.flag)
	case "arg":
		return v == any(n.arg)
	}
	c, ok := v.(*cli.Command)
	return ok && (n.parent == nil || c == n.cmd)
}

var (
	ncmdNames  = []string{"sub", "a", "add", "verbose", "x1"}
	nflagNames = []string{"v", "a", "add", "verbose", "x1", "s"}
	nargNames  = []string{"a", "add", "file", "v"}
)

func drawNames(t *rapid.T, pool []string, label string, max int) []string {
	p := rapid.Permutation(pool).Draw(t, label)
	return p[:rapid.IntRange(0, max).Draw(t, "n"+label)]
}

func drawMeta(t *rapid.T, n *nnode) {
	if rapid.Bool().Draw(t, "meta") {
		for i := range n.meta {
			if rapid.Bool().Draw(t, "has") {
				n.meta[i] = fmt.Sprintf("%s %s %d", n.kind, n.name, i)
			}
		}
	}
}

func (n *nnode) description() any {
	if n.meta[1] == "" {
		return nil
	}
	return n.meta[1]
}

func (n *nnode) data() map[string]any {
	if n.meta[5] == "" {
		return nil
	}
	return map[string]any{"key " + n.name: n.meta[5]}
}

func navTree(t *rapid.T, parent *nnode, name string, depth int) *nnode {
	n := &nnode{kind: "cmd", name: name, parent: parent}
	drawMeta(t, n)
	fs := drawNames(t, nflagNames, "flags", 4)
	for i := 0; i < len(fs); i++ {
		f := &nnode{kind: "flag", name: fs[i], parent: n}
		if i+1 < len(fs) && rapid.IntRange(0, 2).Draw(t, "alias") == 0 {
			f.aliases = []string{fs[i+1]}
			i++
		}
		drawMeta(t, f)
		n.flags = append(n.flags, f)
	}
	taken := map[string]bool{}
	for _, f := range n.flags {
		taken[f.name] = true
		for _, a := range f.aliases {
			taken[a] = true
		}
	}
	for _, a := range drawNames(t, nargNames, "args", 2) {
		if taken[a] {
			continue
		}
		x := &nnode{kind: "arg", name: a, parent: n}
		drawMeta(t, x)
		n.args = append(n.args, x)
	}
	if depth > 0 {
		cs := drawNames(t, ncmdNames, "subs", 3)
		for i := 0; i < len(cs); i++ {
			s := navTree(t, n, cs[i], depth-1)
			if i+1 < len(cs) && rapid.IntRange(0, 2).Draw(t, "alias") == 0 {
				s.aliases = []string{cs[i+1]}
				i++
			}
			n.subs = append(n.subs, s)
		}
	}
	return n
}

func (n *nnode) build(act func(*nnode) any) {
	n.cmd = &cli.Command{Name: n.name, Aliases: n.aliases, Action: act(n),
		Category: n.meta[0], Description: n.description(), HelpText: n.meta[2], UsageText: n.meta[3], ManualText: n.meta[4], Data: n.data()}
	for _, f := range n.flags {
		f.flag = &cli.Flag{Name: f.name, Aliases: f.aliases, Value: new(string), Before: act(f),
			Category: f.meta[0], Description: f.description(), HelpText: f.meta[2], UsageText: f.meta[3], ManualText: f.meta[4], Data: f.data()}
		n.cmd.Flags = append(n.cmd.Flags, f.flag)
	}
	for _, a := range n.args {
		a.arg = &cli.Arg{Name: a.name, Value: new(string), Before: act(a),
			Category: a.meta[0], Description: a.description(), HelpText: a.meta[2], UsageText: a.meta[3], ManualText: a.meta[4], Data: a.data()}
		n.cmd.Args = append(n.cmd.Args, a.arg)
	}
	for _, s := range n.subs {
		s.build(act)
		n.cmd.Subcommands = append(n.cmd.Subcommands, s.cmd)
	}
}

func (n *nnode) text() string {
	s := n.label()
	for _, a := range n.aliases {
		s += "|" + a
	}
	if n.kind == "cmd" {
		var in []string
		for _, l := range [][]*nnode{n.flags, n.args, n.subs} {
			for _, x := range l {
				in = append(in, x.text())
			}
		}
		if len(in) > 0 {
			s += "(" + strings.Join(in, " ") + ")"
		}
	}
	return s
}

// find is the model of FindTarget: one step
func (n *nnode) find(name string) *nnode {
	if name == "" {
		return nil
	}
	has := func(x *nnode, name string) bool {
		if x.name == name {
			return true
		}
		for _, a := range x.aliases {
			if a == name {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(name, "-"):
		name = strings.TrimLeft(name, "-")
		for c := n; c != nil; c = c.parent {
			for _, f := range c.flags {
				if has(f, name) {
					return f
				}
			}
		}
	case strings.HasPrefix(name, "<"):
		name = strings.Trim(name, "<>")
		for c := n; c != nil; c = c.parent {
			for _, a := range c.args {
				if has(a, name) {
					return a
				}
			}
		}
	default:
		for _, s := range n.subs {
			if has(s, name) {
				return s
			}
		}
	}
	return nil
}

// view checks everything that a context says about where it is
func (n *nnode) view(c *pbt.C, ctx *cli.Context, app *cli.App) {
	path := n.path()
	if got := ctx.Path(); strings.Join(got, " ") != strings.Join(path, " ") || got.String() != strings.Join(path, " ") {
		c.Failf("the path of %v is %q", path, got)
	}
	if !n.is(ctx.Target()) {
		c.Failf("the target of %v is %#v", path, ctx.Target())
	}
	p := ctx.Path()
	if got := [8]bool{ctx.IsCommand(), ctx.IsFlag(), ctx.IsArg(), ctx.HasValue(), p.IsCommand(), p.IsFlag(), p.IsArg(), p.IsExpr()}; got !=
		[8]bool{n.kind == "cmd", n.kind == "flag", n.kind == "arg", n.kind != "cmd", n.kind == "cmd", n.kind == "flag", n.kind == "arg", false} {
		c.Failf("the kind of %v is %v", path, got)
	}
	if ctx.Name() != n.label() || p.Last() != n.label() {
		c.Failf("the name of %v is %q, the last of the path %q", path, ctx.Name(), p.Last())
	}
	lin := n.lineage()
	got := ctx.Lineage()
	if len(got) != len(lin) {
		c.Failf("the lineage of %v has %d contexts", path, len(got))
	}
	up := ctx
	for i, x := range lin {
		if !x.is(got[i].Target()) {
			c.Failf("context %d in the lineage of %v is %v", i, path, got[i].Path())
		}
		if up == nil || !x.is(up.Target()) {
			c.Failf("parent %d of %v is %v", i, path, up.Path())
		}
		up = up.Parent()
	}
	if up != nil {
		c.Failf("the root %v has a parent", path)
	}
	if ctx.Root().Parent() != nil || ctx.App() != app || ctx.Root().App() != app {
		c.Failf("the root or the app of %v is wrong", path)
	}
	owner := n
	if n.kind != "cmd" {
		owner = n.parent
	}
	if !owner.is(ctx.Command()) {
		c.Failf("the command of %v is %q", path, ctx.Command().Name)
	}
	if (n.kind == "flag" && ctx.Flag() != n.flag) || (n.kind != "flag" && ctx.Flag() != nil) ||
		(n.kind == "arg" && ctx.Arg() != n.arg) || (n.kind != "arg" && ctx.Arg() != nil) {
		c.Failf("the flag and arg of %v are %v and %v", path, ctx.Flag(), ctx.Arg())
	}
	n.describe(c, ctx)
	// a value in it
	val := new(int)
	vctx := ctx.ValueContextOf("val", val)
	if vp := strings.Join(append(append([]string(nil), path...), "<-val>"), " "); strings.Join(vctx.Path(), " ") != vp || vctx.Name() != "<-val>" ||
		vctx.Target() != any(val) || vctx.IsCommand() || vctx.IsFlag() || vctx.IsArg() || !vctx.Path().IsExpr() ||
		len(vctx.Lineage()) != len(lin)+1 || !n.is(vctx.Parent().Target()) || !owner.is(vctx.Command()) || vctx.Root().Name() != ctx.Root().Name() || vctx.App() != app {
		c.Failf("the context of a value in %v has the path %q, the target %v, the command %s and the parent %v", path, vctx.Path(), vctx.Target(), vctx.Command().Name, vctx.Parent().Path())
	}
	// filters
	modes := []struct {
		m  cli.FilterModes
		is bool
	}{{cli.AnyFlag, n.kind == "flag"}, {cli.AnyArg, n.kind == "arg"}, {cli.AnyCommand, n.kind == "cmd"},
		{cli.RootCommand, n.parent == nil}, {cli.HasValue, n.kind != "cmd"}}
	for _, a := range modes {
		if ctx.Matches(a.m) != a.is {
			c.Failf("%v matches %v: %v", path, a.m, !a.is)
		}
		for _, b := range modes {
			kinds := cli.AnyFlag | cli.AnyArg | cli.AnyCommand
			if a.m != b.m && a.m&kinds != 0 && b.m&kinds != 0 {
				continue
			}
			if ctx.Matches(a.m|b.m) != (a.is && b.is) {
				c.Failf("%v matches %v|%v: %v", path, a.m, b.m, !(a.is && b.is))
			}
		}
	}
	if !ctx.Matches(cli.Anything) || !ctx.Matches(nil) {
		c.Failf("%v does not match anything", path)
	}
	// flags and args in scope
	var local, pers []*nnode
	if n.kind == "cmd" {
		local = n.flags
		for x := n.parent; x != nil; x = x.parent {
			pers = append(append([]*nnode(nil), x.flags...), pers...)
		}
	}
	flags := func(what string, got []*cli.Flag, want []*nnode) {
		var g, w []string
		for _, f := range got {
			if f.Name == "help" || f.Name == "version" || f.Name == "zsh-completion" {
				continue
			}
			g = append(g, fmt.Sprintf("%s %p", f.Name, f))
		}
		for _, f := range want {
			w = append(w, fmt.Sprintf("%s %p", f.name, f.flag))
		}
		if strings.Join(g, ",") != strings.Join(w, ",") {
			c.Failf("the %s of %v are %v, want %v", what, path, g, w)
		}
	}
	flags("local flags", ctx.LocalFlags(), local)
	flags("persistent flags", ctx.PersistentFlags(), pers)
	flags("flags", ctx.Flags(), append(append([]*nnode(nil), pers...), local...))
	if n.kind == "cmd" {
		a := ctx.LocalArgs()
		for i, x := range n.args {
			if len(a) < len(n.args) || a[i] != x.arg {
				c.Failf("the args of %v are wrong: %v", path, a)
			}
		}
	}
}

// describe checks what a context says about how it is described
func (n *nnode) describe(c *pbt.C, ctx *cli.Context) {
	path := n.path()
	var category string
	if n.parent != nil || n.meta[0] == "" {
		category = n.meta[0]
		if got := ctx.Category(); got != category {
			c.Failf("the category of %v is %q, want %q", path, got, category)
		}
	}
	if got := [3]string{ctx.HelpText(), ctx.UsageText(), ctx.ManualText()}; got != [3]string(n.meta[2:5]) {
		c.Failf("the help, usage and manual text of %v are %q, want %q", path, got, n.meta[2:5])
	}
	if got := ctx.Description(); got != n.description() {
		c.Failf("the description of %v is %v, want %v", path, got, n.description())
	}
	got := map[string]any{}
	for k, v := range ctx.Data() {
		if strings.HasPrefix(k, "key ") {
			got[k] = v
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(n.data()) {
		c.Failf("the data of %v are %v, want %v", path, got, n.data())
	}
	// data are looked up in what encloses it, too
	for _, k := range append(append([]string{"nope"}, nflagNames...), append(append([]string{"app"}, ncmdNames...), nargNames...)...) {
		var want any
		ok := false
		for x := n; x != nil && !ok; x = x.parent {
			if x.name == k && x.meta[5] != "" {
				want, ok = x.meta[5], true
			}
		}
		if v, got := ctx.LookupData("key " + k); v != want || got != ok {
			c.Failf("the data %q of %v are %v, %v, want %v, %v", k, path, v, got, want, ok)
		}
	}
	if a := ctx.Aliases(); strings.Join(a, ",") != strings.Join(n.aliases, ",") {
		c.Failf("the aliases of %v are %q, want %q", path, a, n.aliases)
	}
	switch n.kind {
	case "flag":
		short, long := "", ""
		var names []string
		for _, a := range append([]string{n.name}, n.aliases...) {
			if len(a) == 1 {
				names = append(names, "-"+a)
				if short == "" {
					short = "-" + a
				}
			} else {
				names = append(names, "--"+a)
				if long == "" {
					long = "--" + a
				}
			}
		}
		if long == "" {
			long = "--" + n.name
		}
		f := ctx.Flag()
		if f.ShortName() != short || f.LongName() != long || strings.Join(f.Names(), " ") != strings.Join(names, " ") {
			c.Failf("the names of %v are %q, %q, %q; want %q, %q, %q", path, f.ShortName(), f.LongName(), f.Names(), short, long, names)
		}
	case "cmd":
		if got, want := ctx.Command().Names(), append([]string{n.name}, n.aliases...); strings.Join(got, " ") != strings.Join(want, " ") {
			c.Failf("the names of %v are %q, want %q", path, got, want)
		}
		// what it has, by name
		for _, name := range append(append([]string{"nope"}, nflagNames...), append(ncmdNames, nargNames...)...) {
			var flag *cli.Flag
			var arg *cli.Arg
			var cmd *cli.Command
			for _, l := range [][]*nnode{n.flags, n.args, n.subs} {
				for _, x := range l {
					is := x.name == name
					for _, a := range x.aliases {
						is = is || a == name
					}
					if is && x.kind == "flag" {
						flag = x.flag
					} else if is && x.kind == "arg" {
						arg = x.arg
					} else if is {
						cmd = x.cmd
					}
				}
			}
			of := ctx.Command()
			f, ok1 := of.Flag(name)
			a, ok2 := of.Arg(name)
			s, ok3 := of.Command(name)
			if f != flag || a != arg || s != cmd || ok1 != (f != nil) || ok2 != (a != nil) || ok3 != (s != nil) {
				c.Failf("the flag, arg and command %q of %v are %v %v, %v %v, %v %v", name, path, f, ok1, a, ok2, s, ok3)
			}
			if n.parent == nil {
				app := ctx.App()
				f, ok1 = app.Flag(name)
				a, ok2 = app.Arg(name)
				s, ok3 = app.Command(name)
				if f != flag || a != arg || s != cmd || ok1 != (f != nil) || ok2 != (a != nil) || ok3 != (s != nil) {
					c.Failf("the flag, arg and command %q of the app are %v %v, %v %v, %v %v", name, f, ok1, a, ok2, s, ok3)
				}
			}
		}
	}
}

func npattern(t *rapid.T) string {
	parts := rapid.SliceOfN(rapid.OneOf(
		rapid.SampledFrom([]string{"*", "-", "--", "<>", "app", "<->", "*", "-"}),
		rapid.SampledFrom(ncmdNames),
		rapid.Map(rapid.SampledFrom(nflagNames), func(s string) string { return "-" + s }),
		rapid.Map(rapid.SampledFrom(nflagNames), func(s string) string { return "--" + s }),
		rapid.Map(rapid.SampledFrom(nargNames), func(s string) string { return "<" + s + ">" }),
	), 0, 4).Draw(t, "pattern")
	return strings.Join(parts, rapid.SampledFrom([]string{" ", "  "}).Draw(t, "sep"))
}

func TestP13_Navigate(t *testing.T) {
	pbt.Run(t, "the tree has four or more targets and a sub-command", 1500, func(c *pbt.C) {
		root := navTree(c.T, nil, "app", 2)
		var nodes []*nnode
		root.all(func(n *nnode) { nodes = append(nodes, n) })
		// the command which executes
		cur := root
		var tokens []string
		for len(cur.subs) > 0 && rapid.IntRange(0, 3).Draw(c.T, "deeper") > 0 {
			for range cur.args {
				tokens = append(tokens, "value")
			}
			cur = rapid.SampledFrom(cur.subs).Draw(c.T, "to")
			name := cur.name
			if len(cur.aliases) > 0 && rapid.Bool().Draw(c.T, "byAlias") {
				name = cur.aliases[0]
			}
			tokens = append(tokens, name)
		}
		var patterns []string
		for i := 0; i < 6; i++ {
			patterns = append(patterns, npattern(c.T))
		}
		// paths to look for: real ones, changed ones
		type query struct {
			path []string
			want *nnode
			ok   bool
		}
		var queries []query
		ask := func(p []string) {
			q := query{path: p}
			x := root
			if p[0] == "app" || p[0] == "*" || p[0] == "" {
				if p[0] == "" {
					q.want, q.ok = root, true
					queries = append(queries, q)
					return
				}
				for _, s := range p[1:] {
					if x.kind != "cmd" { // what is below a flag or an arg
						return
					}
					if x = x.find(s); x == nil {
						break
					}
				}
			} else {
				x = nil
			}
			q.want, q.ok = x, x != nil
			queries = append(queries, q)
		}
		for i := 0; i < 5; i++ {
			p := append([]string(nil), rapid.SampledFrom(nodes).Draw(c.T, "node").path()...)
			switch rapid.IntRange(0, 4).Draw(c.T, "change") {
			case 0:
				p[rapid.IntRange(0, len(p)-1).Draw(c.T, "at")] = rapid.SampledFrom([]string{"nope", "--nope", "<nope>", "a", "--a", "-add", "--verbose", "<add>", "add"}).Draw(c.T, "by")
			case 1:
				p = append(p, rapid.SampledFrom([]string{"a", "--a", "-add", "--verbose", "<add>", "<file>", "add"}).Draw(c.T, "by"))
			}
			ask(p)
		}
		// the walk
		stop := map[*nnode]error{}
		for _, n := range nodes {
			if n.kind == "cmd" && rapid.IntRange(0, 6).Draw(c.T, "walkErr") == 0 {
				stop[n] = rapid.SampledFrom([]error{cli.ErrSkipCommand, cli.ErrSkipCommand, errors.New("stop")}).Draw(c.T, "err")
			}
		}
		c.Showf("tree: %s\nruns: %q\npatterns: %q", root.text(), tokens, patterns)
		for _, q := range queries {
			c.Showf("looks for %q", q.path)
		}
		for _, n := range nodes {
			if e := stop[n]; e != nil {
				c.Showf("the walk gets %q at %v", e, n.path())
			}
		}
		if len(nodes) >= 4 && len(root.subs) > 0 {
			c.NonTrivial()
		}
		c.Label("depth %d", len(cur.path())-1)

		app := newApp("app")
		var viewed []string
		ran := false
		root.build(func(n *nnode) any {
			return func(ctx *cli.Context) {
				viewed = append(viewed, strings.Join(n.path(), " "))
				n.view(c, ctx, app)
				for _, pat := range patterns {
					m := pmatch(strings.ReplaceAll(pat, "<->", "\x00"), n.path())
					if ctx.Path().Match(pat) != m || ctx.Matches(cli.PatternFilter(pat)) != m {
						c.Failf("%v matches %q: %v", n.path(), pat, !m)
					}
				}
				if n.kind != "cmd" {
					return
				}
				ran = true
				if n != cur {
					c.Failf("%v executes, want %v", n.path(), cur.path())
				}
				for _, q := range queries {
					got, ok := ctx.Root().FindTarget(cli.ContextPath(q.path))
					if ok != q.ok {
						c.Failf("FindTarget(%q) says %v", q.path, ok)
					}
					if ok && !q.want.is(got.Target()) {
						c.Failf("FindTarget(%q) is %v, want %v", q.path, got.Path(), q.want.path())
					}
					if ok && len(got.Path()) == len(q.want.path()) {
						q.want.view(c, got, app)
					}
				}
				for _, x := range append(append([]*nnode(nil), n.flags...), n.args...) {
					var refs []any
					if x.kind == "flag" {
						refs = append(refs, x.flag)
						if len(x.name) == 1 {
							refs = append(refs, rune(x.name[0]))
						}
					} else {
						refs = append(refs, x.arg)
						for i, a := range n.args {
							if a == x {
								refs = append(refs, i)
							}
						}
					}
					for _, r := range refs {
						got := ctx.ContextOf(r)
						if got == nil {
							c.Failf("ContextOf(%v) in %v is nil", r, n.path())
						}
						x.view(c, got, app)
						// from the context of another option
						for _, y := range n.flags {
							if got := ctx.ContextOf(y.flag).ContextOf(r); got == nil || !x.is(got.Target()) {
								c.Failf("ContextOf(%v) in %v is %v", r, y.path(), got.Path())
							}
						}
					}
				}
				for _, s := range n.subs {
					s.view(c, ctx.ContextOf(s.cmd), app)
					for _, name := range append([]string{s.name}, s.aliases...) {
						if got, ok := ctx.LookupCommand(name); !ok || got != s.cmd {
							c.Failf("LookupCommand(%q) in %v is %v", name, n.path(), got)
						}
					}
				}
				if got, ok := ctx.LookupCommand("nope"); ok || got != nil {
					c.Failf("LookupCommand(nope) in %v is %v", n.path(), got)
				}
				if ctx.ContextOf("nope") != nil || ctx.ContextOf('n') != nil {
					c.Failf("ContextOf something that does not exist is not nil")
				}
				// walk
				var got, want []string
				err := ctx.Root().Walk(func(w *cli.Context) error {
					for _, x := range nodes {
						if x.kind == "cmd" && x.is(w.Target()) && len(w.Path()) == len(x.path()) {
							got = append(got, w.Path().String())
							x.view(c, w, app)
							return stop[x]
						}
					}
					return nil
				})
				var werr error
				var walk func(x *nnode)
				walk = func(x *nnode) {
					if werr != nil {
						return
					}
					want = append(want, strings.Join(x.path(), " "))
					if e := stop[x]; e != nil {
						if e != cli.ErrSkipCommand {
							werr = e
						}
						return
					}
					for _, s := range x.subs {
						walk(s)
					}
				}
				walk(root)
				if strings.Join(got, ",") != strings.Join(want, ",") || err != werr {
					c.Failf("the walk visits %q and returns %v, want %q and %v", got, err, want, werr)
				}
			}
		})
		app.Flags, app.Args, app.Commands, app.Action = root.cmd.Flags, root.cmd.Args, root.cmd.Subcommands, root.cmd.Action
		app.Description, app.HelpText, app.UsageText, app.ManualText, app.Data = root.description(), root.meta[2], root.meta[3], root.meta[4], root.data()
		if err := run(app, tokens...); err != nil {
			c.Failf("error %v", err)
		}
		if !ran {
			c.Failf("nothing executes")
		}
	})
}
