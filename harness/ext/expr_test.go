package ext

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

type opArg struct {
	name string
	typ  string // string, int, list, map
	k    model.Count
	def  bool // has a default
	keep bool // with Merge
}

type op struct {
	name    string
	aliases []string
	args    []opArg
	kind    string // what it does
	form    int    // the signature
	other   bool   // an equivalent signature
}

func (o *op) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "-%s %v %s/%d %v", o.name, o.aliases, o.kind, o.form, o.other)
	for _, a := range o.args {
		fmt.Fprintf(&b, " <%s %s %v", a.name, a.typ, a.k)
		if a.def {
			b.WriteString(" default")
		}
		if a.keep {
			b.WriteString(" merge")
		}
		b.WriteString(">")
	}
	return b.String()
}

// use is an operator with the values of its args
type use struct {
	*op
	vals map[string]any
}

func (u use) show() string {
	var b strings.Builder
	b.WriteString(u.name)
	for _, a := range u.args {
		fmt.Fprintf(&b, " %s=%v", a.name, u.vals[a.name])
	}
	return b.String()
}

var errOp = errors.New("operator failed")

func (a opArg) value() any {
	switch a.typ {
	case "string":
		s := ""
		if a.def {
			s = "dflt"
		}
		return &s
	case "int":
		n := 0
		if a.def {
			n = 7
		}
		return &n
	case "map":
		m := map[string]string{}
		if a.def {
			m["u"], m["d"] = "0", "1"
		}
		return &m
	}
	l := []string{}
	if a.def {
		l = []string{"d1", "d2"}
	}
	return &l
}

func (a opArg) cliArg() *cli.Arg {
	x := &cli.Arg{Name: a.name, Value: a.value(), Options: cli.DisableSplitting}
	if a.keep {
		x.Options |= cli.Merge
	}
	switch a.k.Kind {
	case "exact":
		x.NArg = a.k.N
	case "opt":
		x.NArg = cli.TakeUnlessFlag
	case "all":
		x.NArg = cli.TakeRemaining
	case "until":
		x.NArg = cli.TakeUntilNextFlag
	case "except":
		x.NArg = cli.TakeExceptForFlags
	}
	return x
}

// parseExpr is the reference: it says which operators are used, with which values
func parseExpr(ops []*op, tokens []string) (uses []use, problem string) {
	find := func(name string) *op {
		for _, o := range ops {
			if o.name == name || slices.Contains(o.aliases, name) {
				return o
			}
		}
		return nil
	}
	malformed, bare := false, false
	for len(tokens) > 0 {
		t := tokens[0]
		if t == "" || t[0] != '-' {
			return nil, "args must precede " + t
		}
		o := find(t[1:])
		if o == nil {
			return nil, "unknown " + t
		}
		var g model.Grammar
		for _, a := range o.args {
			g.Args = append(g.Args, model.Pos{Name: a.name, Count: a.k})
		}
		rest := tokens[1:]
		res := g.Parse(rest)
		tokens = nil
		if res.Err != nil {
			switch res.Err.Code {
			case "unknown":
				// the next operator; the tokens up to it have to be complete
				tokens = rest[len(rest)-len(res.Err.Remaining):]
				if again := g.Parse(rest[:len(rest)-len(tokens)]); again.Err != nil {
					return nil, again.Err.Code
				}
			case "unexpected":
				return nil, "args must precede " + res.Err.Token
			default:
				return nil, res.Err.Code
			}
		}
		u := use{op: o, vals: map[string]any{}}
		for _, a := range o.args {
			v := reflect.ValueOf(a.value()).Elem()
			var given []string
			for _, occ := range res.Occ[a.name] {
				given = append(given, occ[1:]...)
			}
			if len(given) > 0 {
				switch a.typ {
				case "string":
					v.SetString(strings.Join(given, " "))
				case "int":
					n, err := strconv.Atoi(given[len(given)-1])
					if err != nil {
						malformed = true
					}
					v.SetInt(int64(n))
				case "list":
					if !a.keep {
						v.SetLen(0)
					}
					v.Set(reflect.AppendSlice(v, reflect.ValueOf(given)))
				case "map":
					if !a.keep {
						v.Set(reflect.ValueOf(map[string]string{}))
					}
					for _, pair := range given {
						k, val, ok := strings.Cut(pair, "=")
						bare = bare || !ok
						v.Interface().(map[string]string)[k] = val
					}
				}
			}
			u.vals[a.name] = v.Interface()
		}
		uses = append(uses, u)
	}
	if malformed {
		return nil, "value"
	}
	if bare {
		return nil, "bare"
	}
	return uses, ""
}

// evaluate is the reference for the pipeline
func evaluate(uses []use, item string, log *[]string) error {
	if len(uses) == 0 {
		*log = append(*log, "out "+item)
		return nil
	}
	u, next := uses[0], func(s string) error { return evaluate(uses[1:], s, log) }
	note := func(when string) { *log = append(*log, when+" "+u.showForm()+" "+item) }
	switch u.kind {
	case "true", "nil":
		return next(item)
	case "false":
		return nil
	case "error":
		return errOp
	case "record":
		note("at")
		return next(item)
	case "keep":
		note("at")
		if keep(item) {
			return next(item)
		}
		return nil
	case "check":
		note("at")
		if keep(item) {
			return next(item)
		}
		return errOp
	case "twice":
		note("at")
		err := next(item + "1")
		note("between")
		if err == nil {
			err = next(item + "2")
		}
		note("after")
		return err
	case "swallow":
		_ = next(item)
		note("after")
		return nil
	}
	panic(u.kind)
}

func keep(s string) bool { return len(s)%3 != 0 }

// showForm leaves out the values if the signature does not provide them
func (u use) showForm() string {
	if u.form > 1 {
		return ""
	}
	return u.show()
}

// evaluator is the function of the operator in one of the signatures
func (o *op) evaluator(log *[]string) any {
	u := use{op: o}
	read := func(c *cli.Context) string {
		if c == nil {
			return ""
		}
		u.vals = map[string]any{}
		for i, a := range o.args {
			u.vals[a.name] = c.Value(a.name)
			if vals := c.Values(); i >= len(vals) || !reflect.DeepEqual(vals[i], u.vals[a.name]) {
				return fmt.Sprintf("%s: Values is %v, Value of %s is %v", o.name, vals, a.name, u.vals[a.name])
			}
		}
		if c.Name() != "<-"+o.name+">" {
			return "the name is " + c.Name()
		}
		return u.show()
	}
	at := func(when string, c *cli.Context, v any) {
		*log = append(*log, when+" "+read(c)+" "+v.(string))
	}
	full := func(c *cli.Context, v any, yield func(any) error) error {
		switch o.kind {
		case "twice":
			at("at", c, v)
			err := yield(v.(string) + "1")
			at("between", c, v)
			if err == nil {
				err = yield(v.(string) + "2")
			}
			at("after", c, v)
			return err
		case "swallow":
			_ = yield(v)
			at("after", c, v)
			return nil
		}
		at("at", c, v)
		switch {
		case o.kind == "record" || keep(v.(string)):
			return yield(v)
		case o.kind == "check":
			return errOp
		}
		return nil
	}
	predicate := func(c *cli.Context, v any) bool { at("at", c, v); return keep(v.(string)) }
	check := func(c *cli.Context, v any) error {
		at("at", c, v)
		if o.kind == "record" || keep(v.(string)) {
			return nil
		}
		return errOp
	}
	switch {
	case o.other && o.kind == "true":
		return []any{func() bool { return true }, expr.EvaluatorOf(nil), evaluatorType{}}[o.form]
	case o.other && o.kind == "false":
		return []any{func() bool { return false }, expr.Invariant(false), expr.EvaluatorOf(func(any, func(any) error) error { return nil })}[o.form]
	}
	switch o.kind {
	case "true":
		return []any{true, expr.AlwaysTrue, expr.Predicate(func(any) bool { return true })}[o.form]
	case "false":
		return []any{false, expr.AlwaysFalse, func(any) bool { return false }}[o.form]
	case "nil":
		return nil
	case "error":
		return []any{errOp, expr.Error(errOp), func(any) error { return errOp }}[o.form]
	}
	switch o.kind {
	case "record":
		switch o.form {
		case 0:
			if o.other {
				return check
			}
			return func(c *cli.Context, v any) { at("at", c, v) }
		case 1:
			if o.other {
				return func(c context.Context, v any) { at("at", cli.FromContext(c), v) }
			}
			return func(c context.Context, v any) error { return check(cli.FromContext(c), v) }
		case 2:
			if o.other {
				return func(v any) error { return check(nil, v) }
			}
			return func(v any) { at("at", nil, v) }
		}
	case "keep":
		switch o.form {
		case 0:
			return predicate
		case 1:
			return func(c context.Context, v any) bool { return predicate(cli.FromContext(c), v) }
		case 2:
			return func(v any) bool { return predicate(nil, v) }
		}
	case "check":
		switch o.form {
		case 0:
			return check
		case 1:
			return func(c context.Context, v any) error { return check(cli.FromContext(c), v) }
		case 2:
			return func(v any) error { return check(nil, v) }
		}
	}
	switch o.form {
	case 0:
		return full
	case 1:
		if o.other {
			return expr.EvaluatorFunc(full)
		}
		return expr.EvaluatorOf(func(c context.Context, v any, y func(any) error) error { return full(cli.FromContext(c), v, y) })
	}
	return func(v any, y func(any) error) error { return full(nil, v, y) }
}

// evaluatorType is an evaluator which is not a function
type evaluatorType struct{}

func (evaluatorType) Evaluate(_ context.Context, v any, yield func(any) error) error { return yield(v) }

var opNames = []string{"a", "b", "n", "x", "add", "more", "take-all", "na", "@"}
var opArgNames = []string{"value", "n", "a", "x", "rest"}

func genOps(c *pbt.C) (ops []*op) {
	names := rapid.Permutation(opNames).Draw(c.T, "names")
	for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "ops"); i < n; i++ {
		o := &op{name: names[2*i], kind: rapid.SampledFrom([]string{"record", "record", "keep", "twice", "swallow", "check", "true", "false", "nil", "error"}).Draw(c.T, "kind"), form: rapid.IntRange(0, 2).Draw(c.T, "form"), other: rapid.Bool().Draw(c.T, "other")}
		if rapid.IntRange(0, 2).Draw(c.T, "alias") == 0 {
			o.aliases = []string{names[2*i+1]}
		}
		argNames := rapid.Permutation(opArgNames).Draw(c.T, "argNames")
		for j, m := 0, rapid.IntRange(0, 2).Draw(c.T, "args"); j < m; j++ {
			a := opArg{name: argNames[j], def: rapid.IntRange(0, 2).Draw(c.T, "default") == 0}
			a.typ = rapid.SampledFrom([]string{"string", "int", "list", "list", "map"}).Draw(c.T, "type")
			a.keep = (a.typ == "list" || a.typ == "map") && rapid.IntRange(0, 2).Draw(c.T, "merge") == 0
			if a.typ == "list" {
				a.k = rapid.SampledFrom([]model.Count{{Kind: "exact", N: 1}, {Kind: "exact", N: 2}, {Kind: "opt"}, {Kind: "until"}, {Kind: "except"}, {Kind: "all"}}).Draw(c.T, "count")
			} else {
				a.k = rapid.SampledFrom([]model.Count{{Kind: "exact", N: 1}, {Kind: "opt"}}).Draw(c.T, "count")
			}
			o.args = append(o.args, a)
		}
		ops = append(ops, o)
	}
	return
}

func genExprTokens(c *pbt.C, ops []*op) (res []string) {
	odd := rapid.IntRange(0, 3).Draw(c.T, "odd") == 0
	for i, n := 0, rapid.IntRange(0, 5).Draw(c.T, "uses"); i < n; i++ {
		o := rapid.SampledFrom(ops).Draw(c.T, "op")
		res = append(res, "-"+rapid.SampledFrom(append([]string{o.name}, o.aliases...)).Draw(c.T, "spelling"))
		for _, a := range o.args {
			m := 1
			switch a.k.Kind {
			case "exact":
				m = a.k.N
			case "opt":
				m = rapid.IntRange(0, 1).Draw(c.T, "given")
			default:
				m = rapid.IntRange(0, 3).Draw(c.T, "given")
			}
			for range m {
				if a.typ == "map" {
					res = append(res, rapid.SampledFrom([]string{"u=1", "v=2", "w=a,b", "d=é"}).Draw(c.T, "pair"))
				} else if a.typ == "int" {
					res = append(res, rapid.SampledFrom([]string{"1", "2", "35"}).Draw(c.T, "int"))
				} else {
					res = append(res, rapid.SampledFrom([]string{"u", "v", "w=1", "a,b", "é"}).Draw(c.T, "value"))
				}
			}
		}
		if odd && rapid.IntRange(0, 3).Draw(c.T, "strange") == 0 {
			at := rapid.IntRange(0, len(res)).Draw(c.T, "where")
			res = slices.Insert(res, at, rapid.SampledFrom([]string{"", "-", "--", "-zz", "zz", "xmore", "/a", "-5", "--more", "-abx", "---", "-more=1"}).Draw(c.T, "token"))
		}
	}
	return
}

// TestP23_Expr: the operators are found as written, and each item goes through them
func TestP23_Expr(t *testing.T) {
	pbt.Run(t, "an operator is used more than once, or the expression is malformed", 4000, func(c *pbt.C) {
		ops := genOps(c)
		tokens := genExprTokens(c, ops)
		items := rapid.SliceOfN(rapid.SampledFrom([]string{"i", "it", "ite", "item"}), 0, 3).Draw(c.T, "items")
		extra := rapid.SampledFrom([]string{"append", "append", "prepend"}).Draw(c.T, "extra")
		for _, o := range ops {
			c.Showf("%v", o)
		}
		c.Showf("items %q\nexpression %q", items, tokens)

		var log []string
		note := func(s string) func() { return func() { log = append(log, s) } }
		ex := &expr.Expression{}
		for _, o := range ops {
			e := &expr.Expr{
				Name: o.name, Aliases: slices.Clone(o.aliases), Evaluate: o.evaluator(&log),
				Uses: note("uses " + o.name), Before: note("before " + o.name), After: note("after " + o.name),
			}
			for _, a := range o.args {
				e.Args = append(e.Args, a.cliArg())
			}
			ex.Exprs = append(ex.Exprs, e)
		}
		var outcome []error
		var walked []string
		evaluations := 0
		var buf bytes.Buffer
		app := &cli.App{
			Name: "app", Stdout: &buf, Stderr: &buf,
			Args: []*cli.Arg{{Name: "expression", Value: ex}},
			Action: func(ctx *cli.Context) {
				e := expr.FromContext(ctx, "expression")
				for b := range e.Bindings() {
					walked = append(walked, b.Expr().Name)
				}
				out := expr.NewBinding(expr.EvaluatorOf(func(v any, y func(any) error) error {
					log = append(log, "out "+v.(string))
					return y(v)
				}))
				if extra == "append" {
					e.Append(out)
				} else {
					e.Prepend(out)
				}
				var all []any
				for _, i := range items {
					all = append(all, i)
				}
				for evaluations < 2 {
					evaluations++
					log = append(log, "evaluate")
					outcome = append(outcome, e.Evaluate(ctx, all...))
				}
			},
		}
		err := app.RunContext(context.Background(), append([]string{"app", "--"}, tokens...))

		uses, problem := parseExpr(ops, tokens)
		if len(tokens) > 0 && tokens[0] == "--" {
			return // still part of the grammar of the command
		}
		if problem == "bare" {
			return // what a map makes of a key without a value is not claimed
		}
		if problem != "" {
			c.NonTrivial()
			c.Label("%s", strings.Fields(problem)[0])
			if err == nil {
				c.Failf("no error, expected %s", problem)
			}
			if evaluations > 0 {
				c.Failf("evaluated in spite of %v", err)
			}
			var pe *cli.ParseError
			if problem == "value" {
				if !strings.Contains(err.Error(), "number") {
					c.Failf("error is %v, expected a malformed value", err)
				}
				return
			}
			if !errors.As(err, &pe) {
				c.Failf("error is %T %v", err, err)
			}
			got := fmt.Sprint("code ", int(pe.Code))
			switch pe.Code {
			case cli.UnknownExpr:
				got = "unknown " + pe.Name
			case cli.ArgsMustPrecedeExprs:
				got = "args must precede " + pe.Value
			case cli.ExpectedArgument:
				got = "expected"
			}
			if got != problem {
				c.Failf("error is %v (%s), expected %s", err, got, problem)
			}
			return
		}
		if err != nil {
			c.Failf("error: %v", err)
		}
		seen := map[string]bool{}
		var names []string
		for _, u := range uses {
			names = append(names, u.name)
			if seen[u.name] && len(u.args) > 0 {
				c.NonTrivial()
			}
			seen[u.name] = true
		}
		c.Label("%d operators", len(uses))
		if !slices.Equal(names, walked) {
			c.Failf("operators %q, expected %q", walked, names)
		}

		var want []string
		for _, o := range ops {
			want = append(want, "uses "+o.name)
		}
		for _, o := range ops {
			want = append(want, "before "+o.name)
		}
		var wantErr error
		for range 2 {
			wantErr = nil
			want = append(want, "evaluate")
			for _, i := range items {
				if extra == "append" {
					wantErr = evaluate(uses, i, &want)
				} else {
					want = append(want, "out "+i)
					var rest []string
					wantErr = evaluate(uses, i, &rest)
					for _, r := range rest {
						if !strings.HasPrefix(r, "out ") {
							want = append(want, r)
						}
					}
				}
				if wantErr != nil {
					break
				}
			}
		}
		for _, e := range outcome {
			if e != wantErr {
				c.Failf("Evaluate gives %v, expected %v", e, wantErr)
			}
		}
		for i := len(want); i < len(log); i++ {
			// the order of After is not claimed
			if !strings.HasPrefix(log[i], "after ") {
				c.Failf("unexpected %q\nlog %q", log[i], log)
			}
		}
		if len(log) != len(want)+len(ops) {
			c.Failf("log\n%s\nexpected\n%s", strings.Join(log, "\n"), strings.Join(want, "\n"))
		}
		if !slices.Equal(log[:len(want)], want) {
			c.Failf("log\n%s\nexpected\n%s", strings.Join(log, "\n"), strings.Join(want, "\n"))
		}
	})
}

// TestP23_Help: the help screen lists the operators by category
func TestP23_Help(t *testing.T) {
	type operator struct {
		name     string
		aliases  []string
		category string
		help     string // with placeholders
		shown    string // as it is shown
		holders  []string
		args     []*cli.Arg
		argText  []string
		hidden   bool
	}
	pbt.Run(t, "several categories", 1500, func(c *pbt.C) {
		var ops []*operator
		names := rapid.Permutation([]string{"a", "b", "c", "add", "more", "zip", "exec", "take-all"}).Draw(c.T, "names")
		more := rapid.Permutation([]string{"x", "y", "ya", "yb", "z", "q"}).Draw(c.T, "aliases")
		categories := map[string]bool{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "n"); i < n; i++ {
			o := &operator{name: names[i]}
			if rapid.Bool().Draw(c.T, "alias") {
				o.aliases = more[i : i+1]
			}
			o.category = rapid.SampledFrom([]string{"", "", "One", "Two"}).Draw(c.T, "category")
			o.help = rapid.SampledFrom([]string{"", "", "does it", "does {THIS}", "from {A} to {B}"}).Draw(c.T, "help")
			o.shown = strings.NewReplacer("{", "", "}", "").Replace(o.help)
			o.holders = map[string][]string{"does {THIS}": {"THIS"}, "from {A} to {B}": {"A", "B"}}[o.help]
			for j, m := 0, rapid.IntRange(0, 3).Draw(c.T, "args"); j < m; j++ {
				a := &cli.Arg{Name: fmt.Sprint("arg", j), Value: new([]string)}
				text := fmt.Sprint("ARG", j)
				if j < len(o.holders) {
					text = o.holders[j]
				}
				a.NArg = rapid.SampledFrom([]any{1, 2, cli.TakeUntilNextFlag, 0}).Draw(c.T, "narg")
				if n := a.NArg.(int); n > 1 || n < 0 {
					text += "..."
				}
				o.args = append(o.args, a)
				o.argText = append(o.argText, text)
			}
			o.hidden = rapid.IntRange(0, 4).Draw(c.T, "hidden") == 0
			if !o.hidden {
				categories[o.category] = true
			}
			ops = append(ops, o)
			c.Showf("%+v", *o)
		}
		sorted := rapid.Bool().Draw(c.T, "sorted")
		c.Showf("sorted %v", sorted)
		if len(categories) > 1 {
			c.NonTrivial()
		}

		ex := &expr.Expression{}
		for _, o := range ops {
			e := &expr.Expr{Name: o.name, Aliases: slices.Clone(o.aliases), Category: o.category, HelpText: o.help, Args: o.args}
			if o.hidden {
				e.Options = cli.Hidden
			}
			// what is not in the fields is set by the actions or Prototypes of Uses
			var uses cli.ActionPipeline
			var proto cli.Prototype
			way := func() int { return rapid.IntRange(0, 2).Draw(c.T, "way") }
			ways := [5]int{way(), way(), way(), way(), way()}
			switch ways[0] {
			case 1:
				e.HelpText = ""
				uses = append(uses, cli.HelpText(o.help))
			case 2:
				e.HelpText, proto.HelpText = "", o.help
			}
			switch ways[1] {
			case 1:
				e.Category = ""
				uses = append(uses, cli.Category(o.category))
			case 2:
				e.Category, proto.Category = "", o.category
			}
			if ways[2] == 2 {
				e.Aliases, proto.Aliases = nil, slices.Clone(o.aliases)
			}
			switch ways[3] {
			case 1:
				if o.hidden {
					e.Options = 0
					uses = append(uses, cli.Hidden)
				}
			case 2:
				e.Options, proto.Options = 0, e.Options
			}
			switch ways[4] {
			case 1:
				e.Args = nil
				uses = append(uses, cli.AddArgs(o.args...))
			case 2:
				e.Args = nil
				uses = append(uses, cli.ActionOf(func(c *cli.Context) error { return c.AddArgs(o.args...) }))
			}
			if rapid.Bool().Draw(c.T, "usesPrototype") || slices.Contains(ways[:4], 2) {
				proto.ManualText = "manual"
				if rapid.Bool().Draw(c.T, "first") {
					uses = append(cli.ActionPipeline{proto}, uses...)
				} else {
					uses = append(uses, proto, cli.Prototype{Name: "not this", UsageText: "u"})
				}
			}
			if len(uses) > 0 {
				e.Uses = uses
			}
			c.Showf("help, category, aliases, options, args set by %v", ways)
			ex.Exprs = append(ex.Exprs, e)
		}
		a := &cli.Arg{Name: "expression", Value: ex}
		if sorted {
			a.Options = cli.SortedExprs
		}
		var buf bytes.Buffer
		app := &cli.App{Name: "app", Stdout: &buf, Stderr: &buf, Args: []*cli.Arg{a}}
		args := rapid.SampledFrom([][]string{{"app", "--help"}, {"app", "sub", "--help"}, {"app", "help", "sub"}, {"app", "--help", "sub"}}).Draw(c.T, "args")
		c.Showf("%q", args)
		if len(args) > 2 {
			app.Commands = []*cli.Command{{Name: "sub", Args: app.Args}}
			app.Args = nil
		}
		err := app.RunContext(context.Background(), args)
		var exit cli.ExitCoder
		if (err != nil || args[1] != "help") && (!errors.As(err, &exit) || exit.ExitCode() != 0) {
			c.Failf("error %v", err)
		}

		var want []string
		if sorted {
			slices.SortFunc(ops, func(x, y *operator) int { return strings.Compare(x.name, y.name) })
		}
		spelled := func(o *operator) string {
			short, long := "", ""
			for _, n := range append([]string{o.name}, o.aliases...) {
				if len(n) == 1 && short == "" {
					short = "-" + n
				} else if len(n) > 1 && long == "" {
					long = "-" + n
				}
			}
			if short != "" && long != "" {
				return short + ", " + long
			}
			return short + long
		}
		var cats []string
		for k := range categories {
			cats = append(cats, k)
		}
		slices.Sort(cats)
		plain := len(cats) == 1 && cats[0] == ""
		for _, cat := range cats {
			if cat != "" {
				want = append(want, cat+":")
			}
			documented := plain
			var inline, lines []string
			for _, o := range ops {
				if o.hidden || o.category != cat {
					continue
				}
				documented = documented || o.help != ""
				inline = append(inline, spelled(o))
				lines = append(lines, strings.Join(strings.Fields(strings.Join(append([]string{spelled(o)}, append(o.argText, o.shown)...), " ")), " "))
			}
			if documented {
				want = append(want, lines...)
			} else {
				want = append(want, strings.Join(inline, ", "))
			}
		}
		var got []string
		_, after, found := strings.Cut(buf.String(), "Expressions:")
		after, _, _ = strings.Cut(after, "Global options")
		for _, l := range strings.Split(after, "\n") {
			if l = strings.Join(strings.Fields(l), " "); l != "" {
				got = append(got, l)
			}
		}
		if found != (len(want) > 0) || !slices.Equal(got, want) {
			c.Failf("the screen is\n%s\ngot\n%s\nwant\n%s", buf.String(), strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	})
}

// TestP23_Bindings builds the pipeline by hand: it keeps the order in which it
// was made, walks and evaluates in that order, and stops where it is told to.
func TestP23_Bindings(t *testing.T) {
	pbt.Run(t, "at least 3 bindings", 1500, func(c *pbt.C) {
		e := &expr.Expression{}
		type bound struct {
			name   string
			expr   *expr.Expr
			lookup cli.Lookup
			pass   bool
		}
		var (
			want  []bound
			log   []string
			errAt = errors.New("stop")
			stop  string
		)
		n := rapid.IntRange(0, 6).Draw(c.T, "bindings")
		if n >= 3 {
			c.NonTrivial()
		}
		for i := range n {
			b := bound{name: fmt.Sprint("b", i), pass: rapid.IntRange(0, 5).Draw(c.T, "pass") > 0}
			ev := expr.EvaluatorOf(func(v any, y func(any) error) error {
				log = append(log, fmt.Sprint(b.name, " ", v))
				if b.name == stop {
					return errAt
				}
				if b.pass {
					return y(v.(string) + "'")
				}
				return nil
			})
			var args []any
			if kind := rapid.IntRange(0, 2).Draw(c.T, "args"); kind > 0 {
				b.expr = &expr.Expr{Name: b.name}
				args = append(args, b.expr)
				if kind > 1 {
					b.lookup = cli.LookupValues{"v": i}
					args = append(args, b.lookup)
				}
			}
			x := expr.NewBinding(ev, args...)
			if x.Expr() != b.expr {
				c.Failf("Expr of %s is %v", b.name, x.Expr())
			}
			if v := x.Value("v"); b.lookup != nil && v != i || b.lookup == nil && v != nil {
				c.Failf("Value of %s is %v", b.name, v)
			}
			if x.Value("other") != nil {
				c.Failf("Value of %s is %v", b.name, x.Value("other"))
			}
			if rapid.Bool().Draw(c.T, "prepend") {
				e.Prepend(x)
				want = slices.Insert(want, 0, b)
			} else {
				e.Append(x)
				want = append(want, b)
			}
			c.Showf("%s: %d args, passes: %v", b.name, len(args), b.pass)
		}
		if n > 0 && rapid.IntRange(0, 2).Draw(c.T, "stop?") == 0 {
			stop = fmt.Sprint("b", rapid.IntRange(0, n-1).Draw(c.T, "stop"))
		}
		items := rapid.SliceOfN(rapid.SampledFrom([]string{"x", "y"}), 0, 3).Draw(c.T, "items")
		var names []string
		for _, b := range want {
			names = append(names, b.name)
		}
		c.Showf("order %q, error at %q, items %q", names, stop, items)

		var all []any
		var wantLog []string
		var wantErr error
		for _, i := range items {
			all = append(all, i)
		}
	items:
		for _, i := range items {
			for _, b := range want {
				wantLog = append(wantLog, b.name+" "+i)
				if b.name == stop {
					wantErr = errAt
					break items
				}
				if !b.pass {
					break
				}
				i += "'"
			}
		}
		for range 2 {
			log = nil
			if err := e.Evaluate(context.Background(), all...); err != wantErr {
				c.Failf("Evaluate gives %v, expected %v", err, wantErr)
			}
			if !slices.Equal(log, wantLog) {
				c.Failf("evaluated %q, expected %q", log, wantLog)
			}
		}

		// walking, up to some place
		at := rapid.IntRange(0, n).Draw(c.T, "at")
		seen := 0
		for b := range e.Bindings() {
			if b.Expr() != want[seen].expr {
				c.Failf("binding %d is %v", seen, b.Expr())
			}
			if seen++; seen == at {
				break
			}
		}
		if wantSeen := at; at == 0 && seen != n || at > 0 && seen != wantSeen {
			c.Failf("walked over %d of %d bindings, stopping at %d", seen, n, at)
		}
		seen = 0
		err := e.Walk(func(b expr.Binding) error {
			if seen++; seen == at {
				return errAt
			}
			return nil
		})
		if at == 0 && (err != nil || seen != n) || at > 0 && (err != errAt || seen != at) {
			c.Failf("Walk gives %v after %d of %d, expected to stop at %d", err, seen, n, at)
		}
		if err := e.Walk(nil); err != nil {
			c.Failf("Walk(nil) gives %v", err)
		}
	})
}

// TestP23_Operators: operators that initializers add or edit are as if they had been written so
func TestP23_Operators(t *testing.T) {
	pbt.Run(t, "at least two operators, one of them edited or added", 1500, func(c *pbt.C) {
		type operator struct {
			name, help, manual, usage, category, description string
			aliases                                          []string
			hidden                                           bool
			data                                             map[string]any
			result                                           string
		}
		var log []string
		ev := func(result string) expr.Evaluator {
			return expr.EvaluatorOf(func(v any, y func(any) error) error {
				log = append(log, result)
				return y(v)
			})
		}
		var want []*operator
		ex := &expr.Expression{}
		var uses []cli.Action
		edited := false
		n := rapid.IntRange(1, 4).Draw(c.T, "operators")
		var batch []*expr.Expr
		for i := range n {
			o := &operator{name: fmt.Sprint("op", i), result: fmt.Sprint("r", i), data: map[string]any{}}
			want = append(want, o)
			x := &expr.Expr{Name: o.name, Evaluate: ev(o.result)}
			if rapid.Bool().Draw(c.T, "aliases") {
				o.aliases = []string{fmt.Sprint("alias", i)}
				x.Aliases = slices.Clone(o.aliases)
			}
			var pipeline []cli.Action
			for j, m := 0, rapid.IntRange(0, 4).Draw(c.T, "edits"); j < m; j++ {
				edited = true
				text := fmt.Sprint("text", i, j)
				kind := rapid.SampledFrom([]string{"help", "manual", "usage", "category", "description", "alias", "hidden", "data", "undata", "evaluator", "name"}).Draw(c.T, "edit")
				c.Showf("%s: %s %s", o.name, kind, text)
				switch kind {
				case "help":
					o.help = text
					pipeline = append(pipeline, cli.HelpText(text))
				case "manual":
					o.manual = text
					pipeline = append(pipeline, cli.ManualText(text))
				case "usage":
					o.usage = text
					pipeline = append(pipeline, cli.UsageText(text))
				case "category":
					o.category = text
					pipeline = append(pipeline, cli.Category(text))
				case "description":
					o.description = text
					pipeline = append(pipeline, cli.Description(text))
				case "alias":
					o.aliases = append(o.aliases, text)
					pipeline = append(pipeline, cli.Prototype{Aliases: []string{text}})
				case "hidden":
					o.hidden = true
					pipeline = append(pipeline, cli.Hidden)
				case "data":
					o.data["key"] = text
					pipeline = append(pipeline, cli.Data("key", text))
				case "undata":
					delete(o.data, "key")
					pipeline = append(pipeline, cli.Data("key", nil))
				case "evaluator":
					o.result = text
					pipeline = append(pipeline, expr.SetEvaluator(ev(text)))
				case "name":
					o.name = text
					pipeline = append(pipeline, cli.ActionFunc(func(c *cli.Context) error {
						c.Target().(*expr.Expr).SetName(text)
						return nil
					}))
				}
			}
			x.Uses = cli.ActionPipeline(pipeline)
			switch kind := rapid.SampledFrom([]string{"given", "given", "AddExpr", "AddExprs"}).Draw(c.T, "how"); {
			case kind == "given" && len(uses) == 0 && len(batch) == 0:
				ex.Exprs = append(ex.Exprs, x)
			case kind == "AddExprs":
				batch = append(batch, x)
			default:
				edited = true
				if len(batch) > 0 {
					uses = append(uses, expr.AddExprs(batch...))
					batch = nil
				}
				uses = append(uses, expr.AddExpr(x))
			}
		}
		if len(batch) > 0 {
			edited = true
			uses = append(uses, expr.AddExprs(batch...))
		}
		var tokens, wantLog []string
		for range rapid.IntRange(0, 4).Draw(c.T, "uses") {
			o := rapid.SampledFrom(want).Draw(c.T, "operator")
			tokens = append(tokens, "-"+rapid.SampledFrom(append([]string{o.name}, o.aliases...)).Draw(c.T, "spelling"))
			wantLog = append(wantLog, o.result)
		}
		c.Showf("%d operators, %d added, expression %q", n, n-len(ex.Exprs), tokens)
		if n > 1 && edited {
			c.NonTrivial()
		}

		ran := false
		app := &cli.App{
			Name: "app", Stdout: new(bytes.Buffer), Stderr: new(bytes.Buffer),
			Args: []*cli.Arg{{Name: "expression", Value: ex, Uses: cli.ActionPipeline(uses)}},
			Action: func(ctx *cli.Context) error {
				ran = true
				e := expr.FromContext(ctx, "expression")
				var visible []string
				for i, x := range e.Exprs {
					o := want[i]
					got := fmt.Sprintf("%q %q %q %q %q %v", x.HelpText, x.ManualText, x.UsageText, x.Category, fmt.Sprint(x.Description), x.Data["key"])
					description := any(o.description)
					if o.description == "" {
						description = nil
					}
					wanted := fmt.Sprintf("%q %q %q %q %q %v", o.help, o.manual, o.usage, o.category, fmt.Sprint(description), o.data["key"])
					if got != wanted {
						c.Failf("operator %s is %s, expected %s", o.name, got, wanted)
					}
					if !slices.Equal(x.Names(), append([]string{o.name}, o.aliases...)) {
						c.Failf("names of the operator are %q, expected %s %q", x.Names(), o.name, o.aliases)
					}
					if v, ok := x.LookupData("key"); v != o.data["key"] || ok != (o.data["key"] != nil) {
						c.Failf("data of %s is %v %v, expected %v", o.name, v, ok, o.data)
					}
					if !o.hidden {
						visible = append(visible, o.name)
					}
				}
				var got []string
				for _, x := range e.VisibleExprs() {
					got = append(got, x.Name)
				}
				if !slices.Equal(got, visible) {
					c.Failf("visible operators are %q, expected %q", got, visible)
				}
				return e.Evaluate(ctx, "item")
			},
		}
		if err := app.RunContext(context.Background(), append([]string{"app", "--"}, tokens...)); err != nil {
			c.Failf("error: %v", err)
		}
		if !ran || !slices.Equal(log, wantLog) {
			c.Failf("evaluated %q, expected %q", log, wantLog)
		}
	})
}

// TestP23_Invalid: operators without a name, with an invalid one or with that of another are rejected
func TestP23_Invalid(t *testing.T) {
	pbt.Run(t, "the operators are invalid", 800, func(c *pbt.C) {
		names := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "a1", "@", "x-y", "", "a b", "=", "é"}), 1, 5).Draw(c.T, "names")
		c.Showf("%q", names)
		invalid := false
		ex := &expr.Expression{}
		for i, n := range names {
			ex.Exprs = append(ex.Exprs, &expr.Expr{Name: n})
			invalid = invalid || slices.Contains([]string{"", "a b", "=", "é"}, n) || slices.Contains(names[:i], n)
		}
		if invalid {
			c.NonTrivial()
		}
		app := &cli.App{Name: "app", Stdout: new(bytes.Buffer), Stderr: new(bytes.Buffer), Args: []*cli.Arg{{Name: "expression", Value: ex}}, Action: func() {}}
		_, err := app.Initialize(context.Background())
		if (err != nil) != invalid {
			c.Failf("error is %v, expected one: %v", err, invalid)
		}
	})
}
