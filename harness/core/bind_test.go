package core

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// btarget is a custom value which others are bound to
type btarget struct {
	sets  []string
	bound []string
}

func (t *btarget) Set(s string) error { t.sets = append(t.sets, s); return nil }
func (t *btarget) String() string     { return strings.Join(t.sets, ",") }

// brecord is a custom value to be bound
type brecord struct{ text string }

func (r *brecord) Set(s string) error { r.text = "rec " + s; return nil }
func (r *brecord) String() string     { return r.text }
func (r *brecord) Copy() *brecord     { c := *r; return &c }
func (r *brecord) Reset()             { r.text = "" }

type bctxKey int

var errBound = errors.New("the bind function fails")

// bbinder makes the action. how is "Bind", "BindContext" or "BindIndirect"; name is the
// target for the last two; with valopt >= 0, the value is given.
type bkind struct {
	name   string
	values []string
	bool   bool
	list   bool
	text   func(raw []string) string // of the value from the last or all occurrences
	value  func(raw string) any      // Value for the flag which already has the type
	action func(how string, level int, target any, valopt string, note func(t *btarget, v string) error) cli.Action
}

func bkindOf[V any](name string, values []string, parse func(string) V, show func(V) string) bkind {
	return bkind{
		name:   name,
		values: values,
		bool:   reflect.TypeFor[V]().Kind() == reflect.Bool,
		text:   func(raw []string) string { return show(parse(raw[len(raw)-1])) },
		value: func(s string) any {
			if v, ok := any(parse(s)).(interface{ Set(string) error }); ok {
				return v
			}
			v := parse(s)
			return &v
		},
		action: func(how string, level int, target any, valopt string, note func(t *btarget, v string) error) cli.Action {
			var opt []V
			if valopt != "" {
				opt = []V{parse(valopt)}
			}
			bind := func(t *btarget, v V) error { return note(t, show(v)) }
			switch how {
			case "Bind":
				return cli.Bind(func(v V) error { return note(nil, show(v)) }, opt...)
			case "BindContext":
				return cli.BindContext(func(ctx context.Context) *btarget { return ctx.Value(bctxKey(level)).(*btarget) }, bind, opt...)
			case "BindContext name":
				return cli.BindContext(func(ctx context.Context) *btarget { return cli.FromContext(ctx).Value(target).(*btarget) }, bind, opt...)
			}
			return cli.BindIndirect(target, bind, opt...)
		},
	}
}

func must[V any](v V, err error) V {
	if err != nil {
		panic(err)
	}
	return v
}

func showOf[V any](v V) string { return fmt.Sprint(v) }

var bkinds = func() []bkind {
	ks := []bkind{
		bkindOf("string", []string{"a", "b c", "x=y"}, func(s string) string { return s }, showOf),
		bkindOf("int", []string{"0", "7", "88"}, func(s string) int { return must(strconv.Atoi(s)) }, showOf),
		bkindOf("uint16", []string{"0", "7", "65535"}, func(s string) uint16 { return uint16(must(strconv.Atoi(s))) }, showOf),
		bkindOf("int64", []string{"-1", "7", "4294967296"}, func(s string) int64 { return must(strconv.ParseInt(s, 0, 64)) }, showOf),
		bkindOf("float64", []string{"0.5", "7", "1e9"}, func(s string) float64 { return must(strconv.ParseFloat(s, 64)) }, showOf),
		bkindOf("bool", []string{"true", "false"}, func(s string) bool { return s == "true" }, showOf),
		bkindOf("duration", []string{"1s", "2m0s"}, func(s string) time.Duration { return must(time.ParseDuration(s)) }, showOf),
		bkindOf("url", []string{"http://a/b", "c"}, func(s string) *url.URL { return must(url.Parse(s)) }, showOf),
		bkindOf("regexp", []string{"a+", "c?"}, func(s string) *regexp.Regexp { return regexp.MustCompile(s) }, showOf),
		bkindOf("custom", []string{"a", "bb"}, func(s string) *brecord { return &brecord{"rec " + s} }, func(r *brecord) string { return r.text }),
		bkindOf("file", []string{"a.txt", "d/b.txt"}, func(s string) *cli.File { return &cli.File{Name: s} }, func(f *cli.File) string { return f.Name }),
		bkindOf("namevalue", []string{"a=b", "c=d"}, func(s string) *cli.NameValue {
			k, v, _ := strings.Cut(s, "=")
			return &cli.NameValue{Name: k, Value: v}
		}, func(n *cli.NameValue) string { return n.Name + "=" + n.Value }),
	}
	list := bkindOf("list", []string{"a", "b"}, func(s string) []string { return []string{s} }, func(v []string) string { return strings.Join(v, "|") })
	list.list = true
	list.text = func(raw []string) string { return strings.Join(raw, "|") }
	m := bkindOf("map", []string{"a=1", "b=2", "c=3"}, func(s string) map[string]string {
		k, v, _ := strings.Cut(s, "=")
		return map[string]string{k: v}
	}, func(v map[string]string) string {
		var res []string
		for k, s := range v {
			res = append(res, k+"="+s)
		}
		sort.Strings(res)
		return strings.Join(res, "|")
	})
	m.list = true
	m.text = func(raw []string) string {
		all := map[string]bool{}
		for _, s := range raw {
			all[s] = true
		}
		var res []string
		for s := range all {
			res = append(res, s)
		}
		sort.Strings(res)
		return strings.Join(res, "|")
	}
	return append(ks, list, m)
}()

// TestP34_Bind: the function is called with the value, once for a flag which is used, on the
// target which is named.
func TestP34_Bind(t *testing.T) {
	pbt.Run(t, "random apps with a sub-command, whose flags and last args of 14 types are bound with Bind, BindContext or BindIndirect, to a given value or their own, to targets of their own command or its parent by name or reference; some fail; non-trivial: two are called", 8000, func(c *pbt.C) {
		type binder struct {
			kind   bkind
			name   string
			level  int
			arg    bool
			how    string
			target int
			ref    string
			valopt string
			each   bool
			hasVal bool
			raw    []string
			fails  int // index of the call which fails, or -1
		}
		depth := rapid.IntRange(0, 1).Draw(c.T, "depth")
		// targets: per level, a flag or an arg
		type btarg struct {
			name  string
			level int
			arg   bool
			value *btarget
			raw   []string
			flag  *cli.Flag
			argp  *cli.Arg
		}
		var targets []*btarg
		for l := 0; l <= depth; l++ {
			for i, n := 0, rapid.IntRange(1, 2).Draw(c.T, "ntargets"); i < n; i++ {
				tg := &btarg{name: fmt.Sprintf("target%d%d", l, i), level: l, value: new(btarget)}
				// args are only given to the last command
				tg.arg = i == 0 && rapid.Bool().Draw(c.T, "target is an arg") && l == depth
				for j, m := 0, rapid.IntRange(0, 2).Draw(c.T, "nsets"); j < m; j++ {
					tg.raw = append(tg.raw, fmt.Sprintf("s%d", j))
				}
				if tg.arg && len(tg.raw) > 1 {
					tg.raw = tg.raw[:1]
				}
				targets = append(targets, tg)
			}
		}
		var binders []*binder
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "nbinders"); i < n; i++ {
			b := &binder{
				kind:  rapid.SampledFrom(bkinds).Draw(c.T, "kind"),
				name:  "bind" + string(rune('a'+i)),
				level: rapid.IntRange(0, depth).Draw(c.T, "level"),
				how:   rapid.SampledFrom([]string{"Bind", "BindContext", "BindContext name", "BindIndirect", "BindIndirect"}).Draw(c.T, "how"),
				fails: -1,
			}
			if rapid.Bool().Draw(c.T, "given") {
				b.valopt = rapid.SampledFrom(b.kind.values).Draw(c.T, "valopt")
			}
			var ok []int
			for j, tg := range targets {
				if tg.level <= b.level {
					ok = append(ok, j)
				}
			}
			b.target = rapid.SampledFrom(ok).Draw(c.T, "target")
			b.ref = rapid.SampledFrom([]string{"name", "pointer"}).Draw(c.T, "ref")
			b.each = rapid.IntRange(0, 3).Draw(c.T, "each") == 0 && !b.kind.list && (b.valopt != "" || b.kind.name != "file") // which has no Copy
			b.hasVal = rapid.IntRange(0, 3).Draw(c.T, "hasValue") == 0 && b.valopt == ""
			// how many times it occurs
			for j, m := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(c.T, "nocc"); j < m; j++ {
				v := rapid.SampledFrom(b.kind.values).Draw(c.T, "value")
				if b.valopt != "" {
					v = rapid.SampledFrom([]string{"true", "false"}).Draw(c.T, "bool value")
				}
				b.raw = append(b.raw, v)
			}
			if b.kind.name == "namevalue" && len(b.raw) > 1 && b.valopt == "" {
				b.raw = b.raw[:1]
			}
			if len(b.raw) > 0 && rapid.IntRange(0, 12).Draw(c.T, "fails") == 7 {
				b.fails = 0
				if b.each {
					b.fails = rapid.IntRange(0, len(b.raw)-1).Draw(c.T, "fails at")
				}
			}
			binders = append(binders, b)
		}
		// the last binder of the last level can be an arg
		for i := len(binders) - 1; i >= 0; i-- {
			b := binders[i]
			if b.level == depth && rapid.IntRange(0, 2).Draw(c.T, "is arg") == 0 {
				b.arg, b.each, b.hasVal = true, false, false
				if len(b.raw) > 1 && (b.valopt != "" || b.kind.name != "list") {
					b.raw = b.raw[:1]
				}
				if b.fails > 0 {
					b.fails = 0
				}
				if b.kind.name == "namevalue" {
					b.arg = false
				}
				for _, tg := range targets {
					if b.arg && tg.arg && len(tg.raw) == 0 {
						b.raw, b.fails = nil, -1 // it would take the values of the arg before
					}
				}
				break
			}
		}

		var got []string
		var want []string
		var wantErr bool
		wantBound := make([][]string, len(targets))
		app := newApp("app")
		ctxTargets := []*btarget{{}, {}}
		sub := &cli.Command{Name: "sub"}
		flags := []*[]*cli.Flag{&app.Flags, &sub.Flags}
		args := []*[]*cli.Arg{&app.Args, &sub.Args}
		app.Uses = cli.ContextValue(bctxKey(0), ctxTargets[0])
		sub.Uses = cli.ContextValue(bctxKey(1), ctxTargets[1])
		if depth == 1 {
			app.Commands = []*cli.Command{sub}
		}
		tokens := make([][]string, depth+1)
		var argTokens []string
		for _, tg := range targets {
			if tg.arg {
				tg.argp = &cli.Arg{Name: tg.name, Value: tg.value}
				*args[tg.level] = append(*args[tg.level], tg.argp)
				argTokens = append(argTokens, tg.raw...)
			} else {
				tg.flag = &cli.Flag{Name: tg.name, Value: tg.value}
				*flags[tg.level] = append(*flags[tg.level], tg.flag)
				for _, r := range tg.raw {
					tokens[tg.level] = append(tokens[tg.level], "--"+tg.name+"="+r)
				}
			}
		}
		for _, b := range binders {
			tg := targets[b.target]
			var ref any = tg.name
			if b.ref == "pointer" {
				if tg.arg {
					ref = tg.argp
				} else {
					ref = tg.flag
				}
			}
			calls := 0
			var wantTarget *btarget
			switch b.how {
			case "Bind":
			case "BindContext":
				wantTarget = ctxTargets[b.level]
			default:
				wantTarget = tg.value
			}
			note := func(t *btarget, v string) error {
				if t != wantTarget {
					got = append(got, fmt.Sprintf("%s on the wrong target", b.name))
				}
				got = append(got, b.name+" "+v)
				if t != nil {
					t.bound = append(t.bound, b.name+" "+v)
				}
				calls++
				if calls-1 == b.fails {
					return errBound
				}
				return nil
			}
			act := b.kind.action(b.how, b.level, ref, b.valopt, note)
			uses := rapid.SampledFrom([]any{act, cli.Pipeline(func() {}, act), cli.Setup{Uses: act}, cli.Prototype{Setup: cli.Setup{Uses: act}}}).Draw(c.T, "where")
			if b.arg {
				a := &cli.Arg{Name: b.name, Uses: uses}
				*args[b.level] = append(*args[b.level], a)
			} else {
				f := &cli.Flag{Name: b.name, Uses: uses}
				if b.each {
					f.Options |= cli.EachOccurrence
				}
				if b.hasVal {
					f.Value = b.kind.value(b.kind.values[0])
					if b.kind.list {
						f.Value = nil
					}
				}
				*flags[b.level] = append(*flags[b.level], f)
			}
			if b.arg {
				argTokens = append(argTokens, b.raw...)
				continue
			}
			for _, r := range b.raw {
				isBool := b.kind.bool || b.valopt != ""
				switch {
				case isBool && r == "true" && rapid.Bool().Draw(c.T, "bare"):
					tokens[b.level] = append(tokens[b.level], "--"+b.name)
				case isBool || b.kind.list || rapid.Bool().Draw(c.T, "inline"): // a list would go on to the next tokens
					tokens[b.level] = append(tokens[b.level], "--"+b.name+"="+r)
				default:
					tokens[b.level] = append(tokens[b.level], "--"+b.name, r)
				}
			}
		}
		// expected: flags of each level in the order of definition, then args
		ncalls := 0
	expect:
		for l := 0; l <= depth; l++ {
			for _, arg := range []bool{false, true} {
				for _, b := range binders {
					if b.level != l || b.arg != arg || len(b.raw) == 0 {
						continue
					}
					occ := [][]string{b.raw}
					if b.each {
						occ = nil
						for _, r := range b.raw {
							occ = append(occ, []string{r})
						}
					}
					for i, raw := range occ {
						v := ""
						if b.valopt != "" {
							v = b.kind.text([]string{b.valopt})
						} else {
							v = b.kind.text(raw)
						}
						want = append(want, b.name+" "+v)
						ncalls++
						if b.how == "BindIndirect" || b.how == "BindContext name" {
							wantBound[b.target] = append(wantBound[b.target], b.name+" "+v)
						}
						if i == b.fails {
							wantErr = true
							break expect
						}
					}
				}
			}
		}
		if ncalls >= 2 {
			c.NonTrivial()
		}
		line := append([]string{}, tokens[0]...)
		if depth == 1 {
			line = append(append(line, "sub"), tokens[1]...)
		}
		if len(argTokens) > 0 {
			line = append(append(line, "--"), argTokens...)
		}
		for _, b := range binders {
			c.Showf("%s %s level %d arg %v %s target %s by %s valopt %q each %v raw %q fails %d", b.name, b.kind.name, b.level, b.arg, b.how, targets[b.target].name, b.ref, b.valopt, b.each, b.raw, b.fails)
		}
		c.Showf("tokens %q", line)
		err := run(app, line...)
		if wantErr != (err != nil) || (wantErr && !errors.Is(err, errBound)) {
			c.Failf("error %v, want one: %v", err, wantErr)
		}
		if !reflect.DeepEqual(got, want) {
			c.Failf("called\n%q, want\n%q", got, want)
		}
		for i, tg := range targets {
			if !reflect.DeepEqual(tg.value.bound, wantBound[i]) {
				c.Failf("bound to %s: %q, want %q", tg.name, tg.value.bound, wantBound[i])
			}
			if !wantErr && !reflect.DeepEqual(tg.value.sets, tg.raw) {
				c.Failf("%s was set to %q, want %q", tg.name, tg.value.sets, tg.raw)
			}
		}
	})
}

// TestP34_Accessory: the flag next to another one has the documented name and
// category, does what the prototype says, and affects the value of the other.
func TestP34_Accessory(t *testing.T) {
	pbt.Run(t, "random apps whose flags, args and those of a sub-command have accessory flags by prototype, action or none, which are named after the prototype, the other flag or on their own, and which are used in some occurrences; non-trivial: an accessory is used which is named after the other", 6000, func(c *pbt.C) {
		type acc struct {
			name     string // parameter
			proto    string // name in the prototype
			want     string
			category string
			wantCat  string
			help     string
			extra    string
			kind     string
			occ      int
		}
		type dep struct {
			name, alias string
			category    string
			arg         bool
			level       int
			fileset     bool
			value       *btarget
			fs          *cli.FileSet
			accs        []*acc
			vals        []string
		}
		depth := rapid.IntRange(0, 1).Draw(c.T, "depth")
		names := rapid.Permutation([]string{"alpha", "beta", "gamma-ray", "d"}).Draw(c.T, "names")
		var deps []*dep
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "ndeps"); i < n; i++ {
			d := &dep{name: names[i], level: rapid.IntRange(0, depth).Draw(c.T, "level"), value: new(btarget), fs: new(cli.FileSet)}
			d.category = rapid.SampledFrom([]string{"", "Cat1", "Cat 2"}).Draw(c.T, "category")
			d.arg = rapid.Bool().Draw(c.T, "arg") && d.level == depth
			d.fileset = rapid.Bool().Draw(c.T, "fileset")
			if !d.arg && rapid.Bool().Draw(c.T, "has alias") {
				d.alias = string(rune('p' + i))
			}
			for j, m := 0, rapid.IntRange(1, 3).Draw(c.T, "naccs"); j < m; j++ {
				a := &acc{kind: rapid.SampledFrom([]string{"prototype", "prototype pointer", "action", "nil", "0", "context", "recursive"}).Draw(c.T, "kind")}
				a.proto = fmt.Sprintf("%s%d%d", rapid.SampledFrom([]string{"size", "y-z"}).Draw(c.T, "proto"), i, j)
				if !d.fileset && a.kind == "recursive" {
					a.kind = "prototype"
				}
				if a.kind == "recursive" {
					a.proto = "recursive"
				}
				noName := a.kind == "nil" || a.kind == "0"
				switch k := rapid.SampledFrom([]string{"", "-", "own"}).Draw(c.T, "naming"); {
				case k == "own" || noName || a.kind == "recursive":
					a.name = fmt.Sprintf("own-%d%d", i, j)
					a.want = a.name
				case k == "-":
					a.name = "-"
					a.want = d.name + "-" + a.proto
				default:
					a.want = a.proto
				}
				if a.kind == "recursive" && rapid.Bool().Draw(c.T, "recursive from") && j == 0 {
					a.name = "-"
					a.want = d.name + "-recursive"
				}
				a.wantCat = d.category
				if !noName && a.kind != "recursive" {
					a.help = rapid.SampledFrom([]string{"", "helps"}).Draw(c.T, "help")
					a.category = rapid.SampledFrom([]string{"", "", "Own"}).Draw(c.T, "own category")
					if a.category != "" {
						a.wantCat = a.category
					}
				}
				a.extra = rapid.SampledFrom([]string{"", "said"}).Draw(c.T, "extra")
				a.occ = rapid.IntRange(0, 2).Draw(c.T, "nocc")
				d.accs = append(d.accs, a)
			}
			for j, m := 0, rapid.IntRange(0, 2).Draw(c.T, "nvals"); j < m; j++ {
				d.vals = append(d.vals, fmt.Sprintf("v%d", j))
			}
			if d.arg && len(d.vals) > 1 {
				d.vals = d.vals[:1]
			}
			deps = append(deps, d)
		}
		app := newApp("app")
		sub := &cli.Command{Name: "sub"}
		flags := []*[]*cli.Flag{&app.Flags, &sub.Flags}
		args := []*[]*cli.Arg{&app.Args, &sub.Args}
		if depth == 1 {
			app.Commands = []*cli.Command{sub}
		}
		tokens := make([][]string, depth+1)
		var argTokens []string
		argsEnd := false
		wantBound := map[string][]string{}
		for _, d := range deps {
			var uses []any
			for _, a := range d.accs {
				var extra []cli.Action
				if a.extra != "" {
					extra = append(extra, cli.Description(a.extra))
				}
				add := func(b string) error { d.value.bound = append(d.value.bound, a.want+" "+b); return nil }
				on := func() error { return add("on") }
				proto := cli.Prototype{Name: a.proto, HelpText: a.help, Category: a.category, Value: new(bool), Setup: cli.Setup{Action: cli.ActionOf(on)}}
				var u cli.Action
				switch {
				case a.kind == "recursive":
					u = cli.Accessory(a.name, (*cli.FileSet).RecursiveFlag, extra...)
				case a.kind == "0":
					// the action is with the others
					u = cli.Accessory0(a.name, append(extra, cli.ActionOf(cli.Prototype{Value: new(bool)}), cli.At(cli.ActionTiming, cli.ActionOf(on)))...)
				case a.kind == "nil":
					extra = append(extra, cli.ActionOf(cli.Prototype{Value: new(bool)}), cli.At(cli.ActionTiming, cli.ActionOf(on)))
					if d.fileset {
						u = cli.Accessory(a.name, (func(*cli.FileSet) cli.Prototype)(nil), extra...)
					} else {
						u = cli.Accessory(a.name, (func(*btarget) cli.Action)(nil), extra...)
					}
				case d.fileset:
					u = cli.Accessory(a.name, func(f *cli.FileSet) cli.Prototype {
						if f != d.fs {
							d.value.bound = append(d.value.bound, "another value")
						}
						return proto
					}, extra...)
				case a.kind == "prototype":
					u = cli.Accessory(a.name, func(v *btarget) cli.Prototype {
						p := proto
						p.Setup = cli.Setup{Uses: cli.Bind(func(b bool) error { v.bound = append(v.bound, a.want+" on"); return nil })}
						return p
					}, extra...)
				case a.kind == "prototype pointer":
					u = cli.Accessory(a.name, func(v *btarget) *cli.Prototype { return &proto }, extra...)
				default:
					// with an indirect binding by name
					u = cli.Accessory(a.name, func(v *btarget) cli.Action {
						return cli.Pipeline(cli.Named(a.proto), cli.HelpText(a.help), cli.Category(a.category),
							cli.BindIndirect(d.name, func(v *btarget, b bool) error { v.bound = append(v.bound, a.want+" on"); return nil }, true))
					}, extra...)
				}
				uses = append(uses, u)
				if a.occ > 0 && a.kind != "recursive" {
					wantBound[d.name] = append(wantBound[d.name], a.want+" on")
				}
				if a.occ > 0 && strings.HasPrefix(a.want, d.name+"-") {
					c.NonTrivial()
				}
				for range a.occ {
					tokens[d.level] = append(tokens[d.level], "--"+a.want)
				}
			}
			var value any = d.value
			if d.fileset {
				value = d.fs
			}
			if d.arg {
				*args[d.level] = append(*args[d.level], &cli.Arg{Name: d.name, Category: d.category, Value: value, NArg: 0, Uses: cli.Pipeline(uses...)})
				if len(d.vals) == 0 {
					argsEnd = true
				}
				if argsEnd {
					d.vals = nil
				}
				argTokens = append(argTokens, d.vals...)
			} else {
				fl := &cli.Flag{Name: d.name, Category: d.category, Value: value, Uses: cli.Pipeline(uses...)}
				if d.alias != "" {
					fl.Aliases = []string{d.alias}
				}
				*flags[d.level] = append(*flags[d.level], fl)
				for _, v := range d.vals {
					tokens[d.level] = append(tokens[d.level], "--"+d.name+"="+v)
				}
			}
		}
		for _, d := range deps {
			c.Showf("%s (alias %q, category %q) arg %v level %d fileset %v values %q", d.name, d.alias, d.category, d.arg, d.level, d.fileset, d.vals)
			for _, a := range d.accs {
				c.Showf("    %+v", *a)
			}
		}
		line := append([]string{}, tokens[0]...)
		if depth == 1 {
			line = append(append(line, "sub"), tokens[1]...)
		}
		if len(argTokens) > 0 {
			line = append(append(line, "--"), argTokens...)
		}
		c.Showf("tokens %q", line)
		var root *cli.Command
		app.Before = func(ctx *cli.Context) { root = ctx.Command() }
		if err := run(app, line...); err != nil {
			c.Failf("error %v", err)
		}
		for _, d := range deps {
			if !reflect.DeepEqual(sorted(d.value.bound), sorted(wantBound[d.name])) {
				c.Failf("called for %s: %q, want %q", d.name, d.value.bound, wantBound[d.name])
			}
			wantRec := false
			for _, a := range d.accs {
				wantRec = wantRec || a.kind == "recursive" && a.occ > 0
				cmdFlags := root.Flags
				if d.level == 1 {
					cmdFlags = sub.Flags
				}
				var f *cli.Flag
				for _, o := range cmdFlags {
					if o.Name == a.want {
						if f != nil {
							c.Failf("--%s is there twice", a.want)
						}
						f = o
					}
				}
				if f == nil {
					c.Failf("there is no --%s", a.want)
				}
				if f.Category != a.wantCat {
					c.Failf("--%s has the category %q, want %q", a.want, f.Category, a.wantCat)
				}
				if a.kind == "recursive" {
					if f.HelpText == "" {
						c.Failf("--%s has no help text", a.want)
					}
				} else if f.HelpText != a.help {
					c.Failf("--%s has the help text %q, want %q", a.want, f.HelpText, a.help)
				}
				if f.Description != nil && f.Description != a.extra || f.Description == nil && a.extra != "" {
					c.Failf("--%s has the description %q, want %q", a.want, f.Description, a.extra)
				}
				if f.Data["DependentFlag"] != d.name {
					c.Failf("--%s depends on %v, want %s", a.want, f.Data["DependentFlag"], d.name)
				}
				if len(f.Aliases) != 0 {
					c.Failf("--%s has aliases %q", a.want, f.Aliases)
				}
				if b, ok := f.Value.(*bool); !ok || *b != (a.occ > 0) {
					c.Failf("--%s has the value %v", a.want, f.Value)
				}
			}
			if d.fs.Recursive != wantRec {
				c.Failf("%s recursive: %v, want %v", d.name, d.fs.Recursive, wantRec)
			}
			var got []string
			if d.fileset {
				got = d.fs.Files
			} else {
				got = d.value.sets
			}
			want := d.vals
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				if !(d.fileset && !d.arg && len(want) > 0 && reflect.DeepEqual(got, want[len(want)-1:])) {
					c.Failf("%s is %q, want %q", d.name, got, want)
				}
			}
		}
	})
}
