package core

import (
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// lopt is an option of the lookup test
type lopt struct {
	isArg   bool
	level   int
	index   int
	name    string
	aliases []string
	kind    vkind
	hasDflt bool
	dflt    string
	occ     []string     // values
	raw     []string     // names and values
	at      map[int]bool // the levels whose part of the command line it occurs in
	flag    *cli.Flag
	arg     *cli.Arg
}

func (o *lopt) ref() any {
	if o.isArg {
		return o.arg
	}
	return o.flag
}

func (o *lopt) want() any {
	return oopt{kind: o.kind, hasDflt: o.hasDflt, dflt: o.dflt, split: true, isArg: o.isArg}.fold(o.occ)
}

// forms are all the ways to refer to the option
func (o *lopt) forms() []any {
	if o.isArg {
		return []any{o.name, "<" + o.name + ">", o.arg}
	}
	res := []any{o.flag}
	for _, n := range append([]string{o.name}, o.aliases...) {
		if len([]rune(n)) == 1 {
			res = append(res, n, "-"+n, []rune(n)[0])
		} else {
			res = append(res, n, "--"+n)
		}
	}
	return res
}

// typed calls the typed getter of the kind
func typed(l cli.Lookup, kind string, name any) any {
	switch kind {
	case "bool":
		return l.Bool(name)
	case "string":
		return l.String(name)
	case "int":
		return l.Int(name)
	case "int8":
		return l.Int8(name)
	case "int16":
		return l.Int16(name)
	case "int32":
		return l.Int32(name)
	case "int64":
		return l.Int64(name)
	case "uint":
		return l.Uint(name)
	case "uint8":
		return l.Uint8(name)
	case "uint16":
		return l.Uint16(name)
	case "uint32":
		return l.Uint32(name)
	case "uint64":
		return l.Uint64(name)
	case "float32":
		return l.Float32(name)
	case "float64":
		return l.Float64(name)
	case "duration":
		return l.Duration(name)
	case "list":
		return l.List(name)
	case "map":
		return l.Map(name)
	case "namevalues":
		return l.NameValues(name)
	case "url":
		return l.URL(name)
	case "regexp":
		return l.Regexp(name)
	case "ip":
		return l.IP(name)
	case "bigint":
		return l.BigInt(name)
	case "bigfloat":
		return l.BigFloat(name)
	}
	panic(kind)
}

func (o *lopt) String() string {
	what := "flag"
	if o.isArg {
		what = "arg"
	}
	return fmt.Sprintf("level %d %s %s %q %s default=%v %q raw %q", o.level, what, o.name, o.aliases, o.kind.name, o.hasDflt, o.dflt, o.raw)
}

// TestP08_Lookup: however a flag or arg is referred to, from wherever it is in
// scope, it is the same.
func TestP08_Lookup(t *testing.T) {
	pbt.Run(t, "a chain of up to 3 commands with random flags (aliases, short, non-ASCII) and args of 23 types and occurrences, looked up in every form from every context of every pipeline; non-trivial: an option that occurs is looked up from a context which is not its command's", 4000, func(c *pbt.C) {
		depth := rapid.IntRange(1, 3).Draw(c.T, "depth")
		levels := make([][]*lopt, depth)
		var all []*lopt
		shorts := []rune("abcdefgxijklmnopqr")
		nf := 0
		byName := map[string]*lopt{}
		for l := range levels {
			for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nflags"); i < n; i++ {
				s := string(shorts[nf])
				long := rapid.SampledFrom([]string{"flag-", "my-", "x", "long", "no_"}).Draw(c.T, "long") + string(rune('a'+nf)) + "z"
				nf++
				o := &lopt{level: l, at: map[int]bool{}, name: long, kind: rapid.SampledFrom(vkinds).Draw(c.T, "kind"), index: i}
				switch rapid.IntRange(0, 3).Draw(c.T, "naming") {
				case 0:
					o.aliases = []string{s}
				case 1:
					o.name, o.aliases = s, []string{long}
				case 2:
					o.aliases = []string{long + "-2", s, long + "-3"}
				}
				levels[l] = append(levels[l], o)
			}
			// only the last command may have args (a command with sub-commands has one of its own)
			if l == depth-1 {
				for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nargs"); i < n; i++ {
					levels[l] = append(levels[l], &lopt{isArg: true, level: l, index: i, name: fmt.Sprintf("arg-%c", 'a'+i), kind: rapid.SampledFrom(vkinds).Draw(c.T, "kind")})
				}
			}
			for i, o := range levels[l] {
				if o.isArg && o.kind.name == "list" && i < len(levels[l])-1 {
					// takes what it can
					o.kind = vkinds[0]
				}
				if rapid.Bool().Draw(c.T, "hasDefault") {
					o.hasDflt = true
					o.dflt = rapid.SampledFrom(o.kind.values).Draw(c.T, "default")
					if o.kind.accumulates() {
						o.dflt = "dflt=0"
					}
				}
				byName[o.name] = o
			}
			all = append(all, levels[l]...)
		}
		// sometimes a flag hides one of an outer command
		if depth > 1 && rapid.IntRange(0, 2).Draw(c.T, "shadow") == 0 {
			var inner, outer []*lopt
			for _, o := range all {
				if !o.isArg && o.level == depth-1 {
					inner = append(inner, o)
				} else if !o.isArg {
					outer = append(outer, o)
				}
			}
			if len(inner) > 0 && len(outer) > 0 {
				i := rapid.SampledFrom(inner).Draw(c.T, "inner")
				o := rapid.SampledFrom(outer).Draw(c.T, "outer")
				i.name, i.aliases = o.name, append([]string(nil), o.aliases...)
				c.Label("shadowing")
			}
		}

		// the command line
		var tokens []string
		for l := range levels {
			if l > 0 {
				tokens = append(tokens, fmt.Sprintf("sub%d", l))
			}
			args := 0
			nargs := 0
			for _, o := range levels[l] {
				if o.isArg {
					nargs++
				}
			}
			useArgs := rapid.IntRange(0, nargs).Draw(c.T, "useArgs")
			for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "nocc"); i < n; i++ {
				// flags in scope of this level: its own and those of outer commands that are not hidden
				var cand []*lopt
				for _, o := range all {
					if o.isArg || o.level > l {
						continue
					}
					hidden := false
					for _, p := range all {
						if p != o && !p.isArg && p.level > o.level && p.level <= l && p.name == o.name {
							hidden = true
						}
					}
					if !hidden {
						cand = append(cand, o)
					}
				}
				if len(cand) > 0 {
					o := rapid.SampledFrom(cand).Draw(c.T, "which")
					v := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
					names := append([]string{o.name}, o.aliases...)
					name := rapid.SampledFrom(names).Draw(c.T, "as")
					o.occ = append(o.occ, v)
					o.at[l] = true
					if len([]rune(name)) == 1 {
						if o.kind.name == "bool" {
							o.occ[len(o.occ)-1] = "true"
							tokens = append(tokens, "-"+name)
							o.raw = append(o.raw, "-"+name, "")
						} else {
							if o.kind.name == "list" || rapid.Bool().Draw(c.T, "inline") {
								tokens = append(tokens, "-"+name+v)
							} else {
								tokens = append(tokens, "-"+name, v)
							}
							o.raw = append(o.raw, "-"+name, v)
						}
					} else {
						tokens = append(tokens, "--"+name+"="+v)
						o.raw = append(o.raw, "--"+name, v)
					}
				}
				if args < useArgs && rapid.Bool().Draw(c.T, "argNow") {
					o := argAt(levels[l], args)
					tokens = append(tokens, o.use(c.T, args == nargs-1)...)
					args++
				}
			}
			for ; args < useArgs; args++ {
				tokens = append(tokens, argAt(levels[l], args).use(c.T, args == nargs-1)...)
			}
		}
		for _, o := range all {
			c.Showf("%v", o)
		}
		c.Showf("tokens %q", tokens)

		// check looks everything up from a context of the command at a level
		checked := 0
		check := func(ctx *cli.Context, level int, own *lopt, when string) {
			checked++
			visible := map[string]*lopt{}
			for _, o := range all {
				if o.level <= level {
					if p, ok := visible[o.name]; !ok || p.level <= o.level {
						visible[o.name] = o
					}
				}
			}
			one := func(name any, o *lopt) {
				if got, want := vtext(ctx.Value(name)), vtext(o.want()); got != want {
					c.Failf("%s: Value(%T %v) is %s, want %s", when, name, name, got, want)
				}
				if got, want := vtext(typed(ctx, o.kind.name, name)), vtext(o.want()); got != want {
					c.Failf("%s: the getter of %s for %T %v is %s, want %s", when, o.kind.name, name, name, got, want)
				}
				if _, isInt := name.(int); isInt {
					// Interface documents names and references only
				} else if v, ok := ctx.Interface(name); !ok || v == nil || reflect.TypeOf(v) != reflect.PointerTo(reflect.TypeOf(o.want())) {
					c.Failf("%s: Interface(%T %v) is %T, %v", when, name, name, v, ok)
				}
				if got := ctx.Seen(name); got != (len(o.occ) > 0) {
					c.Failf("%s: Seen(%T %v) is %v", when, name, name, got)
				}
				if got := ctx.Occurrences(name); got != len(o.occ) {
					c.Failf("%s: Occurrences(%T %v) is %v, want %d", when, name, name, got, len(o.occ))
				}
				if !o.rawKnown(level) {
					// which raw values are kept is not specified
					return
				}
				wantOcc := o.rawOcc()
				if got := fmt.Sprintf("%q", ctx.RawOccurrences(name)); got != fmt.Sprintf("%q", wantOcc) {
					c.Failf("%s: RawOccurrences(%T %v) is %v, want %q", when, name, name, got, wantOcc)
				}
				wantRaw := o.raw
				if o == own && o.isArg {
					// in the context of an arg, this is the value without the name
					wantRaw = wantOcc
				}
				if wantRaw == nil {
					wantRaw = []string{}
				}
				if got := fmt.Sprintf("%q", ctx.Raw(name)); got != fmt.Sprintf("%q", wantRaw) {
					c.Failf("%s: Raw(%T %v) is %v, want %q", when, name, name, got, wantRaw)
				}
			}
			for _, o := range visible {
				for _, f := range o.forms() {
					one(f, o)
					_, isStr := f.(string)
					_, isRef := f.(*cli.Flag)
					_, isRune := f.(rune)
					if !o.isArg && (isStr || isRef || isRune) {
						if got, ok := ctx.LookupFlag(f); !ok || got != o.flag {
							c.Failf("%s: LookupFlag(%T %v) is %v", when, f, f, got)
						}
					}
					if o.isArg {
						if got, ok := ctx.LookupArg(f); !ok || got != o.arg {
							c.Failf("%s: LookupArg(%T %v) is %v", when, f, f, got)
						}
					}
					sub := ctx.ContextOf(f)
					if sub == nil || sub.Target() != o.ref() {
						c.Failf("%s: ContextOf(%T %v) is not the option", when, f, f)
					}
				}
				if len(o.occ) > 0 && (own == o || level != o.level) {
					c.NonTrivial()
				}
			}
			if own != nil {
				for _, f := range []any{"", nil} {
					if got, want := vtext(ctx.Value(f)), vtext(own.want()); got != want {
						c.Failf("%s: Value(%#v) is %s, want %s", when, f, got, want)
					}
				}
				if !ctx.Seen("") == (len(own.occ) > 0) || ctx.Occurrences("") != len(own.occ) {
					c.Failf("%s: Seen(\"\") %v, Occurrences(\"\") %v", when, ctx.Seen(""), ctx.Occurrences(""))
				}
				if got := fmt.Sprintf("%q", ctx.RawOccurrences("")); own.rawKnown(level) && got != fmt.Sprintf("%q", own.rawOcc()) {
					c.Failf("%s: RawOccurrences(\"\") is %v", when, got)
				}
				if ctx.Target() != own.ref() {
					c.Failf("%s: the target is %v", when, ctx.Target())
				}
			} else {
				// by index, from the command's context
				var args []*lopt
				for _, o := range levels[level] {
					if o.isArg {
						args = append(args, o)
					}
				}
				if level == depth-1 {
					if ctx.NValue() != len(args) {
						c.Failf("%s: NValue is %d", when, ctx.NValue())
					}
					vals := ctx.Values()
					for i, o := range args {
						one(i, o)
						one(i-len(args), o)
						if vtext(vals[i]) != vtext(o.want()) {
							c.Failf("%s: Values()[%d] is %v", when, i, vals[i])
						}
					}
				}
			}
			for _, f := range []any{"nope", "--nope", "<nope>", 'Z', "-Z"} {
				if v := ctx.Value(f); v != nil || ctx.Seen(f) || ctx.Occurrences(f) != -1 || len(ctx.Raw(f)) != 0 || len(ctx.RawOccurrences(f)) != 0 {
					c.Failf("%s: %v, which does not exist, is found: %v %v %v %v", when, f, v, ctx.Seen(f), ctx.Occurrences(f), ctx.Raw(f))
				}
				if _, ok := ctx.LookupFlag(f); ok {
					c.Failf("%s: LookupFlag finds %v", when, f)
				}
				if _, ok := ctx.Interface(f); ok {
					c.Failf("%s: Interface finds %v", when, f)
				}
			}
		}
		var cmds []*cli.Command
		for l := range levels {
			l := l
			cmd := &cli.Command{Name: fmt.Sprintf("sub%d", l)}
			for _, o := range levels[l] {
				o := o
				act := cli.ActionOf(func(ctx *cli.Context) { check(ctx, l, o, "in the Action of "+o.name) })
				bef := cli.ActionOf(func(ctx *cli.Context) { check(ctx, l, o, "in Before of "+o.name) })
				aft := cli.ActionOf(func(ctx *cli.Context) { check(ctx, l, o, "in After of "+o.name) })
				p := oopt{kind: o.kind, hasDflt: o.hasDflt, dflt: o.dflt}.pointer()
				if o.isArg {
					n := any(0)
					if len(o.occ) > 1 {
						n = cli.TakeExceptForFlags
					}
					o.arg = &cli.Arg{Name: o.name, Value: p, NArg: n, Action: act, Before: bef, After: aft}
					cmd.Args = append(cmd.Args, o.arg)
				} else {
					o.flag = &cli.Flag{Name: o.name, Aliases: o.aliases, Value: p, Action: act, Before: bef, After: aft}
					cmd.Flags = append(cmd.Flags, o.flag)
				}
			}
			cmd.Before = cli.ActionOf(func(ctx *cli.Context) { check(ctx, l, nil, "in Before of "+cmd.Name) })
			cmd.Action = cli.ActionOf(func(ctx *cli.Context) { check(ctx, l, nil, "in the Action of "+cmd.Name) })
			cmd.After = cli.ActionOf(func(ctx *cli.Context) { check(ctx, l, nil, "in After of "+cmd.Name) })
			cmds = append(cmds, cmd)
			if l > 0 {
				cmds[l-1].Subcommands = []*cli.Command{cmd}
			}
		}
		// flags of outer commands may be given after the sub-command: their values are only known then
		app := newApp("app")
		app.Flags, app.Args, app.Commands, app.Action, app.After = cmds[0].Flags, cmds[0].Args, cmds[0].Subcommands, cmds[0].Action, cmds[0].After
		if depth == 1 {
			app.Before = cmds[0].Before
		}
		late := false
		for _, o := range all {
			if o.level < depth-1 {
				late = true
			}
		}
		if late {
			// what ran before the last command was parsed is not checked
			for l := 0; l < depth-1; l++ {
				cmds[l].Before = nil
				for _, o := range levels[l] {
					if o.flag != nil {
						o.flag.Before, o.flag.Action = nil, nil
					}
				}
			}
			app.Before = nil
		}
		if err := run(app, tokens...); err != nil {
			c.Failf("error %v", err)
		}
		if checked == 0 {
			c.Failf("nothing ran")
		}
	})
}

func argAt(level []*lopt, i int) *lopt {
	for _, o := range level {
		if o.isArg && o.index == i {
			return o
		}
	}
	return nil
}

func (o *lopt) use(t *rapid.T, last bool) []string {
	n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "narg")
	if !last {
		n = 1
	}
	var res []string
	for i := 0; i < n; i++ {
		v := rapid.SampledFrom(o.kind.values).Draw(t, "value")
		res = append(res, v)
		o.occ = append(o.occ, v)
		o.raw = append(o.raw, "<"+o.name+">", v)
	}
	return res
}

func (o *lopt) rawOcc() []string {
	res := []string{}
	for i := 1; i < len(o.raw); i += 2 {
		res = append(res, o.raw[i])
	}
	return res
}

// TestP08_LookupValues: a LookupValues and a LookupFunc answer as the context does.
func TestP08_LookupValues(t *testing.T) {
	pbt.Run(t, "values of 23 types in a LookupValues and a LookupFunc, as values and as pointers, by string, rune, *Flag and *Arg; non-trivial: the value is not the zero value", 4000, func(c *pbt.C) {
		m := cli.LookupValues{}
		want := map[string]any{}
		kinds := map[string]vkind{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "n"); i < n; i++ {
			name := rapid.SampledFrom([]string{"a", "b", "flag", "other-flag", "é"}).Draw(c.T, "name")
			k := rapid.SampledFrom(vkinds).Draw(c.T, "kind")
			text := rapid.SampledFrom(k.values).Draw(c.T, "text")
			if k.accumulates() {
				text = "k=1"
			}
			p := k.make(text)
			v := reflect.ValueOf(p).Elem().Interface()
			if !reflect.ValueOf(v).IsZero() {
				c.NonTrivial()
			}
			ptr := rapid.Bool().Draw(c.T, "pointer")
			if ptr {
				m[name] = p
			} else {
				m[name] = v
			}
			c.Showf("%s: %s %q pointer=%v", name, k.name, text, ptr)
			want[name], kinds[name] = v, k
		}
		fn := cli.LookupFunc(func(s string) (any, bool) {
			v, ok := m[s]
			return v, ok
		})
		for name, w := range want {
			forms := []any{name, &cli.Flag{Name: name}, &cli.Arg{Name: name}}
			if r := []rune(name); len(r) == 1 {
				forms = append(forms, r[0])
			}
			for _, l := range []cli.Lookup{m, fn} {
				for _, f := range forms {
					if got := vtext(l.Value(f)); got != vtext(w) {
						c.Failf("%T Value(%T %s) is %s, want %s", l, f, name, got, vtext(w))
					}
					if got := vtext(typed(l, kinds[name].name, f)); got != vtext(w) {
						c.Failf("%T getter of %s for %T %s is %s, want %s", l, kinds[name].name, f, name, got, vtext(w))
					}
					if v, ok := l.Interface(f); !ok || reflect.TypeOf(v) != reflect.TypeOf(m[name]) {
						c.Failf("%T Interface(%s) is %T", l, name, v)
					}
				}
				if v := l.Value("nope"); v != nil {
					c.Failf("%T Value(nope) is %v", l, v)
				}
			}
		}
	})
}

var _ = []any{big.NewInt, net.ParseIP, url.Parse, regexp.MustCompile, time.Second, strings.Cut}

// rawKnown: the raw values are those of the part of the command line of one command
func (o *lopt) rawKnown(level int) bool {
	for l := range o.at {
		if l > level {
			return false
		}
	}
	return len(o.at) <= 1
}
