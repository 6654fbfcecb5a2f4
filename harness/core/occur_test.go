package core

import (
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// vkind is a type of value with its reference semantics
type vkind struct {
	name   string
	make   func(dflt string) any // the value with a default
	zero   func() any
	set    func(old any, text string, split bool) any // old is nil for no value yet
	values []string                                   // valid texts
}

func vscalar[T any](name string, mk func(T) any, parse func(string) T, values ...string) vkind {
	return vkind{
		name:   name,
		make:   func(d string) any { return mk(parse(d)) },
		zero:   func() any { var z T; return z },
		set:    func(_ any, text string, _ bool) any { return parse(text) },
		values: values,
	}
}

func ptr[T any](v T) any { return &v }

func cutPair(s string) (k, v string) {
	k, v, _ = strings.Cut(s, "=")
	return
}

func splitComma(s string, split bool) []string {
	if !split {
		return []string{s}
	}
	return strings.Split(s, ",")
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func intKind[T int8 | int16 | int32 | int64 | uint | uint16 | uint32 | uint64](name string) vkind {
	return vscalar(name, ptr[T], func(s string) T { return T(atoi(s)) }, "0", "1", "42", "100")
}

var vkinds = []vkind{
	intKind[int8]("int8"), intKind[int16]("int16"), intKind[int32]("int32"), intKind[int64]("int64"),
	intKind[uint]("uint"), intKind[uint16]("uint16"), intKind[uint32]("uint32"), intKind[uint64]("uint64"),
	vscalar("float32", ptr[float32], func(s string) float32 { f, _ := strconv.ParseFloat(s, 32); return float32(f) }, "0", "1.5", "42"),
	vscalar("url", ptr[*url.URL], func(s string) *url.URL { u, _ := url.Parse(s); return u }, "http://a/b", "x", "//h?q=1"),
	vscalar("regexp", ptr[*regexp.Regexp], regexp.MustCompile, "a+", "^$", "(b|c)"),
	vscalar("ip", ptr[net.IP], net.ParseIP, "127.0.0.1", "::1", "10.0.0.1"),
	vscalar("bigint", ptr[*big.Int], func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }, "0", "123456789012345678901234567890", "42"),
	vscalar("bigfloat", ptr[*big.Float], func(s string) *big.Float { n, _, _ := big.ParseFloat(s, 10, 53, big.ToNearestEven); return n }, "0", "1.5", "42"),
	vscalar("bool", ptr[bool], func(s string) bool { return s == "true" || s == "" || s == "1" }, "true", "false", "1"),
	vscalar("int", ptr[int], atoi, "0", "1", "42", "7"),
	vscalar("uint8", ptr[uint8], func(s string) uint8 { return uint8(atoi(s)) }, "0", "1", "255"),
	vscalar("float64", ptr[float64], func(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }, "0", "1.5", "42"),
	vscalar("duration", ptr[time.Duration], func(s string) time.Duration { d, _ := time.ParseDuration(s); return d }, "1s", "2m", "0s"),
	{
		name: "string", make: func(d string) any { return &d }, zero: func() any { return "" },
		set: func(old any, text string, _ bool) any {
			if s, ok := old.(string); ok && s != "" {
				return s + " " + text
			}
			return text
		},
		values: []string{"a", "b,c", "d e", "=", "é"},
	},
	{
		name: "list", make: func(d string) any { return &[]string{d} }, zero: func() any { return []string(nil) },
		set: func(old any, text string, split bool) any {
			l, _ := old.([]string)
			return append(append([]string(nil), l...), splitComma(text, split)...)
		},
		values: []string{"a", "b,c", "d", "a,a,b", "x=y"},
	},
	{
		name: "map", make: func(d string) any { k, v := cutPair(d); return &map[string]string{k: v} }, zero: func() any { return map[string]string(nil) },
		set: func(old any, text string, split bool) any {
			m := map[string]string{}
			if o, ok := old.(map[string]string); ok {
				for k, v := range o {
					m[k] = v
				}
			}
			for _, p := range splitComma(text, split) {
				k, v := cutPair(p)
				m[k] = v
			}
			return m
		},
		values: []string{"a=1", "b=2,c=3", "a=4", "k=", "a=,k=9"},
	},
	{
		name: "namevalues", make: func(d string) any {
			k, v := cutPair(d)
			return &[]*cli.NameValue{{Name: k, Value: v}}
		}, zero: func() any { return []*cli.NameValue(nil) },
		set: func(old any, text string, split bool) any {
			l, _ := old.([]*cli.NameValue)
			l = append([]*cli.NameValue(nil), l...)
			for _, p := range splitComma(text, split) {
				k, v, ok := strings.Cut(p, "=")
				if !ok {
					v = "true"
				}
				l = append(l, &cli.NameValue{Name: k, Value: v})
			}
			return l
		},
		values: []string{"a=1", "b=2,c=3", "a=4", "a=,k=9"},
	},
}

func (k vkind) accumulates() bool {
	return k.name == "list" || k.name == "map" || k.name == "namevalues" || k.name == "bytes"
}

func (k vkind) mergeable() bool { return k.accumulates() || k.name == "string" }

// value is the text of a value, which is compared
func vtext(v any) string {
	r := reflect.ValueOf(v)
	if (r.Kind() == reflect.Pointer || r.Kind() == reflect.Slice) && r.IsNil() {
		if _, ok := v.(fmt.Stringer); ok {
			return fmt.Sprintf("nil %T", v)
		}
	}
	if s, ok := v.(fmt.Stringer); ok {
		return fmt.Sprintf("%T %s", v, s)
	}
	if r.Kind() == reflect.Pointer && !r.IsNil() {
		v = r.Elem().Interface()
	}
	switch v := v.(type) {
	case []*cli.NameValue:
		s := "["
		for _, n := range v {
			s += fmt.Sprintf("{%q %q}", n.Name, n.Value)
		}
		return s + "]"
	case []string:
		if len(v) == 0 {
			return "[]string{}"
		}
	case []byte:
		if len(v) == 0 {
			return "[]byte{}"
		}
	case map[string]string:
		if len(v) == 0 {
			return "map{}"
		}
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// fold is the value after the occurrences
func (o oopt) fold(occ []string) any {
	k, merge, split := o.kind, o.merge, o.split
	dflt := o.defaultValue()
	if len(occ) == 0 {
		return dflt
	}
	var v any
	if merge && k.mergeable() {
		v = dflt
	}
	for _, text := range occ {
		// the values of a string arg are one text
		if !k.accumulates() && !(merge && k.mergeable()) && !(o.isArg && k.name == "string") {
			v = nil
		}
		v = k.set(v, text, split)
	}
	return v
}

type oopt struct {
	isArg    bool
	name     string
	alias    string
	kind     vkind
	hasDflt  bool
	dflt     string
	merge    bool
	split    bool
	each     bool
	occ      []string
	implied  bool
	viaUses  bool
	typedDef bool
}

func (o oopt) String() string {
	return fmt.Sprintf("%s/%s %s arg=%v default=%v %q merge=%v split=%v each=%v implied=%v viaUses=%v", o.name, o.alias, o.kind.name, o.isArg, o.hasDflt, o.dflt, o.merge, o.split, o.each, o.implied, o.viaUses)
}

func (o oopt) defaultValue() any {
	if !o.hasDflt {
		return o.kind.zero()
	}
	return reflect.ValueOf(o.kind.make(o.dflt)).Elem().Interface()
}

func (o oopt) pointer() any {
	if o.hasDflt {
		return o.kind.make(o.dflt)
	}
	return reflect.New(reflect.TypeOf(o.kind.make(o.kind.values[0])).Elem()).Interface()
}

func (o oopt) options() (res cli.Option) {
	if o.merge {
		res |= cli.Merge
	}
	if !o.split {
		res |= cli.DisableSplitting
	}
	if o.each {
		res |= cli.EachOccurrence
	}
	if o.implied {
		res |= cli.ImpliedAction
	}
	return
}

func genOopt(t *rapid.T, i int, isArg bool) oopt {
	o := oopt{
		isArg: isArg,
		kind:  rapid.SampledFrom(vkinds).Draw(t, "kind"),
		merge: rapid.IntRange(0, 2).Draw(t, "merge") == 0,
		split: rapid.IntRange(0, 3).Draw(t, "split") > 0,
	}
	o.hasDflt = rapid.Bool().Draw(t, "hasDefault")
	if o.hasDflt {
		o.dflt = rapid.SampledFrom(o.kind.values).Draw(t, "default")
		if o.kind.name == "list" || o.kind.name == "map" || o.kind.name == "namevalues" {
			o.dflt = rapid.SampledFrom([]string{"dflt=0", "a=0"}).Draw(t, "default2")
		}
	}
	o.name = fmt.Sprintf(rapid.SampledFrom([]string{"opt-%c", "my-opt-%c", "opt%c", "o-p-t-%c"}).Draw(t, "naming"), 'a'+i)
	if isArg {
		o.name = fmt.Sprintf("arg-%c", 'a'+i)
	} else {
		o.alias = string(rune('a' + i))
		if rapid.IntRange(0, 3).Draw(t, "shortName") == 0 {
			o.name, o.alias = o.alias, o.name
		}
	}
	return o
}

func (o oopt) long() string {
	if len(o.name) == 1 {
		return o.alias
	}
	return o.name
}

func (o oopt) short() string {
	if len(o.name) == 1 {
		return o.name
	}
	return o.alias
}

// TestP06_Occurrences: the value of a flag or arg is what its occurrences make it.
func TestP06_Occurrences(t *testing.T) {
	pbt.Run(t, "random flags and an arg of 9 types with defaults, Merge, DisableSplitting, EachOccurrence, and occurrences interleaved; non-trivial: an option occurs at least twice", 15000, func(c *pbt.C) {
		var opts []*oopt
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "nflags"); i < n; i++ {
			o := genOopt(c.T, i, false)
			o.each = rapid.IntRange(0, 2).Draw(c.T, "each") == 0
			opts = append(opts, &o)
		}
		if rapid.Bool().Draw(c.T, "hasArg") {
			o := genOopt(c.T, 0, true)
			o.each = rapid.IntRange(0, 2).Draw(c.T, "each") == 0
			opts = append(opts, &o)
		}
		var tokens []string
		for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "nocc"); i < n; i++ {
			o := rapid.SampledFrom(opts).Draw(c.T, "which")
			v := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
			if (o.kind.name == "string" || o.kind.name == "list" && !o.split) && rapid.IntRange(0, 3).Draw(c.T, "empty") == 1 {
				v = ""
			}
			o.occ = append(o.occ, v)
			switch {
			case o.isArg:
				tokens = append(tokens, v)
			case rapid.Bool().Draw(c.T, "short") && o.kind.name != "bool" && v != "":
				tokens = append(tokens, "-"+o.short()+v)
			default:
				tokens = append(tokens, "--"+o.long()+"="+v)
			}
			if len(o.occ) > 1 {
				c.NonTrivial()
			}
		}
		inSub := rapid.IntRange(0, 3).Draw(c.T, "inSub") == 0
		for _, o := range opts {
			c.Showf("%v", *o)
		}
		c.Showf("tokens %q in a sub-command: %v", tokens, inSub)

		cmd := &cli.Command{Name: "sub"}
		type call struct{ own, named, occ, raw string }
		nested := 0
		calls := map[string][]call{}
		for _, o := range opts {
			o := o
			action := func(ctx *cli.Context) {
				// an action deferred to the current timing runs at once
				before := nested
				if err := ctx.Do(cli.At(cli.ActionTiming, cli.ActionOf(func() { nested++ }))); err != nil || nested != before+1 {
					c.Failf("an action for the current timing runs %d times in the Action of %s: %v", nested-before, o.name, err)
				}
				if !ctx.IsAction() || ctx.IsBefore() || ctx.IsAfter() || ctx.IsInitializing() {
					c.Failf("the timing in the Action of %s is not that of the Action", o.name)
				}
				calls[o.name] = append(calls[o.name], call{
					own:   vtext(ctx.Value("")),
					named: vtext(ctx.Parent().Value(o.name)),
					occ:   strconv.Itoa(ctx.Parent().Occurrences(o.name)),
					raw:   fmt.Sprintf("%q", ctx.RawOccurrences("")),
				})
			}
			if o.isArg {
				cmd.Args = append(cmd.Args, &cli.Arg{Name: o.name, Value: o.pointer(), NArg: cli.TakeExceptForFlags, Options: o.options(), Action: action})
			} else {
				cmd.Flags = append(cmd.Flags, &cli.Flag{Name: o.name, Aliases: []string{o.alias}, Value: o.pointer(), Options: o.options(), Action: action})
			}
		}
		final := map[string]string{}
		ran := 0
		cmd.Action = func(ctx *cli.Context) {
			ran++
			for _, o := range opts {
				final[o.name] = vtext(ctx.Value(o.name))
				if ctx.Occurrences(o.name) != len(o.occ) || ctx.Seen(o.name) != (len(o.occ) > 0) {
					c.Failf("%s: Occurrences %d, Seen %v; %d occurrences", o.name, ctx.Occurrences(o.name), ctx.Seen(o.name), len(o.occ))
				}
			}
		}
		app := newApp("app")
		var err error
		if inSub {
			app.Commands = []*cli.Command{cmd}
			err = run(app, append([]string{"sub"}, tokens...)...)
		} else {
			app.Flags, app.Args, app.Action = cmd.Flags, cmd.Args, cmd.Action
			err = run(app, tokens...)
		}
		if err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
		for _, o := range opts {
			want := vtext(o.fold(o.occ))
			if final[o.name] != want {
				c.Failf("%s is %s, want %s", o.name, final[o.name], want)
			}
			// the Action
			n := 0
			if len(o.occ) > 0 {
				n = 1
				if o.each {
					n = len(o.occ)
				}
			}
			if len(calls[o.name]) != n {
				c.Failf("the Action of %s ran %d times, want %d", o.name, len(calls[o.name]), n)
			}
			for i, got := range calls[o.name] {
				if got.named != want {
					c.Failf("in call %d of the Action of %s, the value by name is %s, want %s", i, o.name, got.named, want)
				}
				if got.occ != strconv.Itoa(len(o.occ)) {
					c.Failf("in call %d of the Action of %s, Occurrences is %s", i, o.name, got.occ)
				}
				if !o.each {
					if got.own != want {
						c.Failf("in the Action of %s, its value is %s, want %s", o.name, got.own, want)
					}
					if w := fmt.Sprintf("%q", o.occ); got.raw != w {
						c.Failf("in the Action of %s, RawOccurrences is %s, want %s", o.name, got.raw, w)
					}
					continue
				}
				if w := fmt.Sprintf("%q", o.occ[i:i+1]); got.raw != w {
					c.Failf("in call %d of the Action of %s, RawOccurrences is %s, want %s", i, o.name, got.raw, w)
				}
				if !o.merge {
					if w := vtext(o.fold(o.occ[i : i+1])); got.own != w {
						c.Failf("in call %d of the Action of %s, its value is %s, want %s", i, o.name, got.own, w)
					}
				}
			}
		}
	})
}

// isource is what may set a flag
type isource struct {
	uses    []string // env vars of FromEnv in Uses
	fields  []string // EnvVars
	file    string   // FilePath: "" none
	shared  bool     // the file is read by an action which another app also uses
	implies string   // name of a flag that implies a value
}

// TestP07_Precedence: explicit values win over the environment, which wins over a
// file, which wins over what other flags imply, which wins over the default.
func TestP07_Precedence(t *testing.T) {
	pbt.Run(t, "random flags and args with defaults, environment variables (also with the {} pattern), files, Implies, explicit occurrences; non-trivial: an option has at least two sources that could set it", 9000, func(c *pbt.C) {
		files := fstest.MapFS{}
		env := map[string]string{}
		type opt struct {
			oopt
			src     isource
			implied string // value which it implies for the next flag
			bySet   bool
		}
		cmdImplied := rapid.IntRange(0, 4).Draw(c.T, "cmdImpliedAction") == 0
		var opts []*opt
		nf := rapid.IntRange(1, 4).Draw(c.T, "nflags")
		na := rapid.IntRange(0, 1).Draw(c.T, "nargs")
		for i := 0; i < nf+na; i++ {
			o := &opt{oopt: genOopt(c.T, i, i >= nf)}
			o.oopt.implied = rapid.Bool().Draw(c.T, "impliedAction")
			base := strings.ToUpper(strings.ReplaceAll(o.long(), "-", "_"))
			pats := map[string]string{
				"V_{}": "V__" + base, "VERIF{}": "VERIF_" + base, "{}X": base + "_X", "{}": base,
				"VP{}S": "VP_" + base + "_S", "VERIFPLAIN" + base: "VERIFPLAIN" + base,
			}
			keys := []string{"V_{}", "VERIF{}", "{}X", "{}", "VP{}S", "VERIFPLAIN" + base}
			perm := rapid.Permutation(keys).Draw(c.T, "vars")
			nu := rapid.IntRange(0, 2).Draw(c.T, "nuses")
			ne := rapid.IntRange(0, 2).Draw(c.T, "nenv")
			var vars []string
			o.src.uses, o.src.fields = perm[:nu], perm[nu:nu+ne]
			for _, p := range perm[:nu+ne] {
				vars = append(vars, pats[p])
			}
			for _, v := range vars {
				switch rapid.IntRange(0, 3).Draw(c.T, "envState") {
				case 0:
					env[v] = ""
				case 1, 2:
					env[v] = rapid.SampledFrom(o.kind.values).Draw(c.T, "envValue")
				}
			}
			switch rapid.IntRange(0, 3).Draw(c.T, "fileState") {
			case 0:
				o.src.file = "missing-" + o.name
			case 1:
				o.src.file = "dir/" + o.name
				text := rapid.SampledFrom(o.kind.values).Draw(c.T, "fileValue")
				if (o.kind.name == "string" || o.kind.name == "bool") && rapid.IntRange(0, 3).Draw(c.T, "emptyFile") == 0 {
					text = ""
				}
				files[o.src.file] = &fstest.MapFile{Data: []byte(text)}
			}
			o.src.shared = ne == 0 && rapid.IntRange(0, 2).Draw(c.T, "sharedFileAction") == 0
			opts = append(opts, o)
		}
		// each flag may imply a value of a later option
		for i, o := range opts[:nf] {
			if i+1 < nf && rapid.IntRange(0, 2).Draw(c.T, "implies") == 0 {
				to := opts[i+1]
				o.implied = rapid.SampledFrom(to.kind.values).Draw(c.T, "impliedValue")
				to.src.implies = o.name
			}
		}
		var tokens []string
		for _, o := range opts {
			n := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "nocc")
			for j := 0; j < n; j++ {
				v := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
				o.occ = append(o.occ, v)
				if o.isArg {
					tokens = append(tokens, v)
				} else {
					tokens = append(tokens, "--"+o.long()+"="+v)
				}
			}
		}
		inSub := rapid.IntRange(0, 3).Draw(c.T, "inSub") == 0
		for _, o := range opts {
			c.Showf("%v sources %+v implies next %q occurrences %q", o.oopt, o.src, o.implied, o.occ)
		}
		c.Showf("env %q files %v tokens %q command ImpliedAction %v sub %v", env, fileTexts(files), tokens, cmdImplied, inSub)

		old := map[string]*string{}
		for k, v := range env {
			if o, ok := os.LookupEnv(k); ok {
				old[k] = &o
			} else {
				old[k] = nil
			}
			os.Setenv(k, v)
		}
		defer func() {
			for k, o := range old {
				if o == nil {
					os.Unsetenv(k)
				} else {
					os.Setenv(k, *o)
				}
			}
		}()

		cmd := &cli.Command{Name: "sub"}
		if cmdImplied {
			cmd.Options = cli.ImpliedAction
		}
		ran := map[string]int{}
		isImplied := map[string]bool{}
		for i, o := range opts {
			o := o
			var uses cli.ActionPipeline
			if len(o.src.uses) > 0 {
				uses = append(uses, cli.FromEnv(o.src.uses...))
			}
			if o.implied != "" && i+1 < len(opts) {
				n := opts[i+1].name
				if len(n) == 1 {
					n = "-" + n
				} else if rapid.Bool().Draw(c.T, "dashes") {
					n = "--" + n
				}
				uses = append(uses, cli.Implies(n, o.implied))
			}
			file := o.src.file
			if o.src.shared {
				fromFile := cli.FromFilePath(nil, file)
				other := newApp("other")
				other.FS = fstest.MapFS{file: &fstest.MapFile{Data: []byte("other")}}
				other.Flags = []*cli.Flag{{Name: "f", Uses: fromFile}}
				other.Action = func(ctx *cli.Context) {
					if v := ctx.String("f"); file != "" && v != "other" {
						c.Failf("FromFilePath in another app gives %q", v)
					}
				}
				if err := run(other); err != nil {
					c.Failf("other app: %v", err)
				}
				uses = append(uses, fromFile)
				file = ""
			}
			action := func(ctx *cli.Context) { ran[o.name]++; isImplied[o.name] = ctx.ImplicitlySet() }
			if o.isArg {
				cmd.Args = append(cmd.Args, &cli.Arg{Name: o.name, Value: o.pointer(), NArg: cli.TakeUntilNextFlag, Options: o.options(), Action: action, Uses: uses, EnvVars: o.src.fields, FilePath: file})
			} else {
				cmd.Flags = append(cmd.Flags, &cli.Flag{Name: o.name, Aliases: []string{o.alias}, Value: o.pointer(), Options: o.options(), Action: action, Uses: uses, EnvVars: o.src.fields, FilePath: file})
			}
		}
		done := 0
		cmd.Action = func(ctx *cli.Context) {
			done++
			for i, o := range opts {
				var cand []string // values in the order of precedence
				base := strings.ToUpper(strings.ReplaceAll(o.long(), "-", "_"))
				for _, p := range append(append([]string(nil), o.src.uses...), o.src.fields...) {
					v := strings.Replace(p, "{}", "\x00", 1)
					switch {
					case v == "\x00":
						v = base
					case strings.HasPrefix(v, "\x00"):
						v = base + "_" + v[1:]
					case strings.HasSuffix(v, "\x00"):
						v = v[:len(v)-1] + "_" + base
					default:
						v = strings.Replace(v, "\x00", "_"+base+"_", 1)
					}
					if s := env[v]; s != "" {
						cand = append(cand, s)
					}
				}
				if f, ok := files[o.src.file]; ok {
					cand = append(cand, string(f.Data))
				}
				if o.src.implies != "" && len(opts[i-1].occ) > 0 {
					cand = append(cand, opts[i-1].implied)
				}
				if len(cand)+len(o.occ) > 1 {
					c.NonTrivial()
				}
				var want any
				runs := 0
				switch {
				case len(o.occ) > 0:
					want = o.fold(o.occ)
					runs = 1
				case len(cand) > 0:
					want = o.fold(cand[:1])
					if o.oopt.implied || cmdImplied {
						runs = 1
					}
				default:
					want = o.defaultValue()
				}
				if got := vtext(ctx.Value(o.name)); got != vtext(want) {
					c.Failf("%s is %s, want %s (implicit candidates %q)", o.name, got, vtext(want), cand)
				}
				if ctx.Occurrences(o.name) != len(o.occ) || ctx.Seen(o.name) != (len(o.occ) > 0) {
					c.Failf("%s: Occurrences %d, Seen %v; %d occurrences", o.name, ctx.Occurrences(o.name), ctx.Seen(o.name), len(o.occ))
				}
				if ran[o.name] != runs {
					c.Failf("the Action of %s ran %d times, want %d", o.name, ran[o.name], runs)
				}
				if runs == 1 && isImplied[o.name] != (len(o.occ) == 0) {
					c.Failf("ImplicitlySet of %s is %v", o.name, isImplied[o.name])
				}
			}
		}
		app := newApp("app")
		app.FS = files
		var err error
		if inSub {
			app.Commands = []*cli.Command{cmd}
			err = run(app, append([]string{"sub"}, tokens...)...)
		} else {
			app.Flags, app.Args, app.Action, app.Options = cmd.Flags, cmd.Args, cmd.Action, cmd.Options
			err = run(app, tokens...)
		}
		if err != nil || done != 1 {
			c.Failf("error %v, ran %d", err, done)
		}
	})
}

func fileTexts(files fstest.MapFS) string {
	var s []string
	for k, v := range files {
		s = append(s, fmt.Sprintf("%s=%q", filepath.ToSlash(k), v.Data))
	}
	return fmt.Sprint(sorted(s))
}
