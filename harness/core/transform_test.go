package core

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strings"
	"testing"
	"testing/fstest"
	"testing/iotest"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// dataValue is a custom value which is set from data
type dataValue struct {
	data  []string
	texts []string
}

func (d *dataValue) Set(s string) error { d.texts = append(d.texts, s); return nil }
func (d *dataValue) String() string {
	return fmt.Sprintf("data %q texts %q", d.data, d.texts)
}
func (d *dataValue) Reset() { d.data, d.texts = nil, nil }
func (d *dataValue) Copy() *dataValue {
	return &dataValue{append([]string(nil), d.data...), append([]string(nil), d.texts...)}
}
func (d *dataValue) SetData(r io.Reader) error {
	bb, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	d.data = append(d.data, string(bb))
	return nil
}

// openFS records what is opened
type openFS struct {
	fstest.MapFS
	opened []string
}

func (o *openFS) Open(name string) (fs.File, error) {
	o.opened = append(o.opened, name)
	return o.MapFS.Open(name)
}

var (
	errTransform = errors.New("the transform fails")
	errReader    = errors.New("the reader fails")
)

var dataKinds = []vkind{
	{
		name: "bytes", make: func(d string) any { b := []byte(d); return &b }, zero: func() any { return []byte(nil) },
		set: func(old any, text string, _ bool) any {
			b, _ := old.([]byte)
			return append(append([]byte{}, b...), text...)
		},
		values: []string{"a", "b,c", "\x00\xff", "", "6162", "é\n"},
	},
	{
		name: "data", make: func(d string) any { return &dataValue{} }, zero: func() any { return nil },
		set:    func(_ any, text string, _ bool) any { return text },
		values: []string{"a", "b,c", "\x00\xff", "", "é\n"},
	},
}

// TestP32_Transforms: each occurrence of an option is set from what its transform
// makes of the tokens of that occurrence.
func TestP32_Transforms(t *testing.T) {
	forms := []string{"string", "bytes", "reader", "one byte reader", "data err reader", "FileReference", "AllowFileReference", "file transform", "optional file transform", "file transform, FS of the app", "optional file transform, FS of the app", "none"}
	pbt.Run(t, "random flags and an arg of 22 types with transforms that return strings, bytes or readers or open files, set by field, option, action or context method, with occurrences that may fail; non-trivial: two occurrences are transformed, or one fails", 8000, func(c *pbt.C) {
		type topt struct {
			oopt
			form  string
			via   string
			occs  [][]string // tokens of the occurrences
			texts []string   // what the transform makes of them
			fail  error
		}
		files := &openFS{MapFS: fstest.MapFS{}}
		var wantOpen []string
		newFile := func(text string) string {
			// names that only look like something else
			pat := rapid.SampledFrom([]string{"f%d", "f%d", "f%d", "@f%d", "sub/f%d", "f %d", "f%d,x", "f%d@", "é%d"}).Draw(c.T, "fileName")
			name := fmt.Sprintf(pat, len(files.MapFS))
			files.MapFS[name] = &fstest.MapFile{Data: []byte(text)}
			return name
		}
		var opts []*topt
		mk := func(i int, isArg bool) *topt {
			o := &topt{oopt: genOopt(c.T, i, isArg)}
			o.split = true
			o.each = rapid.IntRange(0, 2).Draw(c.T, "each") == 0
			o.form = rapid.SampledFrom(forms).Draw(c.T, "form")
			o.via = rapid.SampledFrom([]string{"field", "uses", "thunk", "context", "late field"}).Draw(c.T, "via")
			if rapid.IntRange(0, 3).Draw(c.T, "dataKind") == 0 && o.form != "string" && o.form != "none" {
				o.kind = rapid.SampledFrom(dataKinds).Draw(c.T, "kind2")
				o.hasDflt, o.merge = false, false
			}
			opts = append(opts, o)
			return o
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "nflags"); i < n; i++ {
			mk(i, false)
		}
		var arg *topt
		if rapid.IntRange(0, 2).Draw(c.T, "hasArg") == 0 {
			arg = mk(0, true)
		}

		token := func(o *topt, text string) (tok, opens string) {
			missing := rapid.IntRange(0, 40).Draw(c.T, "missing") == 17
			switch {
			case o.form == "FileReference" || strings.HasPrefix(o.form, "file transform"):
				if missing {
					return "none", "none"
				}
				f := newFile(text)
				return f, f
			case strings.Contains(o.form, "ptional") || o.form == "AllowFileReference":
				if missing {
					return "@none", "none"
				}
				if rapid.Bool().Draw(c.T, "literal") && !strings.ContainsAny(text, "\x00") {
					return text, ""
				}
				f := newFile(text)
				return "@" + f, f
			}
			return text, ""
		}
		var tokens []string
		failing := ""
		// the text which a failing function fails for
		const bad = "!bad!"
		badFor := map[string]error{}
		for i, n := 0, rapid.IntRange(0, 5).Draw(c.T, "nocc"); i < n; i++ {
			o := rapid.SampledFrom(opts).Draw(c.T, "which")
			if o.isArg {
				continue
			}
			text := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
			tok, opens := token(o, text)
			if strings.ContainsRune(tok, 0) {
				continue // cannot be an argument
			}
			if opens == "none" {
				o.fail = fs.ErrNotExist
			}
			switch o.form {
			case "string", "bytes", "reader", "one byte reader", "data err reader":
				if rapid.IntRange(0, 30).Draw(c.T, "bad") == 17 {
					tok = bad
					o.fail = errTransform
					if strings.Contains(o.form, "reader") && rapid.Bool().Draw(c.T, "readerFails") {
						o.fail = errReader
					}
					if o.fail == nil {
						o.fail = badFor[o.name]
					}
					if badFor[o.name] == nil {
						badFor[o.name] = o.fail
					}
					o.fail = badFor[o.name]
				}
			}
			if o.kind.name == "list" && o.form != "none" && tok != bad && rapid.IntRange(0, 2).Draw(c.T, "separate") == 0 {
				// an occurrence of several tokens
				toks := []string{tok}
				for range rapid.IntRange(0, 2).Draw(c.T, "moreTokens") {
					text2 := rapid.SampledFrom(o.kind.values).Draw(c.T, "value")
					tok2, opens := token(o, text2)
					if opens == "none" {
						o.fail = fs.ErrNotExist
					}
					toks = append(toks, tok2)
					text += text2
					c.Label("several tokens")
				}
				o.occs = append(o.occs, toks)
				o.texts = append(o.texts, text)
				tokens = append(append(tokens, "--"+o.long()), toks...)
				continue
			}
			o.occs = append(o.occs, []string{tok})
			o.texts = append(o.texts, text)
			if o.form != "none" && (len(o.occs) > 1 || o.fail != nil) {
				c.NonTrivial()
			}
			if rapid.Bool().Draw(c.T, "short") && o.kind.name != "bool" && tok != "" && tok[0] != '=' {
				tokens = append(tokens, "-"+o.short()+tok)
			} else {
				tokens = append(tokens, "--"+o.long()+"="+tok)
			}
		}
		if arg != nil {
			for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "nargs"); i < n; i++ {
				v := rapid.SampledFrom(arg.kind.values).Draw(c.T, "argValue")
				tok, opens := token(arg, v)
				if strings.ContainsRune(tok, 0) || arg.form == "none" {
					break
				}
				if opens == "none" {
					arg.fail = fs.ErrNotExist
				}
				if i == 0 {
					tokens = append(tokens, "--")
				}
				tokens = append(tokens, tok)
				arg.occs = append(arg.occs, []string{tok})
				arg.texts = append(arg.texts, v)
				if i > 0 || arg.fail != nil {
					c.NonTrivial()
				}
			}
		}
		for _, o := range opts {
			c.Showf("%v form %s via %s fails %v", o.oopt, o.form, o.via, o.fail)
			if o.fail != nil {
				failing = o.name
			}
		}
		c.Showf("tokens %q files %s", tokens, fileTexts(files.MapFS))

		app := newApp("app")
		app.FS = files
		calls := map[string][]string{}
		given := map[string][][]string{}
		for _, o := range opts {
			o := o
			fn := func(raw []string) (any, error) {
				given[o.name] = append(given[o.name], append([]string(nil), raw...))
				s := strings.Join(raw[1:], "")
				rd := io.Reader(strings.NewReader(s))
				if s == bad && badFor[o.name] != nil {
					if badFor[o.name] == errTransform {
						return nil, errTransform
					}
					rd = io.MultiReader(strings.NewReader("1"), iotest.ErrReader(errReader))
				}
				switch o.form {
				case "string":
					return s, nil
				case "bytes":
					return []byte(s), nil
				case "one byte reader":
					return iotest.OneByteReader(rd), nil
				case "data err reader":
					return iotest.DataErrReader(rd), nil
				}
				return rd, nil
			}
			var tf cli.TransformFunc = fn
			opt := o.options()
			switch o.form {
			case "FileReference":
				tf, opt = nil, opt|cli.FileReference
			case "AllowFileReference":
				tf, opt = nil, opt|cli.AllowFileReference
			case "file transform":
				tf = cli.TransformFileReference(files)
			case "optional file transform":
				tf = cli.TransformOptionalFileReference(files)
			case "file transform, FS of the app":
				tf = cli.TransformFileReference(nil)
			case "optional file transform, FS of the app":
				tf = cli.TransformOptionalFileReference(nil)
			case "none":
				tf = nil
			}
			var uses cli.Action
			field := tf
			if tf != nil && o.via != "field" {
				field = nil
				switch o.via {
				case "uses":
					uses = cli.Transform(tf)
				case "thunk":
					uses = tf
				case "context":
					uses = cli.ActionOf(func(ctx *cli.Context) error { return ctx.SetTransform(tf) })
				}
			}
			action := func(ctx *cli.Context) {
				calls[o.name] = append(calls[o.name], vtext(ctx.Value(""))+fmt.Sprintf(" %q", ctx.RawOccurrences("")))
			}
			if o.isArg {
				a := &cli.Arg{Name: o.name, Value: o.pointer(), NArg: cli.TakeRemaining, Options: opt, Action: action, Transform: field, Uses: uses}
				if tf != nil && o.via == "late field" {
					app.Uses = cli.Pipeline(app.Uses, func() { a.Transform = tf })
				}
				app.Args = append(app.Args, a)
			} else {
				f := &cli.Flag{Name: o.name, Aliases: []string{o.alias}, Value: o.pointer(), Options: opt, Action: action, Transform: field, Uses: uses}
				if tf != nil && o.via == "late field" {
					app.Uses = cli.Pipeline(app.Uses, func() { f.Transform = tf })
				}
				app.Flags = append(app.Flags, f)
			}
		}
		final := map[string]string{}
		ran := 0
		if rapid.IntRange(0, 3).Draw(c.T, "ofCommand") == 1 {
			// (ignored)
			app.Uses = cli.Pipeline(app.Uses, cli.Transform(func([]string) (any, error) { return nil, errTransform }))
		}
		app.Action = func(ctx *cli.Context) {
			ran++
			for _, o := range opts {
				final[o.name] = vtext(ctx.Value(o.name))
				if ctx.Occurrences(o.name) != len(o.occs) {
					c.Failf("%s: Occurrences %d, want %d", o.name, ctx.Occurrences(o.name), len(o.occs))
				}
				var flat []string
				for _, oc := range o.occs {
					flat = append(flat, oc...)
				}
				if got := ctx.RawOccurrences(o.name); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", flat) {
					c.Failf("%s: RawOccurrences %q, want %q", o.name, got, flat)
				}
			}
		}
		depth := nesting(c.T)
		c.Showf("in a sub-command at depth %d", depth)
		err := run(app, append(nest(app, depth), tokens...)...)
		if failing != "" {
			ok := false
			for _, o := range opts {
				if o.fail != nil && errors.Is(err, o.fail) {
					ok = true
				}
			}
			c.Label("failing")
			if !ok || ran != 0 || len(calls) > 0 {
				c.Failf("error %v; the transform of %s fails; ran %d, calls %v", err, failing, ran, calls)
			}
			return
		}
		if err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
		for _, o := range opts {
			c.Label("%s", o.form)
			// what the functions were given
			for i, occ := range o.occs {
				if !strings.Contains(o.form, "file") && !strings.Contains(o.form, "File") && o.form != "none" {
					if i >= len(given[o.name]) || !reflect.DeepEqual(given[o.name][i][1:], occ) {
						c.Failf("occurrence %d of %s: the transform was given %q, tokens %q", i, o.name, given[o.name], occ)
					}
				}
			}
			fold := func(texts []string) string {
				oo := o.oopt
				oo.split = o.form == "none"
				if o.kind.name == "data" {
					if len(texts) == 0 {
						return vtext((&dataValue{}))
					}
					return vtext(&dataValue{data: texts})
				}
				return vtext(oo.fold(texts))
			}
			want := fold(o.texts)
			if final[o.name] != want {
				c.Failf("%s is %s, want %s", o.name, final[o.name], want)
			}
			n := min(1, len(o.occs))
			if o.each {
				n = len(o.occs)
			}
			if len(calls[o.name]) != n {
				c.Failf("the Action of %s ran %d times, want %d", o.name, len(calls[o.name]), n)
			}
			for i, got := range calls[o.name] {
				w := want
				var flat []string
				for _, oc := range o.occs {
					flat = append(flat, oc...)
				}
				if o.each {
					if o.merge {
						continue
					}
					w, flat = fold(o.texts[i:i+1]), o.occs[i]
				}
				if got != w+fmt.Sprintf(" %q", flat) {
					c.Failf("in call %d of the Action of %s: %s, want %s %q", i, o.name, got, w, flat)
				}
			}
		}
		// only what is referred to is opened
		seen := map[string]int{}
		for _, f := range files.opened {
			seen[f]++
		}
		for _, o := range opts {
			for _, oc := range o.occs {
				for _, tok := range oc {
					f := ""
					switch {
					case o.form == "FileReference" || strings.HasPrefix(o.form, "file transform"):
						f = tok
					case (strings.Contains(o.form, "ptional") || o.form == "AllowFileReference") && strings.HasPrefix(tok, "@"):
						f = tok[1:]
					default:
						continue
					}
					if seen[f] == 0 {
						c.Failf("%s was not opened: %q", f, files.opened)
					}
					wantOpen = append(wantOpen, f)
				}
			}
		}
		for f := range seen {
			if !strings.Contains(strings.Join(wantOpen, " ")+" ", f+" ") {
				c.Failf("%s was opened: %q", f, files.opened)
			}
		}
	})
}

// TestP32_Pairs: the value of a name-value pair is what the transform makes of it,
// whatever its contents.
func TestP32_Pairs(t *testing.T) {
	contents := []string{"v", "", " lead", "trail \n", "a,b", `x\,y`, "k=v", `k\=v`, "@f0", "é", "a=1,b=2", `"q"`, `\`, "\x00", "true"}
	literals := []string{"v", "", "1", "é", "x.y", "true"}
	type name struct{ written, name string }
	names := []name{{"n", "n"}, {"k-1", "k-1"}, {"a.b", "a.b"}, {`a\=b`, "a=b"}, {"é", "é"}}
	pbt.Run(t, "random name-value, name-values and map flags and args with pairs whose values are literals or files of any content, the name and value in one token or two; non-trivial: the content has a separator or an outer space, or the pair is of two tokens", 8000, func(c *pbt.C) {
		type pair struct{ k, v string }
		files := &openFS{MapFS: fstest.MapFS{}}
		kind := rapid.SampledFrom([]string{"namevalue", "namevalues", "map", "string"}).Draw(c.T, "kind")
		isArg := rapid.Bool().Draw(c.T, "isArg")
		inner := rapid.SampledFrom([]string{"optional", "optional, FS of the app", "files", "string", "bytes", "reader", "none"}).Draw(c.T, "inner")
		if kind != "namevalue" && inner == "none" {
			inner = "optional"
		}
		viaField := kind == "namevalue" && strings.HasPrefix(inner, "optional") && rapid.Bool().Draw(c.T, "viaField")
		each := kind == "namevalue" && !isArg && rapid.Bool().Draw(c.T, "each")
		var pairs []pair
		var tokens []string
		var failure error
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "npairs"); i < n; i++ {
			nm := rapid.SampledFrom(names).Draw(c.T, "name")
			v := ""
			written := ""
			switch {
			case inner != "none" && rapid.IntRange(0, 30).Draw(c.T, "missing") == 17:
				written = "@none"
				if inner == "files" {
					written = "none"
				}
				if inner == "string" || inner == "bytes" || inner == "reader" {
					written = "!bad!"
					failure = errTransform
				} else {
					failure = fs.ErrNotExist
				}
			case inner == "string" || inner == "bytes" || inner == "reader":
				// this doubles the value
				written = rapid.SampledFrom(literals).Draw(c.T, "literal")
				v = written + "," + written
			case inner == "none" || inner != "files" && rapid.IntRange(0, 2).Draw(c.T, "isLiteral") == 0:
				written = rapid.SampledFrom(literals).Draw(c.T, "literal")
				v = written
			default:
				v = rapid.SampledFrom(contents).Draw(c.T, "content")
				pat := rapid.SampledFrom([]string{"f%d", "f%d", "@f%d", "sub/f%d", "f%d@"}).Draw(c.T, "fileName")
				f := fmt.Sprintf(pat, len(files.MapFS))
				files.MapFS[f] = &fstest.MapFile{Data: []byte(v)}
				written = f
				if inner != "files" {
					written = "@" + f
				}
				if strings.ContainsAny(v, `,=\ `) {
					c.NonTrivial()
				}
			}
			pairs = append(pairs, pair{nm.name, v})
			sep := rapid.IntRange(0, 2).Draw(c.T, "separate") == 0 && kind == "namevalue"
			if sep {
				c.NonTrivial()
				c.Label("two tokens")
			}
			switch {
			case isArg && sep:
				tokens = append(tokens, nm.written, written)
			case isArg:
				tokens = append(tokens, nm.written+"="+written)
			case sep:
				tokens = append(tokens, rapid.SampledFrom([]string{"--opt", "-o"}).Draw(c.T, "spelling"), nm.written, written)
			default:
				p := nm.written + "=" + written
				switch rapid.IntRange(0, 2).Draw(c.T, "spelling") {
				case 0:
					tokens = append(tokens, "--opt="+p)
				case 1:
					tokens = append(tokens, "-o"+p)
				default:
					tokens = append(tokens, "-o", p)
				}
			}
			if isArg && kind != "namevalues" && kind != "map" {
				break
			}
		}
		c.Showf("%s arg=%v inner %s field=%v each=%v tokens %q files %s", kind, isArg, inner, viaField, each, tokens, fileTexts(files.MapFS))
		c.Label("%s", kind)
		c.Label("%s", inner)

		var v any
		switch kind {
		case "namevalue":
			v = &cli.NameValue{AllowFileReference: viaField}
		case "namevalues":
			v = cli.NameValues("dflt", "0")
		case "map":
			v = &map[string]string{"dflt": "0"}
		default:
			v = cli.String()
		}
		double := func(raw []string) (any, error) {
			if len(raw) != 2 {
				c.Failf("the transform is given %q", raw)
			}
			if raw[1] == "!bad!" {
				return nil, errTransform
			}
			s := raw[1] + "," + raw[1]
			switch inner {
			case "bytes":
				return []byte(s), nil
			case "reader":
				return iotest.OneByteReader(strings.NewReader(s)), nil
			}
			return s, nil
		}
		var uses cli.Action
		if !viaField {
			switch inner {
			case "optional":
				uses = cli.ValueTransform(cli.TransformOptionalFileReference(files))
			case "optional, FS of the app":
				uses = cli.ValueTransform(cli.TransformOptionalFileReference(nil))
			case "files":
				uses = cli.ValueTransform(cli.TransformFileReference(files))
			case "none":
			default:
				uses = cli.ValueTransform(double)
			}
		}
		var opts cli.Option
		if each {
			opts = cli.EachOccurrence
		}
		var calls []string
		action := func(ctx *cli.Context) {
			if kind == "namevalue" {
				nv := ctx.NameValue("")
				calls = append(calls, fmt.Sprintf("%q=%q", nv.Name, nv.Value))
			}
		}
		app := newApp("app")
		app.FS = files
		if isArg {
			var narg any
			if kind != "namevalue" {
				narg = cli.TakeUntilNextFlag
			}
			app.Args = []*cli.Arg{{Name: "opt", Value: v, NArg: narg, Uses: uses, Options: opts, Action: action}}
		} else {
			app.Flags = []*cli.Flag{{Name: "opt", Aliases: []string{"o"}, Value: v, Uses: uses, Options: opts, Action: action}}
		}
		got := ""
		ran := 0
		app.Action = func(ctx *cli.Context) {
			ran++
			if n := ctx.Occurrences("opt"); n != len(pairs) {
				c.Failf("Occurrences is %d, want %d", n, len(pairs))
			}
			switch x := ctx.Value("opt").(type) {
			case *cli.NameValue:
				got = fmt.Sprintf("%q=%q", x.Name, x.Value)
			case []*cli.NameValue:
				for _, n := range x {
					got += fmt.Sprintf("%q=%q ", n.Name, n.Value)
				}
			case map[string]string:
				got = fmt.Sprintf("%q", x)
			default:
				got = fmt.Sprintf("%q", x)
			}
		}
		depth := nesting(c.T)
		c.Showf("in a sub-command at depth %d", depth)
		err := run(app, append(nest(app, depth), tokens...)...)
		if failure != nil {
			c.Label("failing")
			if !(errors.Is(err, errTransform) || errors.Is(err, fs.ErrNotExist)) || ran != 0 {
				c.Failf("error %v, ran %d; the transform fails", err, ran)
			}
			return
		}
		if err != nil || ran != 1 {
			c.Failf("error %v, ran %d", err, ran)
		}
		want := ""
		last := pairs[len(pairs)-1]
		switch kind {
		case "namevalue":
			want = fmt.Sprintf("%q=%q", last.k, last.v)
			var wantCalls []string
			for i, p := range pairs {
				if each || i == len(pairs)-1 {
					wantCalls = append(wantCalls, fmt.Sprintf("%q=%q", p.k, p.v))
				}
			}
			if !reflect.DeepEqual(calls, wantCalls) {
				c.Failf("the Action saw %v, want %v", calls, wantCalls)
			}
		case "namevalues":
			for _, p := range pairs {
				want += fmt.Sprintf("%q=%q ", p.k, p.v)
			}
		case "map":
			m := map[string]string{}
			for _, p := range pairs {
				m[p.k] = p.v
			}
			want = fmt.Sprintf("%q", m)
		default:
			want = fmt.Sprintf("%q", last.k+"="+last.v)
		}
		if got != want {
			c.Failf("the value is %s, want %s", got, want)
		}
	})
}

// TestP32_KnownAccessory: the flag made by NameValue.AllowFileReferencesFlag is bound
// when actions run, which is after the value has been read.
func TestP32_KnownAccessory(t *testing.T) {
	fails := false
	pbt.Run(t, "a name-value flag with its accessory flag for file references and a file of random content; non-trivial: all", 20, func(c *pbt.C) {
		text := rapid.SampledFrom([]string{"a", "b,c", "d=e"}).Draw(c.T, "text")
		before := rapid.Bool().Draw(c.T, "before")
		c.Showf("file %q, accessory before %v", text, before)
		c.NonTrivial()
		app := newApp("app")
		app.FS = fstest.MapFS{"f": {Data: []byte(text)}}
		app.Flags = []*cli.Flag{{Name: "v", Value: new(cli.NameValue), Uses: cli.Accessory("-", (*cli.NameValue).AllowFileReferencesFlag)}}
		var got cli.NameValue
		app.Action = func(ctx *cli.Context) { got = *ctx.NameValue("v") }
		tokens := []string{"--v-allow-files", "-v", "n=@f"}
		if !before {
			tokens = []string{"-v", "n=@f", "--v-allow-files"}
		}
		if err := run(app, tokens...); err != nil {
			c.Failf("error %v", err)
		}
		switch {
		case got.Name == "n" && got.Value == text:
		case got.Name == "n" && got.Value == "@f":
			fails = true // known
		default:
			c.Failf("the value is %+v", got)
		}
	})
	pbt.Known(t, "P32-allow-files-accessory", fails)
}
