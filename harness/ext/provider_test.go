package ext

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

var errEight = errors.New("eight")

type provOptions struct {
	Indent   int
	Encoding string
	Strict   bool
}

// optionsOf is the conversion of options in the model
func optionsOf(m map[string]string) (provOptions, bool) {
	var o provOptions
	for k, v := range m {
		switch strings.ToLower(k) {
		case "indent":
			if _, err := fmt.Sscanf(v, "%d", &o.Indent); err != nil {
				return o, false
			}
		case "encoding":
			o.Encoding = v
		case "strict":
			o.Strict = v == "true"
		}
	}
	return o, true
}

func mapText(m map[string]string, sep string) string {
	var items []string
	for _, k := range slices.Sorted(maps.Keys(m)) {
		items = append(items, k+"="+m[k])
	}
	return strings.Join(items, sep)
}

// TestP26_Provider: the name and the arguments given in any form are those of the provider; the registry decides
func TestP26_Provider(t *testing.T) {
	provKeys := []string{"indent", "encoding", "strict"}
	names := []string{"json", "yaml", "csv", "x-y"}
	pbt.Run(t, "the arguments are given in two or more places, or the registry rejects something", 8000, func(c *pbt.C) {
		// the registry
		type kind struct {
			defaults map[string]string
			how      string
		}
		known := map[string]kind{}
		for _, n := range names {
			if rapid.IntRange(0, 3).Draw(c.T, "known") == 0 {
				continue
			}
			k := kind{defaults: map[string]string{}, how: rapid.SampledFrom([]string{"factory", "typed", "typed only", "value", "both", "none", "error"}).Draw(c.T, "how")}
			if rapid.IntRange(0, 9).Draw(c.T, "nil") == 7 {
				k.defaults = nil
			}
			for _, a := range provKeys {
				if k.defaults == nil {
					break
				}
				if rapid.IntRange(0, 3).Draw(c.T, "has") > 0 {
					k.defaults[a] = map[string]string{"indent": "2", "encoding": "utf-8", "strict": "true"}[a]
				}
			}
			known[n] = k
		}
		registered := rapid.IntRange(0, 4).Draw(c.T, "registered") > 0
		allow := rapid.IntRange(0, 3).Draw(c.T, "allow") == 0
		asMap := rapid.IntRange(0, 2).Draw(c.T, "map") == 0

		flagName := rapid.SampledFrom([]string{"format", "f", "output-format"}).Draw(c.T, "flag")
		registryName := flagName
		otherRegistry := rapid.IntRange(0, 9).Draw(c.T, "other") == 0
		if otherRegistry {
			registryName = "something"
		}
		reg := &provider.Registry{Name: registryName, AllowUnknown: allow}
		made := map[string]any{}
		if asMap {
			m := provider.Map{}
			for n, k := range known {
				m[n] = maps.Clone(k.defaults)
			}
			reg.Providers = m
		} else {
			m := provider.Details{}
			for n, k := range known {
				d := provider.Detail{Defaults: maps.Clone(k.defaults), HelpText: "help of " + n}
				switch k.how {
				case "factory":
					d.Factory = func(o map[string]string) (any, error) { return n + " " + mapText(o, ","), nil }
				case "error":
					d.Factory = func(o map[string]string) (any, error) { return nil, errors.New("factory") }
				case "typed":
					d.Factory = provider.Factory(func(o provOptions) (any, error) {
						if o.Indent == 8 {
							return nil, errEight
						}
						return o, nil
					})
				case "typed only":
					d.Factory = provider.Factory(func(o provOptions) provOptions { return o })
				case "both":
					d.Value = &kind{}
					d.Factory = func(o map[string]string) (any, error) { return n + " " + mapText(o, ","), nil }
				case "value":
					made[n] = &kind{}
					d.Value = made[n]
				}
				m[n] = d
			}
			reg.Providers = m
		}

		// the command line
		value := new(provider.Value)
		var opts *provOptions
		if rapid.IntRange(0, 3).Draw(c.T, "struct") == 0 {
			opts = new(provOptions)
			value.Args = structure.Of(opts)
		}
		argForm := rapid.SampledFrom([]string{"none", "set", "set unnamed", "accessory"}).Draw(c.T, "form")
		disable := rapid.Bool().Draw(c.T, "disable")
		wantArgs, inlineArgs, flagArgs := map[string]string{}, map[string]string{}, map[string]string{}
		named := rapid.IntRange(0, 5).Draw(c.T, "named") > 0
		invalid := false
		item := func(args map[string]string) string {
			n := 1
			if !disable {
				n = rapid.IntRange(1, 2).Draw(c.T, "items")
			}
			var s []string
			for range n {
				k := rapid.SampledFrom(append(slices.Clone(provKeys), "nope")).Draw(c.T, "key")
				if k == "nope" && rapid.Bool().Draw(c.T, "not") {
					k = "indent"
				}
				vals := map[string][]string{"indent": {"4", "8"}, "encoding": {"utf-16", "", "a=b", "a b", "a\\,b"}, "strict": {"true", "false"}, "nope": {"1"}}[k]
				if disable && named && k == "encoding" {
					vals = append(vals, "a,b")
				}
				if opts != nil && rapid.IntRange(0, 19).Draw(c.T, "invalid") == 7 && k == "indent" {
					vals, invalid = []string{"x"}, true
				}
				v := rapid.SampledFrom(vals).Draw(c.T, "value")
				args[k] = strings.ReplaceAll(v, "\\,", ",")
				s = append(s, k+"="+v)
			}
			return strings.Join(s, ",")
		}
		dashed := func(n string) string {
			if len(n) == 1 {
				return "-" + n
			}
			return "--" + n
		}
		var tokens []string
		wantName := ""
		before, after := 0, 0
		if argForm != "none" {
			before, after = rapid.IntRange(0, 2).Draw(c.T, "before"), rapid.IntRange(0, 2).Draw(c.T, "after")
		}
		places := 0
		addArg := func() {
			places++
			it := item(flagArgs)
			if rapid.Bool().Draw(c.T, "inline") {
				tokens = append(tokens, "--"+flagName+"-arg="+it)
			} else {
				tokens = append(tokens, "--"+flagName+"-arg", it)
			}
		}
		for range before {
			addArg()
		}
		if named {
			wantName = rapid.SampledFrom(append(slices.Clone(names), "unknown")).Draw(c.T, "name")
			if rapid.IntRange(0, 29).Draw(c.T, "empty") == 7 {
				wantName = ""
			}
			s := wantName
			if rapid.Bool().Draw(c.T, "short syntax") {
				places++
				s += "," + item(inlineArgs)
			}
			tokens = append(tokens, dashed(flagName), s)
		}
		for range after {
			addArg()
		}
		// the arguments of their own flag take precedence
		maps.Copy(wantArgs, inlineArgs)
		maps.Copy(wantArgs, flagArgs)
		c.Showf("registry %v (%s, allow %v, map %v) of %v; args by %s, disable %v struct %v; %s %q", registered, registryName, allow, asMap, known, argForm, disable, opts != nil, flagName, tokens)
		c.Label("%s", argForm)

		// expected
		wantErr := ""
		if registered && !allow && !otherRegistry && named {
			k, ok := known[wantName]
			if !ok {
				wantErr = fmt.Sprintf("unknown %q %s", wantName, flagName)
			} else {
				for a := range wantArgs {
					if _, ok := k.defaults[a]; !ok {
						wantErr = "unknown argument"
					}
				}
			}
		}
		if invalid {
			// the structure does not take the argument; another error can come first
			wantErr = "rror"
		}
		if places > 1 || wantErr != "" {
			c.NonTrivial()
		}

		var buf bytes.Buffer
		var problem string
		ran := false
		app := &cli.App{Name: "app", Stdout: &buf, Stderr: &buf}
		if registered {
			app.Uses = reg
		}
		app.Action = func(ctx *cli.Context) error {
			ran = true
			got := ctx.Value(flagName).(*provider.Value)
			if got != value {
				problem = "another value"
				return nil
			}
			if got.Name != wantName {
				problem = fmt.Sprintf("the name is %q, expected %q", got.Name, wantName)
			}
			if opts != nil {
				want, _ := optionsOf(wantArgs)
				if *opts != want {
					problem += fmt.Sprintf("options %+v, expected %+v", *opts, want)
				}
			} else {
				args := map[string]string{}
				if m, ok := got.Args.(*map[string]string); ok {
					args = *m
				} else if got.Args != nil {
					problem += fmt.Sprintf("arguments of type %T", got.Args)
				}
				if len(args)+len(wantArgs) > 0 && !maps.Equal(args, wantArgs) {
					problem += fmt.Sprintf("arguments %v, expected %v", args, wantArgs)
				}
				want := wantName
				if len(wantArgs) > 0 {
					want += "," + mapText(wantArgs, ",")
				}
				if got.String() != want {
					problem += fmt.Sprintf("text %q, expected %q", got.String(), want)
				}
			}
			if reg2 := provider.Services(ctx).Registry(registryName); registered != (reg2 == reg) {
				problem += "the registry is not found"
			}
			return nil
		}
		main := &cli.Flag{Name: flagName, Value: value}
		if disable {
			main.Options = cli.DisableSplitting
		}
		app.Flags = []*cli.Flag{main}
		switch argForm {
		case "set":
			app.Flags = append(app.Flags, &cli.Flag{Name: flagName + "-arg", Uses: provider.SetArgument(flagName)})
		case "set unnamed":
			app.Flags = append(app.Flags, &cli.Flag{Uses: provider.SetArgument(flagName)})
		case "accessory":
			main.Uses = cli.Accessory("-", (*provider.Value).ArgumentFlag)
		}
		list := rapid.Bool().Draw(c.T, "list unnamed")
		listFlag := &cli.Flag{Uses: provider.ListProviders(registryName)}
		if !list {
			listFlag.Name = "list-" + registryName
		}
		app.Flags = append(app.Flags, listFlag)
		err := app.RunContext(context.Background(), append([]string{"app"}, tokens...))
		if wantErr != "" {
			c.Label("rejected")
			if err == nil || !invalid && !strings.Contains(err.Error(), wantErr) {
				c.Failf("error %v, expected %q", err, wantErr)
			}
			if ran {
				c.Failf("the action runs in spite of %v", err)
			}
		} else {
			if err != nil {
				c.Failf("error %v", err)
			}
			if !ran || problem != "" {
				c.Failf("ran %v: %s", ran, problem)
			}
		}

		// instances
		for i, n := range append(slices.Clone(names), "unknown", names[0], names[1]) {
			if invalid {
				break
			}
			in := maps.Clone(wantArgs)
			if i > len(names) {
				// once more, with other options
				in = nil
				wantArgs = nil
			}
			got, err := reg.New(n, in)
			if !maps.Equal(in, wantArgs) {
				c.Failf("New changes its options to %v", in)
			}
			k, ok := known[n]
			merged := map[string]string{}
			maps.Copy(merged, k.defaults)
			maps.Copy(merged, wantArgs)
			var want any
			switch {
			case !ok || asMap:
			case k.how == "factory", k.how == "both":
				want = n + " " + mapText(merged, ",")
			case k.how == "typed" && merged["indent"] == "8":
				if err != errEight {
					c.Failf("New(%q, %v) is %v, %v; the factory fails", n, wantArgs, got, err)
				}
			case k.how == "typed", k.how == "typed only":
				want, _ = optionsOf(merged)
			case k.how == "value":
				want = made[n]
			}
			if (err == nil) != (want != nil) || !reflect.DeepEqual(got, want) || k.how == "value" && ok && !asMap && got != made[n] {
				c.Failf("New(%q, %v) is %v, %v; expected %v", n, wantArgs, got, err, want)
			}
			if d, found := reg.LookupProvider(n); found != ok || ok && !maps.Equal(d.Defaults, k.defaults) {
				c.Failf("LookupProvider(%q) is %v, %v", n, d, found)
			}
		}

		// the list
		app2 := &cli.App{Name: "app", Stdout: &buf, Stderr: &buf, Action: func() { problem = "runs" },
			Flags: []*cli.Flag{{Name: listFlag.Name, Uses: provider.ListProviders(registryName)}}}
		if registered {
			app2.Uses = reg
		}
		buf.Reset()
		if err := app2.RunContext(context.Background(), []string{"app", "--list-" + registryName}); err != nil {
			if e, ok := err.(cli.ExitCoder); !ok || e.ExitCode() != 0 {
				c.Failf("list: %v", err)
			}
		}
		want := ""
		if registered {
			for _, n := range slices.Sorted(maps.Keys(known)) {
				want += n + "\t" + mapText(known[n].defaults, ", ") + "\n"
			}
		}
		if buf.String() != want {
			c.Failf("list: %q, expected %q", buf.String(), want)
		}
		if problem == "runs" {
			c.Failf("the app runs after the list")
		}
	})
}

// TestP26_Factory: functions that do not take one argument and give a provider are refused
func TestP26_Factory(t *testing.T) {
	pbt.Run(t, "the function is not valid", 2000, func(c *pbt.C) {
		types := []reflect.Type{reflect.TypeFor[provOptions](), reflect.TypeFor[error](), reflect.TypeFor[int](), reflect.TypeFor[any]()}
		var in, out []reflect.Type
		for range rapid.IntRange(0, 2).Draw(c.T, "in") {
			in = append(in, types[0])
		}
		for range rapid.IntRange(0, 3).Draw(c.T, "out") {
			out = append(out, rapid.SampledFrom(types).Draw(c.T, "type"))
		}
		typ := reflect.FuncOf(in, out, false)
		o := provOptions{Indent: rapid.IntRange(0, 9).Draw(c.T, "indent"), Encoding: "e", Strict: rapid.Bool().Draw(c.T, "strict")}
		fails := rapid.Bool().Draw(c.T, "fails")
		c.Showf("%v of %+v fails %v", typ, o, fails)
		fn := reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
			var res []reflect.Value
			for i, t := range out {
				v := reflect.New(t).Elem()
				switch {
				case i == 1 && fails:
					v.Set(reflect.ValueOf(&errEight).Elem())
				case t == types[0] || t == types[3]:
					v.Set(args[0])
				case t == types[2]:
					v.SetInt(int64(args[0].Interface().(provOptions).Indent))
				}
				res = append(res, v)
			}
			return res
		})
		valid := len(in) == 1 && (len(out) == 1 || len(out) == 2 && out[1] == types[1])
		if !valid {
			c.NonTrivial()
		}
		var f provider.FactoryFunc
		panicked := func() (p any) {
			defer func() { p = recover() }()
			f = provider.Factory(fn.Interface())
			return nil
		}()
		if (panicked == nil) != valid {
			c.Failf("Factory panics with %v", panicked)
		}
		if !valid {
			return
		}
		got, err := f(map[string]string{"indent": fmt.Sprint(o.Indent), "encoding": o.Encoding, "strict": fmt.Sprint(o.Strict)})
		if wantErr := fails && len(out) == 2; wantErr != (err == errEight) || !wantErr && err != nil {
			c.Failf("error %v", err)
		}
		var want any
		switch out[0] {
		case types[0], types[3]:
			want = o
		case types[2]:
			want = o.Indent
		}
		if !reflect.DeepEqual(got, want) {
			c.Failf("gives %v, expected %v", got, want)
		}
	})
}
