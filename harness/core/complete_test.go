package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"text/template"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// an app whose completions are known

type kflag struct {
	short, long string
	bool, hid   bool
	help        string
	values      []string // nil means it has none
	from        int      // where they come from, see compSource
	file        bool     // its value is a file
	list        bool     // takes values until the next flag
	opts        cli.Option
}

type karg struct {
	name   string
	narg   any
	values []string
	from   int
	file   bool
	dir    bool
	req    bool
}

// what the completions come from
const (
	compItself = iota // the flag or arg
	compEnum          // the action that restricts the values
	compValue         // the type of the value
	compBoth          // the flag or arg, and the type of the value has others
)

type completes struct {
	text   []string
	values []string
	file   bool
}

func (v *completes) Set(s string) error { v.text = append(v.text, s); return nil }
func (v *completes) String() string     { return strings.Join(v.text, ",") }
func (v *completes) Completion() cli.Completion {
	if v.file {
		return cli.FileCompletion
	}
	return cli.CompletionValues(v.values...)
}

// compSource sets up the completion
func compSource(values []string, file bool, from, via int, value any) (x cli.Completion, uses cli.Action, _ any) {
	if values != nil {
		x = cli.CompletionValues(values...)
	} else if file {
		x = cli.FileCompletion
	}
	if x != nil {
		switch from {
		case compEnum:
			if values != nil {
				return nil, cli.Enum(values...), value
			}
		case compValue:
			return nil, nil, &completes{values: values, file: file}
		case compBoth:
			value = &completes{values: []string{"not this", "red herring"}, file: values != nil && len(values) == 0}
		}
	}
	x, uses = completionVia(x, via)
	return x, uses, value
}

func (a *karg) path(w string) []string {
	if a.dir {
		return []string{"dir " + w + "  1"}
	}
	return []string{"file " + w + "  1"}
}

type kcmd struct {
	name    string
	aliases []string
	help    string
	flags   []*kflag
	args    []*karg
	subs    []*kcmd
	// the name of the command that is meant if none is named, and how that is said
	implicit string
	handler  int
	other    string // the command that an unknown name stands for
}

func (f *kflag) names() (res []string) {
	if f.short != "" {
		res = append(res, "-"+f.short)
	}
	if f.long != "" {
		res = append(res, "--"+f.long)
	}
	return
}

func (f *kflag) String() string {
	return fmt.Sprintf("%v bool %v hidden %v help %q values %q file %v list %v from %d options %v", f.names(), f.bool, f.hid, f.help, f.values, f.file, f.list, f.from, f.opts)
}

func (k *kcmd) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s%v %q implicit %q %d other %q\n", k.name, k.aliases, k.help, k.implicit, k.handler, k.other)
	for _, f := range k.flags {
		fmt.Fprintf(&b, "  %v\n", f)
	}
	for _, a := range k.args {
		fmt.Fprintf(&b, "  <%s> NArg %v values %q file %v directory %v from %d required %v\n", a.name, a.narg, a.values, a.file, a.dir, a.from, a.req)
	}
	for _, s := range k.subs {
		b.WriteString("  " + strings.ReplaceAll(strings.TrimRight(s.text(), "\n"), "\n", "\n  ") + "\n")
	}
	return b.String()
}

func drawKcmd(t *rapid.T, name string, depth int) *kcmd {
	k := &kcmd{name: name, help: rapid.SampledFrom([]string{"", "some help", "some help", "some help\nin two lines"}).Draw(t, "help")}
	vals := func() []string {
		return rapid.SampledFrom([][]string{nil, {"red", "rose", "blue"}, {"red", "violet"}, {"red", "reed", "sub"}, {"a b", "it's", "a"}, {}}).Draw(t, "values")
	}
	longs := drawNames(t, []string{"long", "long-er", "color", "colors", "co", "z-flag"}, "longs", 5)
	shorts := drawNames(t, []string{"a", "b", "l", "c"}, "shorts", 3)
	for len(longs)+len(shorts) > 0 {
		f := &kflag{}
		n := rapid.IntRange(0, 2).Draw(t, "which")
		if len(longs) > 0 && n != 0 {
			f.long, longs = longs[0], longs[1:]
		}
		if len(shorts) > 0 && (n != 1 || f.long == "") {
			f.short, shorts = shorts[0], shorts[1:]
		}
		if f.short == "" && f.long == "" {
			f.long, longs = longs[0], longs[1:]
		}
		f.bool = rapid.Bool().Draw(t, "bool")
		f.hid = rapid.IntRange(0, 5).Draw(t, "hidden") == 0
		f.help = rapid.SampledFrom([]string{"", "flag help", "flag help", "flag help\n in two lines"}).Draw(t, "help")
		if !f.bool {
			f.values = vals()
			f.file = f.values == nil && rapid.Bool().Draw(t, "file")
			f.from = rapid.IntRange(0, 3).Draw(t, "from")
			if f.list = rapid.IntRange(0, 3).Draw(t, "list") == 1; f.list {
				f.from = min(f.from, compEnum)
			}
		}
		if rapid.IntRange(0, 6).Draw(t, "required") == 0 {
			f.opts = cli.Required
		}
		if f.bool && rapid.IntRange(0, 3).Draw(t, "no") == 0 {
			f.opts |= cli.No
		}
		k.flags = append(k.flags, f)
	}
	an := drawNames(t, []string{"first", "second", "third"}, "args", 3)
	for i, n := range an {
		a := &karg{name: n, narg: rapid.SampledFrom([]any{nil, 0, 1, 1, 1, 2}).Draw(t, "narg"), values: vals(), from: rapid.IntRange(0, 3).Draw(t, "from")}
		if i == len(an)-1 && rapid.Bool().Draw(t, "many") {
			a.narg = rapid.SampledFrom([]any{-1, -2, 2}).Draw(t, "narg")
		}
		a.file = a.values == nil && rapid.Bool().Draw(t, "file")
		a.dir = a.file && rapid.Bool().Draw(t, "dir")
		a.req = rapid.IntRange(0, 3).Draw(t, "required") == 0
		k.args = append(k.args, a)
	}
	if depth > 0 && (len(k.args) == 0 || rapid.Bool().Draw(t, "subsToo")) {
		if len(k.args) > 0 {
			// args which take all that remains leave nothing to the sub-commands
			if n := k.args[len(k.args)-1].narg; n == -1 || n == -2 {
				k.args[len(k.args)-1].narg = 1
			}
		}
		for _, n := range drawNames(t, []string{"sub", "subway", "add", "do-it"}, "subs", 4) {
			s := drawKcmd(t, n, depth-1)
			if rapid.IntRange(0, 2).Draw(t, "alias") == 0 {
				s.aliases = []string{"x" + n}
			}
			k.subs = append(k.subs, s)
			if k.implicit == "" && len(s.args) > 0 && rapid.IntRange(0, 3).Draw(t, "implicit") == 1 {
				k.implicit = rapid.SampledFrom(append([]string{s.name}, s.aliases...)).Draw(t, "implicitName")
				k.handler = rapid.IntRange(0, 3).Draw(t, "handler")
			}
			if k.other == "" && rapid.IntRange(0, 7).Draw(t, "other") == 1 {
				k.other = n
			}
		}
	}
	return k
}

// implicitCommand makes the command what is executed if none is named, maybe after other handlers
func implicitCommand(name string, how int) cli.Action {
	none := cli.HandleCommandNotFound(func(*cli.Context, error) (*cli.Command, error) { return nil, nil })
	switch how {
	case 1:
		return cli.Pipeline(cli.ImplicitCommand(name), none)
	case 2:
		return cli.Pipeline(none, cli.ImplicitCommand(name))
	case 3:
		return cli.Pipeline(cli.ImplicitCommand(name), cli.ImplicitCommand("no-such-command"))
	}
	return cli.ImplicitCommand(name)
}

// completionVia sets the completion in one of the ways
func completionVia(x cli.Completion, via int) (cli.Completion, cli.Action) {
	if x == nil {
		return nil, nil
	}
	switch via {
	case 1:
		return nil, cli.SetCompletion(x)
	case 2:
		return nil, x.(cli.Action)
	case 3:
		return nil, cli.Prototype{Completion: x}
	case 4:
		return x, cli.Prototype{Completion: cli.CompletionValues("not this")}
	}
	return x, nil
}

func (k *kcmd) build(ran *bool, via int) *cli.Command {
	c := &cli.Command{Name: k.name, Aliases: append([]string(nil), k.aliases...), HelpText: k.help, Action: func() { *ran = true }}
	for _, f := range k.flags {
		x := &cli.Flag{Name: f.long, HelpText: f.help, Options: f.opts, Action: func() { *ran = true }}
		if f.long == "" {
			x.Name = f.short
		} else if f.short != "" {
			x.Aliases = []string{f.short}
		}
		if f.hid {
			x.Options |= cli.Hidden
		}
		if f.bool {
			x.Value = new(bool)
		} else {
			x.Completion, x.Uses, x.Value = compSource(f.values, f.file, f.from, via, new(string))
			if f.list {
				x.Completion, x.Uses, x.Value = compSource(f.values, f.file, f.from, via, new([]string))
			} else if f.file && f.from == compEnum {
				x.Value = new(cli.File)
			}
		}
		c.Flags = append(c.Flags, x)
	}
	for _, a := range k.args {
		x := &cli.Arg{Name: a.name, NArg: a.narg, Value: new(string), Action: func() { *ran = true }}
		n, ok := a.narg.(int)
		if ok && (n < 0 || n > 1) {
			x.Value = new([]string)
		}
		x.Completion, x.Uses, x.Value = compSource(a.values, a.file, a.from, via, x.Value)
		switch {
		case a.file && a.dir:
			x.Completion, x.Uses = completionVia(cli.DirectoryCompletion, via)
		case a.file && a.from == compEnum && n == -1:
			x.Completion, x.Uses, x.Value = nil, nil, new(cli.FileSet)
		case a.file && a.from == compEnum:
			x.Completion, x.Uses, x.Value = nil, nil, new(cli.File)
		}
		if a.req {
			x.Options |= cli.Required
		}
		c.Args = append(c.Args, x)
	}
	for _, s := range k.subs {
		c.Subcommands = append(c.Subcommands, s.build(ran, via))
	}
	// nothing of it is to run, however it is registered
	act := func() { *ran = true }
	switch via {
	case 1:
		c.Action, c.Uses = nil, cli.At(cli.ActionTiming, cli.ActionOf(act))
	case 2:
		c.Uses = cli.Setup{Action: act}
	case 3:
		c.Uses = cli.ProvideValueInitializer(new(string), "value", cli.At(cli.ActionTiming, cli.ActionOf(act)))
	}
	own := c.Uses
	if k.implicit != "" {
		c.Uses = implicitCommand(k.implicit, k.handler)
	} else if k.other != "" {
		c.Uses = cli.HandleCommandNotFound(func(c *cli.Context, _ error) (*cli.Command, error) {
			if len(c.List("")) == 0 {
				return nil, errors.New("there is no name")
			}
			x, _ := c.Command().Command(k.other)
			return x, nil
		})
	}
	c.Uses = cli.Pipeline(own, c.Uses)
	return c
}

func withPrefix(vs []string, w string) (res []string) {
	for _, v := range vs {
		if strings.HasPrefix(v, w) {
			res = append(res, "plain "+v+"  1")
		}
	}
	return
}

// candidates is what is to be offered; exact is false where that is not claimed
func (k *kcmd) candidates(isRoot bool, pending *kflag, given map[string]int, w string) (res []string, claimed bool) {
	flags := k.flags
	if isRoot {
		flags = append(append([]*kflag(nil), flags...), &kflag{short: "h", long: "help", bool: true, help: "Display this help screen then exit"},
			&kflag{long: "version", bool: true, help: "Print the build version then exit"})
	}
	if last := len(k.args) - 1; last >= 0 && k.args[last].narg == -1 && given[k.args[last].name] > 0 {
		// takes even what looks like an option
		if k.args[last].file {
			return k.args[last].path(w), true
		}
		return withPrefix(k.args[last].values, w), true
	}
	if strings.HasPrefix(w, "-") {
		var matched []*kflag
		var all []string
		for _, f := range flags {
			if f.hid {
				continue
			}
			any := false
			for _, n := range f.names() {
				if strings.HasPrefix(n, w) {
					any = true
					all = append(all, "plain "+n+" "+f.help+" 1")
				}
			}
			if any {
				matched = append(matched, f)
			}
		}
		name, _, inline := strings.Cut(w, "=")
		for _, f := range flags {
			if f.hid {
				continue
			}
			for _, n := range f.names() {
				if n != w && !(inline && n == name) {
					continue
				}
				if n == w && len(matched) > 1 || inline && len(n) == 2 {
					return nil, false
				}
				if f.values == nil {
					// no values are known, or they are files
					return nil, false
				}
				var vs []string
				for _, m := range f.names() {
					for _, v := range f.values {
						if len(m) > 2 {
							vs = append(vs, m+"="+v)
						} else {
							vs = append(vs, m+v)
						}
					}
				}
				return withPrefix(vs, w), true
			}
		}
		if len(matched) == 1 {
			f := matched[0]
			var last string
			for _, n := range f.names() {
				if strings.HasPrefix(n, w) {
					last = n
				}
			}
			if !f.bool && len(last) > 2 {
				return []string{"plain " + last + "= " + f.help + " "}, true
			}
			return []string{"plain " + last + " " + f.help + " 1"}, true
		}
		return all, true
	}
	if pending != nil {
		if pending.file {
			return []string{"file " + w + "  1"}, true
		}
		return withPrefix(pending.values, w), true
	}
	for i, a := range k.args {
		if given[a.name] == 0 || a.narg == 2 && given[a.name] < 2 || i == len(k.args)-1 && len(k.subs) == 0 {
			if a.file {
				return a.path(w), true
			}
			return withPrefix(a.values, w), true
		}
	}
	subs := k.subs
	var helps []string
	add := func(n, help string) {
		if strings.HasPrefix(n, w) {
			helps = append(helps, "plain "+n+" "+help+" 1")
		}
	}
	for _, s := range subs {
		add(s.name, s.help)
		for _, a := range s.aliases {
			add(a, s.help)
		}
	}
	if isRoot && len(subs) > 0 {
		add("help", "Display help for a command")
		add("h", "Display help for a command")
		add("version", "Print the build version then exit")
	}
	return helps, true
}

func itemText(i cli.CompletionItem) string {
	space := "1"
	if i.PreventSpaceAfter {
		space = ""
	}
	return []string{"plain", "file", "dir"}[int(i.Type)] + " " + i.Value + " " + i.HelpText + " " + space
}

// TestP17_Candidates: what is offered for the word that is being completed
func TestP17_Candidates(t *testing.T) {
	pbt.Run(t, "there are two or more candidates, or one that is not the whole of the word", 2000, func(c *pbt.C) {
		root := drawKcmd(c.T, "app", 2)
		c.Showf("%s", root.text())
		var tokens []string
		cur, isRoot, implied := root, true, false
		var pending *kflag
		given := map[string]int{}
		// the flags that the commands above have and which the current one accepts, too
		var above []*kflag
		inherit := func() {
			own := map[string]bool{}
			for _, f := range cur.flags {
				for _, n := range f.names() {
					own[n] = true
				}
			}
			above = slices.DeleteFunc(slices.Clone(above), func(f *kflag) bool {
				return slices.ContainsFunc(f.names(), func(n string) bool { return own[n] })
			})
		}
		for {
			inherit()
			accepted := append(slices.Clone(cur.flags), above...)
			for i, n := 0, rapid.IntRange(0, 2).Draw(c.T, "nflags"); i < n && len(accepted) > 0 && !implied; i++ {
				f := rapid.SampledFrom(accepted).Draw(c.T, "flag")
				n := rapid.SampledFrom(f.names()).Draw(c.T, "spelling")
				switch {
				case f.bool:
					tokens = append(tokens, n)
				case len(n) == 2 && f.list:
					tokens = append(tokens, n+"val")
				case len(n) == 2:
					tokens = append(tokens, n, "val")
				default:
					tokens = append(tokens, n+"=val")
				}
			}
			nargs := 0
			for _, a := range cur.args {
				if n, ok := a.narg.(int); ok && n > 0 {
					nargs += n
				} else {
					nargs++
				}
			}
			all := len(cur.subs) > 0 && rapid.IntRange(0, 3).Draw(c.T, "deeper") > 0
			if !all {
				least := 0
				if implied {
					least = 1
				}
				nargs = rapid.IntRange(least, nargs).Draw(c.T, "nargs")
			}
			for _, a := range cur.args {
				n := 1
				if x, ok := a.narg.(int); ok && x > 1 {
					n = x
				}
				for i := 0; i < n && nargs > 0; i++ {
					given[a.name]++
					nargs--
					tokens = append(tokens, "v")
				}
			}
			if !all {
				break
			}
			s := rapid.SampledFrom(cur.subs).Draw(c.T, "sub")
			above = accepted
			if implied = cur.implicit != "" && slices.Contains(append([]string{s.name}, s.aliases...), cur.implicit) && rapid.IntRange(0, 2).Draw(c.T, "implied") > 0; implied {
				c.Label("implicit command")
				cur, isRoot, given = s, false, map[string]int{}
				continue
			}
			name := rapid.SampledFrom(append([]string{s.name}, s.aliases...)).Draw(c.T, "spelling")
			if cur.implicit == "" && cur.other == s.name && rapid.Bool().Draw(c.T, "unknown") {
				c.Label("unknown command")
				name = "unknown"
			}
			tokens = append(tokens, name)
			cur, isRoot, given = s, false, map[string]int{}
		}
		// an arg which must have a value takes it even if it looks like an option, once a value was given to an arg
		begun := false
		for i, a := range cur.args {
			if given[a.name] > 0 && (i < len(cur.args)-1 || a.narg == -1 || a.narg == 2 || len(cur.subs) > 0) {
				begun = true
			}
		}
		if !begun && rapid.IntRange(0, 4).Draw(c.T, "pending") == 0 {
			flags := slices.Clone(cur.flags)
			if rapid.Bool().Draw(c.T, "of above") {
				flags = append(slices.Clone(above), flags...)
			}
			for _, f := range flags {
				if !f.bool {
					pending = f
					if slices.Contains(above, f) {
						c.Label("value of a persistent flag")
					}
					tokens = append(tokens, rapid.SampledFrom(f.names()).Draw(c.T, "spelling"))
					if f.list {
						c.Label("value of a list flag")
						for range rapid.IntRange(0, 2).Draw(c.T, "listed") {
							tokens = append(tokens, rapid.SampledFrom([]string{"v", "red", "sub"}).Draw(c.T, "val"))
						}
					}
					break
				}
			}
		}
		words := []string{"", "", "r", "re", "v", "su", "sub", "x", "a", "-", "-", "--", "--", "--l", "--long", "--co", "--color=", "--color=r", "--z-flag", "-a", "-ar", "--nope"}
		w := rapid.SampledFrom(words).Draw(c.T, "word")
		c.Showf("command line: %q completing %q", tokens, w)
		want, claimed := cur.candidates(isRoot, pending, given, w)
		if !claimed {
			c.Label("not claimed")
			return
		}
		sort.Strings(want)
		if len(want) > 1 || len(want) == 1 && strings.Fields(want[0])[1] != w {
			c.NonTrivial()
		}
		switch {
		case strings.HasPrefix(w, "-"):
			c.Label("option %d", min(2, len(want)))
		case pending != nil:
			c.Label("value of a flag %d", min(2, len(want)))
		default:
			c.Label("arg or command %d", min(2, len(want)))
		}

		via := rapid.IntRange(0, 4).Draw(c.T, "via")
		c.Showf("completions are set in way %d", via)
		newapp := func(ran *bool) *cli.App {
			x := root.build(ran, via)
			app := newApp("app")
			app.Flags, app.Args, app.Commands, app.Action, app.Uses = x.Flags, x.Args, x.Subcommands, x.Action, x.Uses
			return app
		}
		var ran bool
		x, err := newapp(&ran).Initialize(context.Background())
		if err != nil {
			c.Failf("Initialize: %v", err)
		}
		items := cli.FromContext(x).Complete(append([]string{"app"}, tokens...), w)
		var got []string
		for _, i := range items {
			got = append(got, itemText(i))
		}
		sort.Strings(got)
		if strings.Join(got, "|") != strings.Join(want, "|") {
			c.Failf("candidates %q, want %q", got, want)
		}

		// the request as the shell makes it
		line := append([]string{"app"}, tokens...)
		os.Setenv("_JOE_APP_COMPLETE", "zsh")
		os.Setenv("COMP_CWORD", fmt.Sprint(len(line)))
		if w != "" {
			line = append(line, w)
			for range rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "after") {
				// what comes after it doesn't matter
				line = append(line, rapid.SampledFrom([]string{"sub", "--nope", "v", ""}).Draw(c.T, "later"))
			}
		}
		os.Setenv("COMP_WORDS", cli.Join(line))
		defer func() {
			os.Unsetenv("_JOE_APP_COMPLETE")
			os.Unsetenv("COMP_CWORD")
			os.Unsetenv("COMP_WORDS")
		}()
		var out bytes.Buffer
		app := newapp(&ran)
		app.Stdout = &out
		err = app.RunContext(context.Background(), []string{"app"})
		if e, ok := err.(cli.ExitCoder); !ok || e.ExitCode() != 0 {
			c.Failf("the request ends with %v", err)
		}
		if ran {
			c.Failf("an action ran")
		}
		var lines []string
		for _, i := range items {
			f := strings.SplitN(itemText(i), " ", 2)
			desc := i.HelpText
			if desc == "" {
				desc = "_"
			}
			space := "1"
			if i.PreventSpaceAfter {
				space = ""
			}
			// each item has four lines, so that the description is on one
			lines = append(lines, f[0], i.Value, strings.Join(strings.Fields(desc), " "), space)
		}
		text := ""
		if len(lines) > 0 {
			text = strings.Join(lines, "\n") + "\n"
		}
		if regexp.MustCompile("  +").ReplaceAllString(out.String(), " ") != text {
			c.Failf("the response is %q, want %q", out.String(), text)
		}
	})
}

type fakeShell struct {
	args       []string
	incomplete string
	items      []cli.CompletionItem
	source     string
	formatted  int
}

func (f *fakeShell) GetCompletionRequest() ([]string, string) { return f.args, f.incomplete }
func (f *fakeShell) SetOptions(map[string]string)             {}
func (f *fakeShell) FormatCompletions(items []cli.CompletionItem) string {
	f.items = items
	f.formatted++
	return fmt.Sprintf("<%d items>", len(items))
}
func (f *fakeShell) GetSourceTemplate() *cli.Template {
	return &cli.Template{Template: template.Must(template.New("source").Parse(f.source))}
}

// TestP17_Integration: the script of a shell and the request it makes belong together
func TestP17_Integration(t *testing.T) {
	pbt.Run(t, "apps with any name that complete for zsh and for up to 2 other shells, asked for the script, for completions with what the script says, and with another variable or shell; non-trivial: completions of another shell than zsh, or of a name with other characters than letters", 3000, func(c *pbt.C) {
		name := rapid.SampledFrom([]string{"app", "my-app", "my_app", "App2", "a.b", "x y", "my-long-app.exe", "é-app"}).Draw(c.T, "name")
		shells := rapid.Permutation([]string{"fake", "other", "my-shell"}).Draw(c.T, "shells")[:rapid.IntRange(0, 2).Draw(c.T, "nshells")]
		how := rapid.IntRange(0, 2).Draw(c.T, "how")
		c.Showf("app %q with shells %q, added in way %d", name, shells, how)
		words := rapid.SliceOfN(rapid.SampledFrom([]string{"--str", "--str=x", "one", "two", "--bad", "-s"}), 0, 3).Draw(c.T, "words")
		incomplete := rapid.SampledFrom([]string{"", "o", "--s", "a b", "it's"}).Draw(c.T, "incomplete")
		var ran bool
		var requests []string
		var out bytes.Buffer
		fakes := map[string]*fakeShell{}
		build := func() *cli.App {
			out.Reset()
			ran, requests = false, nil
			app := newApp(name)
			app.Stdout = &out
			app.Action = func() { ran = true }
			app.Flags = []*cli.Flag{{Name: "str", Value: new(string)}, {Name: "s", Value: new(bool)}}
			comp := cli.CompletionFunc(func(ctx *cli.Context) []cli.CompletionItem {
				r := ctx.CompletionRequest()
				requests = append(requests, fmt.Sprintf("%q %q %v", r.Args, r.Incomplete, r.Err != nil))
				if r.Bindings == nil {
					requests = append(requests, "no bindings")
				}
				return []cli.CompletionItem{{Value: "v1", HelpText: "help"}, {Value: "v2", PreventSpaceAfter: true}}
			})
			app.Args = []*cli.Arg{{Name: "a", Value: new([]string), NArg: cli.TakeUntilNextFlag}}
			uses := cli.ActionPipeline{cli.SetCompletion(comp)}
			for _, s := range shells {
				f := &fakeShell{args: append([]string{name}, words...), incomplete: incomplete, source: "{{.App.Name}}|{{.JoeCompletionVar}}|{{.CompletionFunc}}|{{.Shell}}"}
				fakes[s] = f
				switch how {
				case 0:
					app.Flags = append(app.Flags, &cli.Flag{Uses: cli.ShellCompleteIntegration(s, f)})
				case 1:
					app.Flags = append(app.Flags, &cli.Flag{Name: "renamed-" + s, Uses: cli.ShellCompleteIntegration(s, f)})
				default:
					uses = append(uses, cli.AddFlag(&cli.Flag{Uses: cli.ShellCompleteIntegration(s, f)}))
				}
			}
			app.Uses = uses
			return app
		}
		exec := func(what string, args ...string) {
			err := build().RunContext(context.Background(), append([]string{name}, args...))
			if e, ok := err.(cli.ExitCoder); !ok || e.ExitCode() != 0 {
				c.Failf("%s: error %v", what, err)
			}
			if ran {
				c.Failf("%s: the Action ran", what)
			}
		}

		// the scripts
		exec("script of zsh", "--zsh-completion")
		script := out.String()
		m := regexp.MustCompile(`(?m)^(\S+)=zsh (.*)\)\}`).FindStringSubmatch(script)
		if m == nil || strings.TrimSuffix(m[2], `)}")`) != name {
			c.Failf("the script has no command line of the app: %q\n%s", m, script)
		}
		variable := m[1]
		if !regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`).MatchString(variable) {
			c.Failf("the variable is %q", variable)
		}
		fm := regexp.MustCompile(`(?m)^([A-Za-z0-9_]+)\(\) \{$`).FindStringSubmatch(script)
		if fm == nil || !strings.Contains(script, "\ncompdef "+fm[1]+" "+name+";") || !strings.Contains(script, "#compdef "+name+"\n") {
			c.Failf("the script doesn't define its function:\n%s", script)
		}
		for _, s := range shells {
			flag := "--" + s + "-complete"
			if how == 1 {
				flag = "--renamed-" + s
			}
			exec("script of "+s, flag)
			if want := name + "|" + variable + "|" + fm[1] + "|"; out.String() != want {
				c.Failf("the script of %s is %q, want %q", s, out.String(), want)
			}
		}

		// the request that the script makes
		shell := rapid.SampledFrom(append([]string{"zsh", "zsh"}, shells...)).Draw(c.T, "shell")
		if shell != "zsh" || name != "app" {
			c.NonTrivial()
		}
		os.Setenv(variable, shell)
		defer os.Unsetenv(variable)
		os.Setenv("COMP_CWORD", fmt.Sprint(len(words)+1))
		defer os.Unsetenv("COMP_CWORD")
		os.Setenv("COMP_WORDS", cli.Join(append(append([]string{name}, words...), incomplete)))
		defer os.Unsetenv("COMP_WORDS")
		c.Showf("%s=%s, words %q, incomplete %q", variable, shell, words, incomplete)
		exec("completion", rapid.SampledFrom([][]string{nil, {"x"}, {"--nope"}}).Draw(c.T, "args")...)
		bad := false
		for i, w := range words {
			bad = bad || w == "--bad" && (i == 0 || words[i-1] != "--str")
		}
		if len(requests) != 1 || !strings.HasPrefix(requests[0], fmt.Sprintf("%q %q ", append([]string{name}, words...), incomplete)) || bad && !strings.HasSuffix(requests[0], "true") {
			c.Failf("the requests are %q", requests)
		}
		want := "plain\nv1\nhelp\n1\nplain\nv2\n_\n\n"
		for s, f := range fakes {
			n := 0
			if s == shell {
				n = 1
				want = "<2 items>"
				if fmt.Sprint(f.items) != fmt.Sprint([]cli.CompletionItem{{Value: "v1", HelpText: "help"}, {Value: "v2", PreventSpaceAfter: true}}) {
					c.Failf("the items are %v", f.items)
				}
			}
			if f.formatted != n {
				c.Failf("%s formats %d times", s, f.formatted)
			}
		}
		if out.String() != want {
			c.Failf("the response is %q, want %q", out.String(), want)
		}

		// another variable is not a request
		os.Unsetenv(variable)
		os.Setenv(variable+"_X", shell)
		defer os.Unsetenv(variable + "_X")
		if err := build().RunContext(context.Background(), []string{name, "1", "2"}); err != nil || !ran || len(requests) > 0 {
			c.Failf("without the variable: error %v, ran %v, requests %q", err, ran, requests)
		}
	})
}
