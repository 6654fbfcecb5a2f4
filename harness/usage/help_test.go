package usage

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/table"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// hflag, harg and hcmd describe an app whose help is displayed
type hflag struct {
	name, help, usage, category, desc string
	aliases                           []string
	value                             string
	hidden, required, no, exits       bool
	enum                              *henum
}

// henum restricts the values, which are displayed unless there is a text
type henum struct {
	values []string
	via    int
}

func (e *henum) text(usage string) string {
	switch {
	case usage != "" || e == nil:
		return usage
	case len(e.values) > 3:
		return "(" + strings.Join(e.values[:3], "|") + "|...)"
	}
	return "(" + strings.Join(e.values, "|") + ")"
}

func (e *henum) String() string {
	if e == nil {
		return "any"
	}
	return fmt.Sprintf("%q via %d", e.values, e.via)
}

// uses is what sets it up, and the text that remains to be set
func (e *henum) uses(usage string) (string, cli.Action) {
	if e == nil {
		return usage, nil
	}
	enum := cli.Enum(e.values...)
	switch {
	case usage != "" && e.via == 1:
		return "", cli.Pipeline(cli.UsageText(usage), enum)
	case usage != "" && e.via == 2:
		return "", cli.Pipeline(enum, cli.UsageText(usage))
	case usage != "" && e.via == 3:
		return "", cli.Pipeline(enum, func(c *cli.Context) error { return c.SetUsageText(usage) })
	case e.via == 4:
		return usage, cli.Pipeline(enum, cli.Enum("not", "these"))
	}
	return usage, enum
}

func drawEnum(t *rapid.T) *henum {
	return &henum{drawDistinct(t, []string{"a", "b", "red", "blue", "x-y", "10"}), rapid.IntRange(0, 4).Draw(t, "enumVia")}
}

func drawDistinct(t *rapid.T, of []string) []string {
	return rapid.SliceOfNDistinct(rapid.SampledFrom(of), 1, 6, rapid.ID[string]).Draw(t, "distinct")
}

type hcustom struct{ s string }

func (v *hcustom) Set(s string) error { v.s = s; return nil }
func (v *hcustom) String() string     { return v.s }
func (v *hcustom) Synopsis() string   { return "CUSTOM" }

type harg struct {
	name, usage, desc string
	narg              any
	hidden, required  bool
	enum              *henum
}

type hcmd struct {
	name, help, usage, category, desc string
	aliases                           []string
	hidden, rtl                       bool
	flags                             []*hflag
	args                              []*harg
	subs                              []*hcmd
	parent                            *hcmd
}

var hvalues = map[string]struct {
	make        func() any
	placeholder string
}{
	"bool":     {func() any { return new(bool) }, ""},
	"string":   {func() any { return new(string) }, "STRING"},
	"int":      {func() any { return new(int) }, "NUMBER"},
	"int8":     {func() any { return new(int8) }, "NUMBER"},
	"uint16":   {func() any { return new(uint16) }, "NUMBER"},
	"float":    {func() any { return new(float32) }, "NUMBER"},
	"list":     {func() any { return new([]string) }, "VALUES"},
	"duration": {func() any { return new(time.Duration) }, "DURATION"},
	"map":      {func() any { return new(map[string]string) }, "NAME=VALUE"},
	"url":      {func() any { return new(*url.URL) }, "URL"},
	"ip":       {func() any { return new(net.IP) }, "IP"},
	"regexp":   {func() any { return new(*regexp.Regexp) }, "PATTERN"},
	"bigint":   {func() any { return new(*big.Int) }, "VALUE"},
	"custom":   {func() any { return new(hcustom) }, "CUSTOM"},
	"bytes":    {func() any { return new([]byte) }, "VALUE"},
	"none":     {func() any { return nil }, "STRING"},
}

func long(n string) bool { return len(n) > 1 }

// names is the first short and the first long name
func (f *hflag) names() (short, longName string) {
	for _, n := range append([]string{f.name}, f.aliases...) {
		if long(n) && longName == "" {
			longName = n
		}
		if !long(n) && short == "" {
			short = n
		}
	}
	return
}

var bracesPattern = regexp.MustCompile(`\{([^}]+)\}`)

// placeholders of a help text in order of their positions, and the text without them
func hplaceholders(help string) (names []string, text string) {
	type ph struct {
		pos  int
		name string
	}
	var all []ph
	text = bracesPattern.ReplaceAllStringFunc(help, func(s string) string {
		s = s[1 : len(s)-1]
		p := ph{-1, s}
		if pos, name, ok := strings.Cut(s, ":"); ok {
			p.name = name
			fmt.Sscan(pos, &p.pos)
		}
		if !slices.ContainsFunc(all, func(q ph) bool { return q.name == p.name }) {
			all = append(all, p)
		}
		return p.name
	})
	sort.SliceStable(all, func(i, j int) bool { return all[i].pos < all[j].pos })
	for _, p := range all {
		names = append(names, p.name)
	}
	return
}

func (f *hflag) placeholder() string {
	if u := f.enum.text(f.usage); u != "" {
		return u
	}
	if p, _ := hplaceholders(f.help); len(p) > 0 {
		return strings.Join(p, " ")
	}
	return hvalues[f.value].placeholder
}

func (f *hflag) withValue(names, sep string) string {
	if p := f.placeholder(); p != "" {
		return names + sep + p
	}
	return names
}

// synopsis is how the flag is listed; primary is its form in the synopsis of the command
func (f *hflag) synopsis() (all, primary string) {
	short, lng := f.names()
	shown, sep := lng, "="
	if f.no && lng != "" {
		shown = "[no-]" + lng
	}
	if lng == "" {
		sep = " "
		if f.no {
			shown = "no-" + short
		}
	}
	var parts []string
	if short != "" {
		parts = append(parts, "-"+short)
	}
	if shown != "" {
		parts = append(parts, "--"+shown)
		primary = "--" + shown
	} else {
		primary = "-" + short
	}
	return f.withValue(strings.Join(parts, ", "), sep), f.withValue(primary, sep)
}

func (a *harg) synopsis() string {
	res := a.enum.text(a.usage)
	if res == "" {
		res = "<" + a.name + ">"
	}
	if n, ok := a.narg.(int); ok && (n < 0 || n > 1) {
		res += "..."
	}
	return res
}

func (a *harg) optional() bool {
	if a.required {
		return false
	}
	n, ok := a.narg.(int)
	return !ok || n == 0
}

// allArgs is the visible args with the one for the sub-command
func (x *hcmd) allArgs() (res []*harg) {
	for _, a := range x.args {
		if !a.hidden {
			res = append(res, a)
		}
	}
	if len(x.subs) > 0 {
		res = append(res, &harg{usage: "<command> [<args>]", narg: -1})
	}
	return
}

func (x *hcmd) allFlags() []*hflag {
	if x.parent == nil {
		return append(slices.Clone(x.flags),
			&hflag{name: "help", aliases: []string{"h"}, help: "Display this help screen then exit", value: "bool", exits: true},
			&hflag{name: "version", help: "Print the build version then exit", value: "bool", exits: true})
	}
	return x.flags
}

func (x *hcmd) allSubs() []*hcmd {
	if x.parent == nil && len(x.subs) > 0 {
		return append(slices.Clone(x.subs),
			&hcmd{name: "help", aliases: []string{"h"}, help: "Display help for a command"},
			&hcmd{name: "version", help: "Print the build version then exit"})
	}
	return x.subs
}

func (x *hcmd) synopsis() string {
	if x.usage != "" {
		return x.usage
	}
	var exits, shortReq, shortOpt, opt, req []string
	for _, f := range x.allFlags() {
		_, primary := f.synopsis()
		switch {
		case f.hidden:
		case f.exits:
			exits = append(exits, primary)
		case !long(f.name) && f.value == "bool":
			if f.required {
				shortReq = append(shortReq, f.name)
			} else {
				shortOpt = append(shortOpt, f.name)
			}
		case f.required:
			req = append(req, primary)
		default:
			opt = append(opt, primary)
		}
	}
	sort.Strings(shortReq)
	sort.Strings(shortOpt)
	res := x.name
	if len(exits) > 0 {
		res += " {" + strings.Join(exits, " | ") + "}"
	}
	if len(shortReq) > 0 {
		res += " -" + strings.Join(shortReq, "")
	}
	if len(shortOpt) > 0 {
		res += " [-" + strings.Join(shortOpt, "") + "]"
	}
	for _, s := range opt {
		res += " [" + s + "]"
	}
	for _, s := range req {
		res += " " + s
	}
	var optArgs []string
	for _, a := range x.allArgs() {
		if a.optional() || x.rtl && len(optArgs) > 0 {
			optArgs = append(optArgs, a.synopsis())
		} else {
			res += " " + a.synopsis()
		}
	}
	if len(optArgs) > 0 {
		if x.rtl {
			res += " " + strings.Repeat("[", len(optArgs)) + strings.Join(optArgs, "] ") + "]"
		} else {
			res += " [" + strings.Join(optArgs, "][") + "]"
		}
	}
	return res
}

func (x *hcmd) path() (res []string) {
	for y := x; y != nil; y = y.parent {
		res = append([]string{y.name}, res...)
	}
	return
}

// listing is the lines for the flags
func listing(flags []*hflag) (res []string) {
	line := func(f *hflag) string {
		all, _ := f.synopsis()
		_, help := hplaceholders(f.help)
		return all + " " + help
	}
	cats := map[string][]*hflag{}
	for _, f := range flags {
		cats[f.category] = append(cats[f.category], f)
	}
	var names []string
	for n := range cats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var visible []*hflag
		undocumented := len(names) > 1 || n != ""
		for _, f := range cats[n] {
			if !f.hidden {
				visible = append(visible, f)
			}
			if f.help != "" {
				undocumented = false
			}
		}
		if len(visible) == 0 {
			continue
		}
		if n != "" {
			res = append(res, n+":")
		}
		if undocumented {
			var l []string
			for _, f := range visible {
				if long(f.name) {
					l = append(l, "--"+f.name)
				} else {
					l = append(l, "-"+f.name)
				}
			}
			res = append(res, strings.Join(l, ", "))
			continue
		}
		for _, f := range visible {
			res = append(res, line(f))
		}
	}
	return
}

// screen is the text of the help screen, as lines
// (lineage is the names by which it was reached)
func (x *hcmd) screen(lineage []string) (res []string) {
	u := ""
	if x.parent != nil {
		u = "app " + strings.Join(lineage, " ") + " "
	}
	res = append(res, "usage: "+u+x.synopsis())
	if x.desc != "" {
		res = append(res, x.desc)
	} else if x.help != "" {
		res = append(res, x.help)
	}
	res = append(res, listing(x.allFlags())...)
	cats := map[string][]*hcmd{}
	for _, s := range x.allSubs() {
		if !s.hidden {
			cats[s.category] = append(cats[s.category], s)
		}
	}
	if len(cats) > 0 {
		res = append(res, "Sub-commands:")
		var names []string
		for n := range cats {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if n != "" {
				res = append(res, n+":")
			}
			for _, s := range cats[n] {
				res = append(res, strings.Join(append([]string{s.name}, s.aliases...), ", ")+" "+s.help)
			}
		}
	}
	if x.parent != nil {
		var persistent []*hflag
		for y := x.parent; y != nil; y = y.parent {
			var fl []*hflag
			for _, f := range y.allFlags() {
				if !f.hidden {
					fl = append(fl, f)
				}
			}
			persistent = append(fl, persistent...)
		}
		res = append(res, "Global options (specify before any sub-commands)")
		res = append(res, listing(persistent)...)
	}
	for _, a := range x.args {
		if !a.hidden && a.desc != "" {
			res = append(res, a.desc)
		}
	}
	for _, f := range x.flags {
		if !f.hidden && f.desc != "" {
			res = append(res, f.desc)
		}
	}
	return
}

func drawHcmd(t *rapid.T, name string, depth int, used map[string]bool) *hcmd {
	text := func(label string) string {
		return rapid.SampledFrom([]string{"", "", "Text of it", "Other"}).Draw(t, label)
	}
	chance := func(n int, label string) bool { return rapid.IntRange(0, n-1).Draw(t, label) == n-1 }
	pick := func(pool []string) string {
		var free []string
		for _, n := range pool {
			if !used[n] {
				free = append(free, n)
			}
		}
		if len(free) == 0 {
			return ""
		}
		n := rapid.SampledFrom(free).Draw(t, "name")
		used[n] = true
		return n
	}
	x := &hcmd{name: name, help: text("help"), desc: text("desc")}
	if x.desc != "" {
		x.desc += " of " + name
	}
	if chance(6, "usage") {
		x.usage = name + " [options] <x>"
	}
	x.rtl = chance(3, "rtl")
	top := len(used) == 0
	pool := []string{"a", "b", "c", "d", "e", "f", "alpha", "beta", "gamma", "delta", "al", "be", "x-y", "zeta", "eta", "Z", "9"}
	for i, k := 0, rapid.IntRange(0, 5).Draw(t, "nflags"); i < k; i++ {
		f := &hflag{name: pick(pool)}
		if f.name == "" {
			break
		}
		for j, n := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "naliases"); j < n; j++ {
			if a := pick(pool); a != "" {
				f.aliases = append(f.aliases, a)
			}
		}
		f.help = rapid.SampledFrom([]string{"", "", "plain help", "set the {FILE}", "{FILE} and {DIR}", "{1:OUT} from {0:IN}", "{1:B} {A}", "{X} or {X} again",
			"in {unclosed"}).Draw(t, "fhelp")
		if chance(4, "parts") {
			// placeholders with and without positions, also more than once
			f.help = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"{A}", "{B}", "{0:A}", "{1:B}", "{2:C}", "{2:A}", "{-1:C}", "{10:D}", "{1:E}", "to", "or", "a"}), 1, 6).Draw(t, "fparts"), " ")
		}
		if chance(5, "usage") {
			f.usage = rapid.SampledFrom([]string{"thing", "a|b"}).Draw(t, "usageText")
		}
		f.value = rapid.SampledFrom(append([]string{"bool", "bool", "bool", "string"}, sortedKeys(hvalues)...)).Draw(t, "value")
		if f.value != "bool" && chance(5, "enum") {
			f.enum = drawEnum(t)
		}
		f.category = rapid.SampledFrom([]string{"", "", "", "Two", "One"}).Draw(t, "category")
		if f.desc = rapid.SampledFrom([]string{"", "", "", "More about "}).Draw(t, "desc"); f.desc != "" {
			f.desc += f.name
		}
		f.hidden = chance(5, "hidden")
		f.no = f.value == "bool" && chance(4, "no")
		// those of the app would be missing on the command line
		f.required = !top && chance(4, "required")
		f.exits = f.value == "bool" && chance(8, "exits")
		x.flags = append(x.flags, f)
	}
	optional := false
	for i, k := 0, rapid.IntRange(0, 3).Draw(t, "nargs"); i < k; i++ {
		a := &harg{name: pick([]string{"first", "second", "third", "fourth", "fifth", "sixth"})}
		if a.name == "" {
			break
		}
		if optional {
			a.narg = rapid.SampledFrom([]any{nil, 0, -1, -2}).Draw(t, "narg")
		} else {
			a.narg = rapid.SampledFrom([]any{nil, 0, 1, 2, 3, -2, 1}).Draw(t, "narg")
			a.required = !top && chance(4, "required")
		}
		if top && !a.optional() {
			a.narg = 0
		}
		optional = optional || a.optional()
		if chance(5, "usage") {
			a.usage = "[any] " + a.name
		}
		if chance(5, "enum") {
			a.enum = drawEnum(t)
		}
		if a.desc = rapid.SampledFrom([]string{"", "", "About "}).Draw(t, "desc"); a.desc != "" {
			a.desc += a.name
		}
		a.hidden = chance(5, "hidden")
		x.args = append(x.args, a)
	}
	if depth > 0 {
		for i, k := 0, rapid.IntRange(0, 3).Draw(t, "nsubs"); i < k; i++ {
			n := pick([]string{"add", "sub", "remove", "list", "show", "init"})
			if n == "" {
				break
			}
			s := drawHcmd(t, n, depth-1, used)
			s.parent = x
			s.category = rapid.SampledFrom([]string{"", "", "Tools", "Admin"}).Draw(t, "category")
			s.hidden = chance(4, "hidden")
			if chance(3, "alias") {
				s.aliases = []string{n + "1"}
			}
			x.subs = append(x.subs, s)
		}
	}
	if top && len(x.subs) > 0 {
		x.args = nil // they would take the tokens
	}
	return x
}

func (x *hcmd) build(built map[*hcmd]*cli.Command) *cli.Command {
	opt := func(o cli.Option, set bool) cli.Option {
		if set {
			return o
		}
		return 0
	}
	c := &cli.Command{Name: x.name, Aliases: x.aliases, HelpText: x.help, Description: x.desc, UsageText: x.usage, Category: x.category,
		Options: opt(cli.Hidden, x.hidden) | opt(cli.RightToLeft, x.rtl)}
	if x.desc == "" {
		c.Description = nil
	}
	for _, f := range x.flags {
		nf := &cli.Flag{Name: f.name, Aliases: f.aliases, HelpText: f.help, UsageText: f.usage, Category: f.category, Value: hvalues[f.value].make(),
			Options: opt(cli.Hidden, f.hidden) | opt(cli.No, f.no) | opt(cli.Required, f.required) | opt(cli.Exits, f.exits)}
		nf.UsageText, nf.Uses = f.enum.uses(f.usage)
		if f.desc != "" {
			nf.Description = f.desc
		}
		c.Flags = append(c.Flags, nf)
	}
	for _, a := range x.args {
		na := &cli.Arg{Name: a.name, UsageText: a.usage, NArg: a.narg, Options: opt(cli.Hidden, a.hidden) | opt(cli.Required, a.required)}
		na.UsageText, na.Uses = a.enum.uses(a.usage)
		if a.desc != "" {
			na.Description = a.desc
		}
		c.Args = append(c.Args, na)
	}
	for _, s := range x.subs {
		c.Subcommands = append(c.Subcommands, s.build(built))
	}
	built[x] = c
	return c
}

func (x *hcmd) all() []*hcmd {
	res := []*hcmd{x}
	for _, s := range x.subs {
		res = append(res, s.all()...)
	}
	return res
}

func sortedKeys[V any](m map[string]V) (res []string) {
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return
}

func (x *hcmd) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %v help %q desc %q usage %q category %q hidden %v rtl %v\n", x.name, x.aliases, x.help, x.desc, x.usage, x.category, x.hidden, x.rtl)
	for _, f := range x.flags {
		fmt.Fprintf(&b, "  %+v enum %v\n", *f, f.enum)
	}
	for _, a := range x.args {
		fmt.Fprintf(&b, "  <%s> %+v enum %v\n", a.name, *a, a.enum)
	}
	for _, s := range x.subs {
		b.WriteString("  " + strings.ReplaceAll(strings.TrimRight(s.String(), "\n"), "\n", "\n  ") + "\n")
	}
	return b.String()
}

func collapsed(s string) string { return strings.Join(strings.Fields(s), " ") }

// helpLines splits the screen in lines, with the usage (which may be wrapped) as one
func helpLines(s string) (res []string) {
	usage := true
	for i, l := range strings.Split(s, "\n") {
		l = collapsed(l)
		if l == "" {
			usage = false
			continue
		}
		if i > 0 && usage {
			res[0] += " " + l
			continue
		}
		res = append(res, l)
	}
	return
}

// TestP18_Help: the help screen and the synopsis of a command list exactly what is visible
func TestP18_Help(t *testing.T) {
	pbt.Run(t, "the screen of a sub-command, or one with several sections", 5000, func(c *pbt.C) { checkHelp(c, nil) })
}

// TestP30_Help: the help screen with tables lists the same
func TestP30_Help(t *testing.T) {
	pbt.Run(t, "the screen, with tables, of a sub-command, or one with several sections", 2500, func(c *pbt.C) { checkHelp(c, table.Options{}) })
}

func checkHelp(c *pbt.C, uses cli.Action) {
	{
		root := drawHcmd(c.T, "app", 2, map[string]bool{})
		all := root.all()
		x := rapid.SampledFrom(all).Draw(c.T, "command")
		c.Showf("%s", root)
		var tokens []string
		path := x.path()[1:]
		for i := range path {
			y := x
			for range len(path) - 1 - i {
				y = y.parent
			}
			if len(y.aliases) > 0 && rapid.Bool().Draw(c.T, "byAlias") {
				path[i] = y.aliases[0]
			}
		}
		// the flag can be given if nothing that is required is missing
		flagForm := true
		for y := x; y != nil; y = y.parent {
			for _, a := range y.args {
				flagForm = flagForm && a.optional() && y == x
			}
			for _, f := range y.flags {
				flagForm = flagForm && !f.required
			}
		}
		help := rapid.SampledFrom([]string{"help", "h"}).Draw(c.T, "help")
		flag := map[string]string{"help": "--help", "h": "-h"}[help]
		form := "command"
		if flagForm {
			form = rapid.SampledFrom([]string{"command", "flag last", "flag first"}).Draw(c.T, "form")
		}
		switch {
		case form == "flag last" || len(root.subs) == 0:
			tokens = append(path, flag)
		case form == "flag first":
			tokens = append([]string{flag}, path...)
		default:
			tokens = append([]string{help}, path...)
		}
		c.Showf("%q", tokens)
		if x != root || len(x.subs) > 0 && len(x.flags) > 0 {
			c.NonTrivial()
		}
		c.Label("depth %d", len(path))
		built := map[*hcmd]*cli.Command{}
		cmd := root.build(built)
		app := &cli.App{Name: "app", Uses: uses}
		app.HelpText, app.Description, app.UsageText, app.Options = cmd.HelpText, cmd.Description, cmd.UsageText, cmd.Options
		app.Flags, app.Args, app.Commands = cmd.Flags, cmd.Args, cmd.Subcommands
		if rapid.Bool().Draw(c.T, "newApp") {
			app = cli.NewApp(cmd)
			app.Name, app.Uses = "app", uses
		}
		var out bytes.Buffer
		app.Stderr, app.Stdout, app.Stdin = &out, new(bytes.Buffer), new(bytes.Buffer)
		err := app.RunContext(context.Background(), append([]string{"app"}, tokens...))
		var exit cli.ExitCoder
		if !errors.As(err, &exit) || exit.ExitCode() != 0 {
			c.Failf("error %v", err)
		}
		got := helpLines(out.String())
		// the commands above are named as they were typed, or by their names
		var want []string
		for _, lineage := range [][]string{path, x.path()[1:]} {
			want = nil
			if len(lineage) > 0 {
				lineage = lineage[:len(lineage)-1]
			}
			for _, l := range x.screen(lineage) {
				want = append(want, collapsed(l))
			}
			if slices.Equal(got, want) {
				break
			}
		}
		if !slices.Equal(got, want) {
			c.Failf("the screen is\n%s\n\ngot  %q\n\nwant %q", out.String(), got, want)
		}
		for _, y := range all {
			for i, f := range y.flags {
				s, _ := f.synopsis()
				if got := built[y].Flags[i].Synopsis(); got != s {
					c.Failf("the synopsis of flag %s is %q, want %q", f.name, got, s)
				}
			}
			for i, a := range y.args {
				if got, s := built[y].Args[i].Synopsis(), a.synopsis(); got != s {
					c.Failf("the synopsis of arg %s is %q, want %q", a.name, got, s)
				}
			}
			if y != root && y.usage == "" && len(y.subs) == 0 {
				if got, s := built[y].Synopsis(), y.synopsis(); got != s {
					c.Failf("the synopsis of %s is %q, want %q", y.name, got, s)
				}
			}
		}
	}
}
