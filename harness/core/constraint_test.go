package core

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

type kopt struct {
	isArg    bool
	list     bool
	name     string
	level    int
	required int // 0 no, 1 Options, 2 Uses, 3 SetRequired
	rules    []krule
	occ      map[int][]string // by the level of the command line
	flag     *cli.Flag
}

type krule struct {
	kind  string // enum mutex func
	enum  []string
	mutex []*kopt
	bad   string
	max   int
	err   error
}

func (o *kopt) seen() bool { return len(o.occ[0])+len(o.occ[1]) > 0 }

// ctxName is the name in the context path
func (o *kopt) ctxName() string {
	switch {
	case o.isArg:
		return "<" + o.name + ">"
	case len(o.name) == 1:
		return "-" + o.name
	}
	return "--" + o.name
}

func (o *kopt) String() string {
	s := fmt.Sprintf("level %d %s list=%v required=%d occ=%q", o.level, o.ctxName(), o.list, o.required, o.occ)
	for _, r := range o.rules {
		switch r.kind {
		case "enum":
			s += fmt.Sprintf(" Enum%q", r.enum)
		case "mutex":
			s += " Mutex("
			for _, m := range r.mutex {
				s += m.name + " "
			}
			s += ")"
		case "func":
			s += fmt.Sprintf(" not %q, at most %d", r.bad, r.max)
		}
	}
	return s
}

var kvalues = []string{"red", "green", "blue", "100%", "a b", "é", "%d", "", " red", "blue ", "Green", "gre"}

// violation of one rule, for the occurrences
func (o *kopt) violates(r krule, occ []string, seenSoFar func(*kopt) bool) bool {
	switch r.kind {
	case "enum":
		for _, v := range occ {
			ok := false
			for _, e := range r.enum {
				ok = ok || e == v
			}
			if !ok {
				return true
			}
		}
	case "mutex":
		if !seenSoFar(o) {
			return false
		}
		for _, m := range r.mutex {
			if seenSoFar(m) {
				return true
			}
		}
	case "func":
		if len(occ) > r.max {
			return true
		}
		for _, v := range occ {
			if v == r.bad {
				return true
			}
		}
	}
	return false
}

type kviolation struct {
	o    *kopt
	kind string
	err  error
}

// TestP09_Constraints: a command only executes when its flags and args satisfy what they require.
func TestP09_Constraints(t *testing.T) {
	pbt.Run(t, "up to 4 flags in an app and up to 3 flags and 2 args in its sub-command with Required, Enum, Mutex and ValidatorFunc in random combinations, values biased to valid ones, given before and after the sub-command; non-trivial: at least one constraint applies to an option that occurs, or a required one does not occur", 12000, func(c *pbt.C) {
		hasSub := rapid.Bool().Draw(c.T, "hasSub")
		var opts []*kopt
		var levels [2][]*kopt
		last := 0
		if hasSub {
			last = 1
		}
		ids := 0
		for l := 0; l <= last; l++ {
			nf := rapid.IntRange(0, 4-l).Draw(c.T, "nflags")
			na := 0
			if l == last {
				na = rapid.IntRange(0, 2).Draw(c.T, "nargs")
			}
			for i := 0; i < nf+na; i++ {
				o := &kopt{isArg: i >= nf, level: l, occ: map[int][]string{}}
				name := string(rune('a' + ids))
				ids++
				o.name = rapid.SampledFrom([]string{name, "opt-" + name}).Draw(c.T, "name")
				if o.isArg {
					o.name = "arg-" + name
				}
				o.list = rapid.Bool().Draw(c.T, "list")
				if o.isArg && i < nf+na-1 {
					o.list = false
				}
				o.required = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 2, 2, 3}).Draw(c.T, "required")
				levels[l] = append(levels[l], o)
				opts = append(opts, o)
			}
		}
		for _, o := range opts {
			for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(c.T, "nrules"); i < n; i++ {
				r := krule{kind: rapid.SampledFrom([]string{"enum", "mutex", "func"}).Draw(c.T, "kind")}
				switch r.kind {
				case "enum":
					r.enum = rapid.SliceOfNDistinct(rapid.SampledFrom(kvalues), 1, 5, rapid.ID[string]).Draw(c.T, "enum")
				case "mutex":
					for _, m := range levels[o.level] {
						if m != o && !m.isArg && rapid.IntRange(0, 2).Draw(c.T, "with") == 0 {
							r.mutex = append(r.mutex, m)
						}
					}
				case "func":
					r.bad = rapid.SampledFrom(kvalues).Draw(c.T, "bad")
					r.max = rapid.IntRange(0, 3).Draw(c.T, "max")
					r.err = errors.New("validator of " + o.name)
				}
				o.rules = append(o.rules, r)
			}
		}
		value := func(o *kopt) string {
			if rapid.IntRange(0, 3).Draw(c.T, "any") > 0 {
				for _, r := range o.rules {
					if r.kind == "enum" {
						return rapid.SampledFrom(r.enum).Draw(c.T, "valid")
					}
				}
			}
			return rapid.SampledFrom(kvalues).Draw(c.T, "value")
		}
		var tokens []string
		for l := 0; l <= last; l++ {
			if l > 0 {
				tokens = append(tokens, "sub")
			}
			for _, o := range opts {
				if o.isArg || o.level > l {
					continue
				}
				p := 2
				if o.required > 0 {
					p = 8
				}
				if rapid.IntRange(0, 10).Draw(c.T, "occurs") < p {
					for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(c.T, "nocc"); i < n; i++ {
						v := value(o)
						if len(o.name) == 1 && o.list && v == "" {
							v = "red"
						}
						o.occ[l] = append(o.occ[l], v)
						if len(o.name) == 1 && v == "" {
							tokens = append(tokens, "-"+o.name, v)
						} else if len(o.name) == 1 {
							tokens = append(tokens, "-"+o.name+v)
						} else {
							tokens = append(tokens, "--"+o.name+"="+v)
						}
					}
				}
			}
		}
		for _, o := range levels[last] {
			if o.isArg {
				n := rapid.IntRange(0, 5).Draw(c.T, "argOccurs")
				if n == 0 {
					break
				}
				if !o.list {
					n = 1
				}
				for i := 0; i < n && i < 3; i++ {
					v := value(o)
					o.occ[last] = append(o.occ[last], v)
					tokens = append(tokens, v)
				}
			}
		}
		for _, o := range opts {
			c.Showf("%v", o)
			if o.seen() && len(o.rules) > 0 || !o.seen() && o.required > 0 {
				c.NonTrivial()
			}
		}
		c.Showf("tokens %q", tokens)

		// the reference
		var want *kviolation
		failedAt := -1
		for l := 0; l <= last && want == nil; l++ {
			sofar := func(o *kopt) bool {
				for i := 0; i <= l; i++ {
					if len(o.occ[i]) > 0 {
						return true
					}
				}
				return false
			}
			rules := func(o *kopt) {
				for _, r := range o.rules {
					if want == nil && o.violates(r, o.occ[l], sofar) {
						want = &kviolation{o, r.kind, r.err}
						failedAt = l
					}
				}
			}
			if l == 1 {
				for _, o := range levels[0] {
					if len(o.occ[1]) > 0 {
						rules(o)
					}
				}
			}
			for _, o := range levels[l] {
				rules(o)
				if want == nil && o.required > 0 && !sofar(o) {
					want = &kviolation{o, "required", nil}
					failedAt = l
				}
			}
		}

		// the app
		ran := map[string]int{}
		cmds := [2]*cli.Command{{Name: "app"}, {Name: "sub"}}
		for _, o := range opts {
			o := o
			var uses cli.ActionPipeline
			var options cli.Option
			if o.required == 1 {
				options = cli.Required
			} else if o.required == 2 {
				uses = append(uses, cli.Required)
			} else if o.required == 3 {
				uses = append(uses, cli.ActionOf(func(ctx *cli.Context) {
					ctx.Target().(interface{ SetRequired(bool) }).SetRequired(true)
				}))
			}
			for _, r := range o.rules {
				r := r
				switch r.kind {
				case "enum":
					uses = append(uses, cli.Enum(r.enum...))
				case "mutex":
					var names []string
					for _, m := range r.mutex {
						names = append(names, m.name)
					}
					uses = append(uses, cli.Mutex(names...))
				case "func":
					uses = append(uses, cli.ValidatorFunc(func(s []string) error {
						if len(s) > r.max {
							return r.err
						}
						for _, x := range s {
							if x == r.bad {
								return r.err
							}
						}
						return nil
					}))
				}
			}
			var v any = new(string)
			if o.list {
				v = new([]string)
			}
			act := func() { ran[o.name]++ }
			if o.isArg {
				n := any(0)
				if o.list {
					n = cli.TakeExceptForFlags
				}
				cmds[o.level].Args = append(cmds[o.level].Args, &cli.Arg{Name: o.name, Value: v, Uses: uses, Options: options, Action: act, NArg: n})
			} else {
				cmds[o.level].Flags = append(cmds[o.level].Flags, &cli.Flag{Name: o.name, Value: v, Uses: uses, Options: options, Action: act})
			}
		}
		app := newApp("app")
		app.Flags, app.Args = cmds[0].Flags, cmds[0].Args
		app.Action = func() { ran["app"]++ }
		if hasSub {
			cmds[1].Action = func() { ran["sub"]++ }
			app.Commands = []*cli.Command{cmds[1]}
		}
		err := run(app, tokens...)
		main := []string{"app", "sub"}[last]
		if want == nil {
			if err != nil {
				c.Failf("error %v, but no constraint is violated", err)
			}
			if ran[main] != 1 {
				c.Failf("the command did not run: %v", ran)
			}
			return
		}
		c.Label("violates %s at %d", want.kind, failedAt)
		if err == nil {
			c.Failf("no error, but %s of %s is violated", want.kind, want.o.ctxName())
		}
		if ran[main] != 0 {
			c.Failf("the command ran although %s of %s is violated", want.kind, want.o.ctxName())
		}
		for _, o := range opts {
			if ran[o.name] > 0 && (failedAt == 0 || o.level == 1) {
				c.Failf("the Action of %s ran although %s of %s is violated", o.name, want.kind, want.o.ctxName())
			}
		}
		pe, isParse := err.(*cli.ParseError)
		if !strings.Contains(err.Error(), want.o.ctxName()) && want.kind != "func" {
			c.Failf("the error %q does not name %s", err, want.o.ctxName())
		}
		switch want.kind {
		case "enum":
			if !isParse || pe.Code != cli.InvalidArgument || pe.Name != want.o.ctxName() {
				c.Failf("the error is %#v, want that %s has an invalid value", err, want.o.ctxName())
			}
			// the message has the value as it is and those that are allowed
			explains := false
			for _, r := range want.o.rules {
				if r.kind != "enum" {
					continue
				}
				for _, v := range append(slices.Clone(want.o.occ[0]), want.o.occ[1]...) {
					allowed := slices.IndexFunc(r.enum, func(e string) bool { return !strings.Contains(err.Error(), e) }) < 0
					explains = explains || !slices.Contains(r.enum, v) && allowed && strings.Contains(err.Error(), fmt.Sprintf("%q", v))
				}
			}
			if !explains || strings.Contains(err.Error(), "%!") {
				c.Failf("the message is %q", err)
			}
		case "required":
			if !isParse || pe.Code != cli.ExpectedRequiredOption {
				c.Failf("the error is %#v, want that %s is required", err, want.o.ctxName())
			}
		case "func":
			if !isParse || pe.Code != cli.InvalidArgument || pe.Name != want.o.ctxName() || !errors.Is(err, want.err) {
				c.Failf("the error is %#v, want the validator's of %s", err, want.o.ctxName())
			}
		}
	})
}
