package core

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

type ctxKey string

// TestP35_Values: a value is seen from where it is set on: by the command itself and
// what is below it.
func TestP35_Values(t *testing.T) {
	keys := []ctxKey{"a", "b", "c"}
	pbt.Run(t, "random trees of up to 3 levels with flags and args, any of whose hooks set a value in the context by one of 5 ways and report what they see; non-trivial: a command sees one set by itself and one set by its parent, or one which was replaced", 5000, func(c *pbt.C) {
		type set struct {
			key   ctxKey
			value string
			how   string
		}
		type event struct {
			id   string
			path int // level of the command
			leaf bool
			sets []set
		}
		depth := rapid.IntRange(0, 2).Draw(c.T, "depth")
		base := map[ctxKey]string{}
		baseCtx := context.Background()
		if rapid.Bool().Draw(c.T, "base value") {
			base["a"] = "base"
			baseCtx = context.WithValue(baseCtx, ctxKey("a"), "base")
		}
		serial := 0
		genSets := func(label string) []set {
			var res []set
			for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(c.T, label); i < n; i++ {
				serial++
				res = append(res, set{
					key:   rapid.SampledFrom(keys).Draw(c.T, "key"),
					value: fmt.Sprintf("%s/%d", label, serial),
					how:   rapid.SampledFrom([]string{"action", "method", "context", "context method", "before action"}).Draw(c.T, "how"),
				})
			}
			return res
		}
		got := map[string]string{}
		var order []string
		see := func(ctx context.Context) string {
			var res []string
			cc := cli.FromContext(ctx)
			for _, k := range keys {
				v := ctx.Value(k)
				if w := cc.Context().Value(k); w != v {
					return fmt.Sprintf("%v or %v", v, w)
				}
				if w := cc.Value(k); w != v {
					return fmt.Sprintf("%v or %v", v, w)
				}
				if v != nil {
					res = append(res, fmt.Sprintf("%s=%v", k, v))
				}
			}
			return strings.Join(res, " ")
		}
		// hook makes an action which reports what is seen, then sets
		hook := func(e *event, reports bool) cli.Action {
			p := []any{}
			if reports {
				p = append(p, func(ctx context.Context) {
					got[e.id] = see(ctx)
					order = append(order, e.id)
				})
			}
			for _, s := range e.sets {
				switch s.how {
				case "method":
					p = append(p, func(cc *cli.Context) error { return cc.SetContextValue(s.key, s.value) })
				case "context":
					p = append(p, func(cc *cli.Context) error {
						return cc.Do(cli.SetContext(context.WithValue(cc.Context(), s.key, s.value)))
					})
				case "context method":
					p = append(p, func(cc *cli.Context) error {
						return cc.SetContext(context.WithValue(cc.Context(), s.key, s.value))
					})
				default:
					p = append(p, cli.ContextValue(s.key, s.value))
				}
			}
			return cli.Pipeline(p...)
		}
		var events []*event // in the order of the history, as far as it matters
		newEvent := func(id string, level int, leaf bool) *event {
			e := &event{id: id, path: level, leaf: leaf, sets: genSets(id)}
			events = append(events, e)
			return e
		}
		app := newApp("app")
		line := []string{}
		cmds := []*cli.Command{}
		type level struct{ uses, before, fbefore, faction, action, after, fafter *event }
		var levels []*level
		for l := 0; l <= depth; l++ {
			lv := &level{}
			levels = append(levels, lv)
			lv.uses = newEvent(fmt.Sprintf("%d uses", l), l, false)
		}
		for l := 0; l <= depth; l++ {
			lv := levels[l]
			lv.before = newEvent(fmt.Sprintf("%d before", l), l, false)
			lv.fbefore = newEvent(fmt.Sprintf("%d flag before", l), l, true)
			lv.faction = newEvent(fmt.Sprintf("%d flag action", l), l, true)
		}
		levels[depth].action = newEvent(fmt.Sprintf("%d action", depth), depth, false)
		for l := depth; l >= 0; l-- {
			lv := levels[l]
			lv.after = newEvent(fmt.Sprintf("%d after", l), l, false)
			lv.fafter = newEvent(fmt.Sprintf("%d flag after", l), l, true)
		}
		asArg := rapid.Bool().Draw(c.T, "arg instead of a flag")
		for l := 0; l <= depth; l++ {
			lv := levels[l]
			name := fmt.Sprintf("opt%d", l)
			fl := &cli.Flag{Name: name, Value: new(bool), Uses: hook(&event{}, false), Before: hook(lv.fbefore, true), Action: hook(lv.faction, true), After: hook(lv.fafter, true)}
			var flags []*cli.Flag
			var args []*cli.Arg
			if l == depth && asArg {
				args = []*cli.Arg{{Name: name, Before: fl.Before, Action: fl.Action, After: fl.After}}
				line = append(line, "x")
			} else {
				flags = []*cli.Flag{fl}
				line = append(line, "--"+name)
			}
			var action cli.Action
			if l == depth {
				action = hook(lv.action, true)
			}
			if l == 0 {
				app.Flags, app.Args, app.Uses, app.Before, app.After = flags, args, hook(lv.uses, true), hook(lv.before, true), hook(lv.after, true)
				if action != nil {
					app.Action = action
				}
			} else {
				cmd := &cli.Command{Name: fmt.Sprintf("sub%d", l), Flags: flags, Args: args, Uses: hook(lv.uses, true), Before: hook(lv.before, true), After: hook(lv.after, true)}
				if action != nil {
					cmd.Action = action
				}
				cmds = append(cmds, cmd)
			}
			if l < depth {
				line = append(line, fmt.Sprintf("sub%d", l+1))
			}
		}
		if depth > 0 {
			app.Commands = cmds[:1:1]
		}
		if depth > 1 {
			cmds[0].Subcommands = cmds[1:2:2]
		}
		for _, e := range events {
			c.Showf("%s sets %v", e.id, e.sets)
		}
		c.Showf("tokens %q base %v", line, base)
		if err := app.RunContext(baseCtx, append([]string{"app"}, line...)); err != nil {
			c.Failf("error %v", err)
		}
		// the value an event sees was set latest by an event of its own command or one
		// above, and not by a flag or an arg
		for i, e := range events {
			own, above, replaced := false, false, false
			seen := map[ctxKey]string{}
			by := map[ctxKey]int{}
			for k, v := range base {
				seen[k] = v
			}
			unclear := map[ctxKey]bool{}
			for _, b := range events[:i] {
				if b.leaf {
					continue
				}
				if b.path > e.path {
					if strings.HasSuffix(b.id, "uses") {
						// see the known finding
						for _, s := range b.sets {
							unclear[s.key] = true
						}
					}
					continue
				}
				for _, s := range b.sets {
					if _, ok := seen[s.key]; ok {
						replaced = true
					}
					seen[s.key], by[s.key] = s.value, b.path
					// what the Uses of one below have set is no longer seen when it
					// is set again at a later time
					if !strings.HasSuffix(b.id, "uses") {
						delete(unclear, s.key)
					}
				}
			}
			for _, l := range by {
				own = own || l == e.path
				above = above || l < e.path
			}
			if own && above || replaced {
				c.NonTrivial()
			}
			g, ok := got[e.id]
			if !ok {
				c.Failf("%s did not run, of %q", e.id, order)
			}
			var res []string
			for _, k := range keys {
				if v, ok := seen[k]; ok && !unclear[k] {
					res = append(res, fmt.Sprintf("%s=%v", k, v))
				}
			}
			var kept []string
			for _, f := range splitSeen(g) {
				if !unclear[ctxKey(f[:1])] {
					kept = append(kept, f)
				}
			}
			if !reflect.DeepEqual(kept, res) && (len(kept) > 0 || len(res) > 0) {
				c.Failf("%s sees %q, want %q", e.id, kept, res)
			}
		}
	})
}

func splitSeen(s string) []string {
	var res []string
	for _, f := range strings.Split(s, " ") {
		if len(f) > 1 && f[1] == '=' {
			res = append(res, f)
		} else if len(res) > 0 {
			res[len(res)-1] += " " + f
		}
	}
	sort.Strings(res)
	return res
}

// TestP35_Siblings: what the Uses of one command put in the context is not seen by
// another (a known finding).
func TestP35_Siblings(t *testing.T) {
	pbt.Run(t, "random numbers of commands, each of whose Uses sets a value of its own, of which one is run; non-trivial: all", 200, func(c *pbt.C) {
		n := rapid.IntRange(2, 4).Draw(c.T, "n")
		which := rapid.IntRange(0, n-1).Draw(c.T, "which")
		app := newApp("app")
		var seen, above any
		app.Before = func(ctx *cli.Context) { above = ctx.Value(ctxKey("k")) }
		for i := range n {
			app.Commands = append(app.Commands, &cli.Command{
				Name:   fmt.Sprintf("c%d", i),
				Uses:   cli.ContextValue(ctxKey("k"), fmt.Sprintf("of c%d", i)),
				Action: func(ctx *cli.Context) { seen = ctx.Value(ctxKey("k")) },
			})
		}
		c.NonTrivial()
		c.Showf("c%d of %d", which, n)
		if err := run(app, fmt.Sprintf("c%d", which)); err != nil {
			c.Failf("error %v", err)
		}
		// which it does see is that of the last one
		if want := fmt.Sprintf("of c%d", n-1); seen != want && seen != fmt.Sprintf("of c%d", which) {
			c.Failf("c%d sees %v", which, seen)
		}
		_ = above
	})
	var seen any
	app := newApp("app")
	for _, n := range []string{"c0", "c1"} {
		app.Commands = append(app.Commands, &cli.Command{
			Name:   n,
			Uses:   cli.ContextValue(ctxKey("k"), "of "+n),
			Action: func(ctx *cli.Context) { seen = ctx.Value(ctxKey("k")) },
		})
	}
	pbt.Known(t, "P35-uses-context-siblings", run(app, "c0") == nil && seen == "of c1")
}

// TestP35_Done: the deadline, the end and the error of the context are those of the
// context it was run with and of the Timeouts which apply to it.
func TestP35_Done(t *testing.T) {
	pbt.Run(t, "random trees of up to 3 levels, any of which has a Timeout in Uses or Before, run with a context with or without a deadline or which is cancelled at some time; non-trivial: two of them", 1500, func(c *pbt.C) {
		depth := rapid.IntRange(0, 2).Draw(c.T, "depth")
		type limit struct {
			d   time.Duration // 0 none
			via string
		}
		var limits []limit
		n := 0
		for l := 0; l <= depth; l++ {
			li := limit{via: rapid.SampledFrom([]string{"uses", "before", "setup", "hook"}).Draw(c.T, "via")}
			if rapid.Bool().Draw(c.T, "has timeout") {
				li.d = time.Duration(rapid.IntRange(1, 50).Draw(c.T, "minutes")) * time.Minute
				n++
			}
			limits = append(limits, li)
		}
		baseLimit := time.Duration(0)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if rapid.IntRange(0, 2).Draw(c.T, "base deadline") == 0 {
			baseLimit = time.Duration(rapid.IntRange(1, 50).Draw(c.T, "minutes")) * time.Minute
			var cancel2 func()
			ctx, cancel2 = context.WithTimeout(ctx, baseLimit)
			defer cancel2()
			n++
		}
		baseDeadline, _ := ctx.Deadline()
		expires := rapid.IntRange(0, 9).Draw(c.T, "expires") == 7
		if expires {
			limits[depth].d = time.Millisecond
		}
		cancelAt := rapid.SampledFrom([]string{"", "", "start", "uses", "before", "action"}).Draw(c.T, "cancel")
		if cancelAt != "" {
			n++
		}
		if n >= 2 {
			c.NonTrivial()
		}
		c.Showf("depth %d limits %v base %v cancel %q expires %v", depth, limits, baseLimit, cancelAt, expires)
		if cancelAt == "start" {
			cancel()
		}
		start := time.Now()
		var problems []string
		captured := map[int]context.Context{}
		var inner *cli.Context
		ran := 0
		check := func(l int) func(*cli.Context) {
			return func(cc *cli.Context) {
				now := time.Now()
				ran++
				dl, ok := cc.Deadline()
				var lo, hi time.Time
				has := baseLimit != 0
				if has {
					lo, hi = baseDeadline, baseDeadline
				}
				for _, li := range limits[:l+1] {
					if li.d == 0 {
						continue
					}
					a, b := start.Add(li.d), now.Add(li.d)
					if !has || a.Before(lo) {
						lo = a
					}
					if !has || b.Before(hi) {
						hi = b
					}
					has = true
				}
				if ok != has || has && (dl.Before(lo) || dl.After(hi)) {
					problems = append(problems, fmt.Sprintf("level %d: deadline %v %v, want %v between %v and %v", l, dl, ok, has, lo, hi))
				}
			}
		}
		app := newApp("app")
		cmds := []*cli.Command{}
		var line []string
		for l := 0; l <= depth; l++ {
			var uses, before []any
			if li := limits[l]; li.d != 0 {
				switch li.via {
				case "uses":
					uses = append(uses, cli.Timeout(li.d))
				case "before":
					before = append(before, cli.Timeout(li.d))
				case "setup":
					uses = append(uses, cli.Setup{Uses: cli.Timeout(li.d)})
				case "hook":
					uses = append(uses, func(cc *cli.Context) error { return cc.Before(cli.Timeout(li.d)) })
				}
			}
			if l == 0 && cancelAt == "uses" {
				uses = append(uses, func() { cancel() })
			}
			if l == 0 && cancelAt == "before" {
				before = append(before, func() { cancel() })
			}
			before = append(before, check(l), func(cc *cli.Context) { captured[l] = cc.Context() })
			var action any
			if l == depth {
				action = func(cc *cli.Context) error {
					check(l)(cc)
					inner = cc
					select {
					case <-cc.Done():
						if !expires && cancelAt != "start" && cancelAt != "uses" && cancelAt != "before" {
							problems = append(problems, "done too early")
						}
					default:
						if cc.Err() == nil && cancelAt != "" && cancelAt != "action" {
							problems = append(problems, "not cancelled")
						}
					}
					if cancelAt == "action" {
						cancel()
					}
					if cancelAt != "" || expires {
						select {
						case <-cc.Done():
						case <-time.After(30 * time.Second):
							problems = append(problems, "never done")
						}
						want := context.Canceled
						if cancelAt == "" {
							want = context.DeadlineExceeded
						}
						if !errors.Is(cc.Err(), want) && !(expires && errors.Is(cc.Err(), context.DeadlineExceeded)) {
							problems = append(problems, fmt.Sprintf("ends with %v, want %v", cc.Err(), want))
						}
					} else if cc.Err() != nil {
						problems = append(problems, fmt.Sprintf("ends early with %v", cc.Err()))
					}
					return nil
				}
			}
			if l == 0 {
				app.Uses, app.Before, app.Action = cli.Pipeline(uses...), cli.Pipeline(before...), action
			} else {
				cmds = append(cmds, &cli.Command{Name: fmt.Sprintf("sub%d", l), Uses: cli.Pipeline(uses...), Before: cli.Pipeline(before...), Action: action})
				line = append(line, fmt.Sprintf("sub%d", l))
			}
		}
		if depth > 0 {
			app.Commands = cmds[:1:1]
		}
		if depth > 1 {
			cmds[0].Subcommands = cmds[1:2:2]
		}
		if err := app.RunContext(ctx, append([]string{"app"}, line...)); err != nil {
			c.Failf("error %v", err)
		}
		if len(problems) > 0 {
			c.Failf("%s", strings.Join(problems, "\n"))
		}
		if ran != depth+2 {
			c.Failf("%d of the hooks ran", ran)
		}
		// a Timeout is released at the end
		for l, cc := range captured {
			released := cancelAt != ""
			for _, li := range limits[:l+1] {
				released = released || li.d != 0
			}
			if released != (cc.Err() != nil) {
				c.Failf("after the run, the error of level %d is %v", l, cc.Err())
			}
		}
		_ = inner
	})
}

// TestP35_Signals: a signal which is handled ends the context of the command and those
// below it, and others do not.
func TestP35_Signals(t *testing.T) {
	sigs := []syscall.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGHUP}
	// these never end the process
	own := make(chan os.Signal, 16)
	for _, s := range sigs {
		signal.Notify(own, s)
	}
	defer signal.Stop(own)
	pbt.Run(t, "random apps with a sub-command, either of which handles some signals, and a signal which is sent in a hook; non-trivial: it is handled", 300, func(c *pbt.C) {
		handled := [2][]os.Signal{}
		for l := range handled {
			for _, s := range sigs {
				if rapid.Bool().Draw(c.T, "handled") {
					handled[l] = append(handled[l], s)
				}
			}
		}
		sent := rapid.SampledFrom(sigs).Draw(c.T, "sent")
		at := rapid.SampledFrom([]string{"app before", "sub before", "flag", "sub action", "none"}).Draw(c.T, "at")
		via := rapid.SampledFrom([]string{"uses", "before"}).Draw(c.T, "via")
		wantApp, wantSub := false, false
		for l := range handled {
			for _, s := range handled[l] {
				if s == sent && at != "none" && (l == 0 || at != "app before") {
					if l == 0 {
						wantApp, wantSub = true, true
					} else {
						wantSub = true
					}
				}
			}
		}
		if wantSub {
			c.NonTrivial()
		}
		c.Showf("handled %v, %v at %s via %s", handled, sent, at, via)
		for len(own) > 0 {
			<-own
		}
		send := func(here string) func() {
			return func() {
				if here == at {
					syscall.Kill(os.Getpid(), sent)
					select {
					case <-own: // it has come
					case <-time.After(30 * time.Second):
					}
				}
			}
		}
		var problems []string
		var appCtx, subCtx context.Context
		app := newApp("app")
		sub := &cli.Command{Name: "sub"}
		app.Commands = []*cli.Command{sub}
		before := [2][]any{}
		for l, uses := range []*any{&app.Uses, &sub.Uses} {
			if len(handled[l]) == 0 {
				continue // which would be all of them
			}
			if via == "uses" {
				*uses = cli.HandleSignal(handled[l]...)
			} else {
				before[l] = append(before[l], cli.HandleSignal(handled[l]...))
			}
		}
		app.Before = cli.Pipeline(append(before[0], func(cc *cli.Context) { appCtx = cc.Context() }, send("app before"))...)
		sub.Before = cli.Pipeline(append(before[1], send("sub before"))...)
		sub.Flags = []*cli.Flag{{Name: "f", Value: new(bool), Action: send("flag")}}
		sub.Action = func(cc *cli.Context) {
			subCtx = cc.Context()
			send("sub action")()
			wait := func(name string, ctx context.Context, want bool) {
				if want {
					select {
					case <-ctx.Done():
					case <-time.After(30 * time.Second):
						problems = append(problems, name+" is not done")
					}
					if ctx.Err() != context.Canceled {
						problems = append(problems, fmt.Sprint(name+" ends with ", ctx.Err()))
					}
				} else if ctx.Err() != nil {
					problems = append(problems, name+" is done")
				}
			}
			wait("sub", cc, wantSub)
			wait("app", appCtx, wantApp)
		}
		if err := run(app, "sub", "-f"); err != nil {
			c.Failf("error %v", err)
		}
		if len(problems) > 0 {
			c.Failf("%s", strings.Join(problems, "\n"))
		}
		// it is unregistered
		if len(handled[0]) > 0 && appCtx.Err() == nil || len(handled[0])+len(handled[1]) > 0 && subCtx.Err() == nil {
			c.Failf("the handler is still there")
		}
	})
}
