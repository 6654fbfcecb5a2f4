From e0c4826cebf9c9f66b26bc3cceffb476ed3bcfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 001/108] fix: do not take a token that looks like a flag into
 an argument with the default count

ArgCount documents TakeUnlessFlag (0) as taking the argument only if it does
not look like a flag, but the counter took any token.  For example, with two
positional args and a flag -v, 'app a -v' set the second arg to "-v" rather
than the flag.
---
 arg.go | 5 ++++-
 go.sum | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..0a6f0d1 100644
--- a/arg.go
+++ b/arg.go
@@ -547,10 +547,13 @@ func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
 
-func (d *defaultCounter) Take(_ string, _ bool) error {
+func (d *defaultCounter) Take(arg string, possibleFlag bool) error {
 	if d.seen {
 		return EndOfArguments
 	}
+	if !d.requireSeen && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.seen = true
 	return nil
 }
diff --git a/go.sum b/go.sum
index bd1f773..ac99f67 100644
--- a/go.sum
+++ b/go.sum
@@ -41,12 +41,14 @@ github.com/google/go-cmp v0.6.0 h1:ofyhxvXcZhMsU5ulbFiLKl/XBFqE1GSq7atu8tAmTRI=
 github.com/google/go-cmp v0.6.0/go.mod h1:17dUlkBOakJ0+DkrSSNjCkIjxS6bF9zb3elmeNGIjoY=
 github.com/google/pprof v0.0.0-20241101162523-b92577c0c142 h1:sAGdeJj0bnMgUNVeUpp6AYlVdCt3/GdI3pGRqsNSQLs=
 github.com/google/pprof v0.0.0-20241101162523-b92577c0c142/go.mod h1:vavhavw2zAxS5dIdcRluK6cSGGPlZynqzFM8NdvU144=
+github.com/google/uuid v1.6.0/go.mod h1:TIyPZe4MgqvfeYDBFedMoGGpEw/LqOeaOT+nhxU+yHo=
 github.com/hashicorp/go-version v1.7.0 h1:5tqGy27NaOTB8yJKUZELlFAS/LTKJkrmONwQKeRZfjY=
 github.com/hashicorp/go-version v1.7.0/go.mod h1:fltr4n8CU8Ke44wwGCBoEymUuxUHl09ZGVZPK5anwXA=
 github.com/juju/ansiterm v1.0.0 h1:gmMvnZRq7JZJx6jkfSq9/+2LMrVEwGwt7UR6G+lmDEg=
 github.com/juju/ansiterm v1.0.0/go.mod h1:PyXUpnI3olx3bsPcHt98FGPX/KCFZ1Fi+hw1XLI6384=
 github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51 h1:Z9n2FFNUXsshfwJMBgNA0RU6/i7WVaAegv3PtuIHPMs=
 github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51/go.mod h1:CzGEWj7cYgsdH8dAjBGEr58BoE7ScuLd+fwFZ44+/x8=
+github.com/kr/fs v0.1.0/go.mod h1:FFnZGqtBN9Gxj7eW1uZ42v5BccTP0vu6NEaFoC2HwRg=
 github.com/kr/pretty v0.2.1 h1:Fmg33tUaq4/8ym9TJN1x7sLJnHVwhP33CNkpYV/7rwI=
 github.com/kr/pretty v0.2.1/go.mod h1:ipq/a2n7PKx3OHsz4KJII5eveXtPO4qwEXGdVfWzfnI=
 github.com/kr/pty v1.1.1/go.mod h1:pFQYn66WHrOpPYNljwOMqo10TkYh1fy3cYio2l3bCsQ=
@@ -105,6 +107,7 @@ github.com/stretchr/testify v1.8.0/go.mod h1:yNjHg4UonilssWZ8iaSj1OCr/vHnekPRkoO
 github.com/stretchr/testify v1.8.4/go.mod h1:sz/lmYIOXD/1dqDmKjjqLyZ2RngseejIcXlSw2iwfAo=
 github.com/stretchr/testify v1.10.0 h1:Xv5erBjTwe/5IxqUQTdXv5kgmIvbHo3QQyRwhJsOfJA=
 github.com/stretchr/testify v1.10.0/go.mod h1:r2ic/lqez/lEtzL7wO/rwa5dbSLXVDPFyf8C91i36aY=
+github.com/yuin/goldmark v1.4.13/go.mod h1:6yULJ656Px+3vBD8DxQVa3kxgyrAnzto9xy5taEt/CY=
 golang.org/x/exp/typeparams v0.0.0-20220428152302-39d4317da171/go.mod h1:AbB0pIl9nAr9wVwH+Z2ZpaocVmF5I4GyWCDIsVjR0bk=
 golang.org/x/exp/typeparams v0.0.0-20230203172020-98cc5a0785f9/go.mod h1:AbB0pIl9nAr9wVwH+Z2ZpaocVmF5I4GyWCDIsVjR0bk=
 golang.org/x/exp/typeparams v0.0.0-20240213143201-ec583247a57a h1:rrd/FiSCWtI24jk057yBSfEfHrzzjXva1VkDNWRXMag=
-- 
2.43.0


From b7cf330a16440ece699e8f2107e78c2b59b6168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 002/108] fix: a solitary dash that no arg takes is an
 unexpected argument, not a panic

RawParse broke out of the positional loop for any token starting with a dash
and then indexed the second byte of it, so that 'app -' panicked when there
were no args left to take the token.
---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index daf8bb5..225cbd6 100644
--- a/set.go
+++ b/set.go
@@ -235,7 +235,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if allowFlag(arg, state == flagsOrArgs) {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From e5bb565dbcbe98f9c792864d3ee4a7e5ff39fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 003/108] fix: take the value of a short flag after the whole
 character of its alias
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The rest of a cluster of short flags was sliced one byte after the start of
the alias, so that an alias such as "é" got part of itself as its value.
---
 set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 225cbd6..fbd9270 100644
--- a/set.go
+++ b/set.go
@@ -2,6 +2,7 @@ package cli
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // BindingMap contains the occurrences of the values passed to each flag and arg.
@@ -326,7 +327,8 @@ Parsing:
 			}
 
 			_, opt, _, _ := b.LookupOption(flag)
-			value := arg[1+i:]
+			_, size := utf8.DecodeRuneInString(arg[i:])
+			value := arg[i+size:]
 
 			if value != "" {
 				err = instanceTake(value, false, opt)
-- 
2.43.0


From 8c20d82a08f81b70a33d99d8551782576376b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 004/108] fix: apply bindings in a stable order

BindingMap.ApplyTo ranged over a map, so that which of several invalid values
was reported, and what had been set by then, differed from run to run.
---
 set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index fbd9270..becd9a8 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,8 @@
 package cli
 
 import (
+	"maps"
+	"slices"
 	"strings"
 	"unicode/utf8"
 )
@@ -500,7 +502,10 @@ func (m BindingMap) RawOccurrences(name string) []string {
 // ApplyTo uses the given binding to apply the values in the
 // map
 func (m BindingMap) ApplyTo(b Binding) error {
-	for name, v := range m {
+	// Names are sorted so that the outcome does not depend on the iteration
+	// order of the map when more than one value is in error
+	for _, name := range slices.Sorted(maps.Keys(m)) {
+		v := m[name]
 		transform, _, value, ok := b.LookupOption(name)
 		if !ok {
 			continue
-- 
2.43.0


From 4dac649319169109c63314dc2eceae46f56582e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 005/108] fix: split lists on every separator that is not
 escaped

With a backslash anywhere in the text, SplitList produced the rest of the text
as an item for each separator and then its parts again ('a\,b,c,d' gave
"a,b", "c,d", "c", "d"), ignored n, removed backslashes that escape
nothing, and left an escaped separator as it was when there was no other one.
---
 internal/support/support.go | 53 ++++++++++++++++++++++---------------
 value.go                    |  2 +-
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..a17b2b4 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -15,7 +14,7 @@ func ParseMap(values []string) map[string]string {
 
 	var key, value string
 	for _, kvp := range values {
-		k := SplitList(kvp, "=", 2)
+		k := SplitPair(kvp)
 		switch len(k) {
 		case 2:
 			key = k[0]
@@ -30,6 +29,12 @@ func ParseMap(values []string) map[string]string {
 	return res
 }
 
+// SplitPair splits name=value, in which the commas or an equal sign in the name
+// may be escaped
+func SplitPair(s string) []string {
+	return SplitList(strings.ReplaceAll(s, "\\,", ","), "=", 2)
+}
+
 func FormatMap(m map[string]string, delim string) string {
 	items := make([]string, len(m))
 	var i int
@@ -46,28 +51,34 @@ func SplitList(s, sep string, n int) []string {
 	if s == "" {
 		return nil
 	}
-	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
-
-		if len(matches) == 0 {
-			return []string{s}
-		}
-
-		unquote := func(x string) string {
-			return strings.ReplaceAll(x, "\\", "")
-		}
-		res := make([]string, 0)
+	if n != 0 && strings.Contains(s, "\\"+sep) {
+		return splitListEscaped(s, sep, n)
+	}
+	return strings.SplitN(s, sep, n)
+}
 
-		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
+// splitListEscaped splits s as strings.SplitN does, except that a separator which
+// is preceded by a backslash is part of the item. The backslash is removed.
+func splitListEscaped(s, sep string, n int) []string {
+	var (
+		res  []string
+		item strings.Builder
+	)
+	for len(s) > 0 {
+		switch {
+		case strings.HasPrefix(s, "\\"+sep):
+			item.WriteString(sep)
+			s = s[len("\\")+len(sep):]
+		case strings.HasPrefix(s, sep) && (n < 0 || len(res) < n-1):
+			res = append(res, item.String())
+			item.Reset()
+			s = s[len(sep):]
+		default:
+			item.WriteByte(s[0])
+			s = s[1:]
 		}
-		return res
 	}
-	return strings.SplitN(s, sep, n)
+	return append(res, item.String())
 }
 
 func GuessWidth() int {
diff --git a/value.go b/value.go
index 72b88f8..23af2bd 100644
--- a/value.go
+++ b/value.go
@@ -767,7 +767,7 @@ func parseBool(value string) (bool, error) {
 }
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
-	a := SplitList(arg, "=", 2)
+	a := support.SplitPair(arg)
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-- 
2.43.0


From f503c3fd382e21a534c460c9a765b90a1afd737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 006/108] fix: do not panic on an empty name-value pair

splitValuePair indexed the result of splitting an empty or blank text, which
has no items, so that 'app --pair ""' panicked.
---
 value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 23af2bd..214091c 100644
--- a/value.go
+++ b/value.go
@@ -768,7 +768,10 @@ func parseBool(value string) (bool, error) {
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
 	a := support.SplitPair(arg)
-	if len(a) == 1 {
+	switch len(a) {
+	case 0:
+		return "", "true", false
+	case 1:
 		return a[0], "true", false
 	}
 	return a[0], a[1], true
-- 
2.43.0


From bf16b3f10c3f4cea90bffa31b952ecc04078a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 007/108] fix: leave a bool as it was when the text is not
 valid

The other scalar values keep their value when a text is rejected; a bool was
set to false.
---
 value.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/value.go b/value.go
index 214091c..943a78c 100644
--- a/value.go
+++ b/value.go
@@ -350,12 +350,11 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case Value:
 		return p.Set(value)
 	case *bool:
-		var err error
-		*p, err = parseBool(value)
-		if err != nil {
-			return err
+		b, err := parseBool(value)
+		if err == nil {
+			*p = b
 		}
-		return nil
+		return err
 	case *string:
 		s := *p
 		if len(s) > 0 {
-- 
2.43.0


From 9723d3d5d84ad811e2af62c4002168d5b6ac8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 008/108] fix: run the Before and After of a flag once, with
 the command that defines it

---
 context.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index ac1809e..9aa9b1a 100644
--- a/context.go
+++ b/context.go
@@ -1563,13 +1563,9 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Flags defined by ancestor commands are processed by the command that
+		// defines them
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
-- 
2.43.0


From cfb9a51dd5b0e8f00aa71fc7f1ad4a92066a24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 009/108] fix: trigger the Action of a flag once when a
 sub-command executes

---
 context.go | 32 +++++++++++++++++++++++++++++---
 flag.go    |  1 +
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 9aa9b1a..bdcd497 100644
--- a/context.go
+++ b/context.go
@@ -2129,8 +2129,21 @@ func executeUserPipeline(at Timing) actionFunc {
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
-		err := triggerOption(ctx, f)
+	for _, f := range ctx.PersistentFlags() {
+		// The ancestor command already triggered the flag unless
+		// it has been set again since
+		if f.triggered == f.count+1 {
+			continue
+		}
+		err := triggerFlag(ctx, f)
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
+		f.triggered = 0
+		err := triggerFlag(ctx, f)
 		if err != nil {
 			return err
 		}
@@ -2145,13 +2158,26 @@ func triggerOptions(ctx *Context) error {
 	return nil
 }
 
+func triggerFlag(ctx *Context, f *Flag) error {
+	if !shouldTriggerOption(ctx, f) {
+		return nil
+	}
+	err := ctx.newChild(f).executeSelf()
+	f.triggered = f.count + 1
+	return err
+}
+
 func triggerOption(ctx *Context, f option) error {
-	if f.Seen() || hasSeenImplied(f, ctx.target) {
+	if shouldTriggerOption(ctx, f) {
 		return ctx.newChild(f).executeSelf()
 	}
 	return nil
 }
 
+func shouldTriggerOption(ctx *Context, f option) bool {
+	return f.Seen() || hasSeenImplied(f, ctx.target)
+}
+
 func hasSeenImplied(f option, parent target) bool {
 	if f.internalFlags().triggerRequested() {
 		return true
diff --git a/flag.go b/flag.go
index ea4a266..e733191 100644
--- a/flag.go
+++ b/flag.go
@@ -148,6 +148,7 @@ type Flag struct {
 	Transform TransformFunc
 
 	count         int
+	triggered     int // one more than the count when the Action was last triggered
 	optionalValue any // set when blank and optional
 }
 
-- 
2.43.0


From e39c58f2ff0b5d8c5de0a7dd91484003f5c6e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 010/108] fix: provide the false value to the Action of a flag
 that its mirror flag triggers

---
 option.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index f9fa999..4edcbd0 100644
--- a/option.go
+++ b/option.go
@@ -542,7 +542,12 @@ func noOption(c *Context) error {
 		Options:   Hidden,
 		Before: func(c *Context) error {
 			if c.Seen("") {
-				return c.ContextOf(f).Trigger()
+				// The Action of the original flag must see the value, too
+				orig := c.ContextOf(f)
+				if err := orig.SetValue(false); err != nil {
+					return err
+				}
+				return orig.Trigger()
 			}
 			return nil
 		},
-- 
2.43.0


From 02d7ca55c828ebbec73cb63a9381966ac67d6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 011/108] fix: keep the winning value and the count of an
 option whose Action runs for each occurrence

---
 arg.go    | 5 +++++
 flag.go   | 6 ++++++
 option.go | 9 +++++++++
 3 files changed, 20 insertions(+)

diff --git a/arg.go b/arg.go
index 0a6f0d1..2077fb3 100644
--- a/arg.go
+++ b/arg.go
@@ -487,6 +487,11 @@ func (a *Arg) nextOccur() {
 	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
 }
 
+func (a *Arg) restore(v any, count int) {
+	a.Value = v
+	a.count = count
+}
+
 func (a *Arg) reset() {
 	optionReset(a.Value, a.internalFlags())
 }
diff --git a/flag.go b/flag.go
index e733191..4e1a4fd 100644
--- a/flag.go
+++ b/flag.go
@@ -179,6 +179,7 @@ type option interface {
 	setTransform(fn TransformFunc)
 	cloneZero()
 	nextOccur()
+	restore(v any, count int)
 }
 
 type wrapOccurrenceContext struct {
@@ -422,6 +423,11 @@ func (f *Flag) nextOccur() {
 	optionApplyValueConventions(f.Value, f.flags, f.count == 1)
 }
 
+func (f *Flag) restore(v any, count int) {
+	f.Value = v
+	f.count = count
+}
+
 // ShortName gets the short name for the flag including the leading dash.  This is
 // the Name of the flag if it contains exactly one character, or this is the
 // first alias which contains exactly one character.  This is the empty string
diff --git a/option.go b/option.go
index 4edcbd0..d83998f 100644
--- a/option.go
+++ b/option.go
@@ -568,7 +568,15 @@ func eachOccurrenceOpt(c1 *Context) error {
 
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
+
+		// Only the default lookup contains the occurrence; other lookups
+		// use the winning value
+		winning, count := opt.value(), opt.Occurrences()
+		defer opt.restore(winning, count)
+
+		mini.val = winning
 		for i := range mini.numOccurs() {
+			opt.restore(mini.val, count)
 
 			// Create a copy of the value on each occurrence (unless merge semantics
 			// are in place)
@@ -590,6 +598,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 			}
 
 			mini.val = c.option().value()
+			opt.restore(winning, count)
 
 			if err := next.Execute(scope); err != nil {
 				return err
-- 
2.43.0


From 569b703eee22dc431189a5119cd1fc3d27d33dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 012/108] fix: Setup is only too late for the pipelines that it
 sets, and not when it is optional

---
 action.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/action.go b/action.go
index dfb42d6..0332c5e 100644
--- a/action.go
+++ b/action.go
@@ -451,15 +451,19 @@ func (s Setup) Execute(ctx context.Context) error {
 		}
 	}
 	if s.Before != nil {
-		if err := c.Before(ActionOf(s.Before)); err != nil {
+		if err := c.act(s.Before, BeforeTiming, s.Optional); err != nil {
 			return err
 		}
 	}
-	if err := c.Action(ActionOf(s.Action)); err != nil {
-		return err
+	if s.Action != nil {
+		if err := c.act(s.Action, ActionTiming, s.Optional); err != nil {
+			return err
+		}
 	}
-	if err := c.After(ActionOf(s.After)); err != nil {
-		return err
+	if s.After != nil {
+		if err := c.act(s.After, AfterTiming, s.Optional); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f20f7205bb25b884b218b6b5e33796752ab16b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 013/108] fix: do not panic when a Prototype provides data to a
 target that has none

---
 action.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/action.go b/action.go
index 0332c5e..f678638 100644
--- a/action.go
+++ b/action.go
@@ -1523,7 +1523,7 @@ func (p *Prototype) copyToCommand(o *Command) {
 	}
 
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
@@ -1554,7 +1554,7 @@ func (p *Prototype) copyToArg(c *Context) {
 
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 }
 
 func (p *Prototype) copyToFlag(c *Context) {
@@ -1580,7 +1580,7 @@ func (p *Prototype) copyToFlag(c *Context) {
 	o.Aliases = append(o.Aliases, p.Aliases...)
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 }
 
 func (p *Prototype) copyToValue(c *Context) error {
@@ -1826,6 +1826,14 @@ func (w legacyActionWrapper) Execute(ctx context.Context) error {
 	return w.a.Execute(FromContext(ctx))
 }
 
+func mergeData(data, other map[string]any) map[string]any {
+	if data == nil && len(other) > 0 {
+		data = map[string]any{}
+	}
+	maps.Copy(data, other)
+	return data
+}
+
 func setData(data map[string]any, name string, v any) map[string]any {
 	if v == nil {
 		delete(data, name)
-- 
2.43.0


From bfb83dc16b9cd2f738396c1ba9997937125d62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 014/108] fix: report the text of a recovered panic as it is

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index f678638..0538b17 100644
--- a/action.go
+++ b/action.go
@@ -528,7 +528,7 @@ func failWithContextError(c *Context) error {
 	if r, ok := c.LookupData(panicDataKey); ok {
 		rvr := r.(*panicData)
 		fmt.Fprint(c.Stderr, rvr.stack)
-		return c.internalError(fmt.Errorf(rvr.recovered))
+		return c.internalError(errors.New(rvr.recovered))
 	}
 	return nil
 }
-- 
2.43.0


From 927589bf7fbe08d7a3ee881f27eae1b9878fe8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 015/108] fix: a context path does not match a pattern which is
 longer than it is

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index bdcd497..ec3c69c 100644
--- a/context.go
+++ b/context.go
@@ -1483,6 +1483,9 @@ func (cp contextPathPattern) Match(c ContextPath) bool {
 	if len(cp.parts) == 0 {
 		return true
 	}
+	if len(cp.parts) > len(c) {
+		return false
+	}
 	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
 		if !matchField(cp.parts[i], c[j]) {
 			return false
-- 
2.43.0


From 481b5e5f418fa3a34921b2e467bb067c4767672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 016/108] fix: do not try another handler for a command after
 one decided to skip, and pass it the error

---
 command.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 1c955f7..ea564a7 100644
--- a/command.go
+++ b/command.go
@@ -186,8 +186,11 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 				newFn := fn
 				fn = func(c *Context, err1 error) (*Command, error) {
 					cmd, err := newFn(c, err1)
-					if cmd != nil && err == nil {
-						return cmd, nil
+					if (cmd != nil && err == nil) || errors.Is(err, ErrSkipCommand) {
+						return cmd, err
+					}
+					if err == nil {
+						err = err1
 					}
 					return existingFn(c, err)
 				}
-- 
2.43.0


From 449e3f191651c99e543f0629afeded15a2d3d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 017/108] fix: order features by their number of bits
 consistently

---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 66095f3..feccff4 100644
--- a/filter.go
+++ b/filter.go
@@ -139,8 +139,8 @@ func decompose[T ~int, V any](m map[T]V) *bitSet[T, V] {
 		i++
 	}
 	sort.Slice(keys, func(i, j int) bool {
-		if bits.OnesCount(keys[i]) > bits.OnesCount(keys[j]) {
-			return true
+		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
+			return x > y
 		}
 		return keys[i] > keys[j]
 	})
-- 
2.43.0


From 3fe2592b73a2c5868e56bdcb9a76ed56485fea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 018/108] fix: with SkipFlagParsing, treat everything as
 arguments and do not add to them

---
 context.go |  4 ++--
 set.go     | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index ec3c69c..23bfa56 100644
--- a/context.go
+++ b/context.go
@@ -191,11 +191,11 @@ func (c *Context) Execute(args []string) error {
 func (c *Context) parse(args []string) *robustParseResult {
 	root := c.Command()
 	set := root.buildSet(c)
+	flags := root.internalFlags().toRaw() | RawSkipProgramName
 	if root.internalFlags().skipFlagParsing() {
-		args = append([]string{args[0], "--"}, args[1:]...)
+		flags |= rawArgsOnly
 	}
 
-	flags := root.internalFlags().toRaw() | RawSkipProgramName
 	err := set.parse(args, flags)
 	return &robustParseResult{bindings: set.BindingMap, err: err}
 }
diff --git a/set.go b/set.go
index becd9a8..a9c2ab9 100644
--- a/set.go
+++ b/set.go
@@ -58,6 +58,9 @@ const (
 	RawRTL = RawParseFlag(1 << iota)
 	RawDisallowFlagsAfterArgs
 	RawSkipProgramName
+
+	// rawArgsOnly treats every argument as if it is positional, including "--"
+	rawArgsOnly
 )
 
 const (
@@ -151,6 +154,10 @@ func (f RawParseFlag) disallowFlagsAfterArgs() bool {
 	return f&RawDisallowFlagsAfterArgs == RawDisallowFlagsAfterArgs
 }
 
+func (f RawParseFlag) argsOnly() bool {
+	return f&rawArgsOnly == rawArgsOnly
+}
+
 func (f RawParseFlag) skipProgramName() bool {
 	return f&RawSkipProgramName == RawSkipProgramName
 }
@@ -213,6 +220,14 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 		appendOutput = bindings.appendOutput
 	)
 
+	if flags.argsOnly() {
+		// Without any arg, the arguments are parsed manually
+		if len(pos) == 0 {
+			return
+		}
+		state = argsOnly
+	}
+
 	// Skip program name
 	if flags.skipProgramName() {
 		args.pop()
@@ -225,7 +240,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" {
+				if arg == "--" && !flags.argsOnly() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
-- 
2.43.0


From 1bb6979e3c47894e5d04e3d38a238f1ec935a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 019/108] fix: let the last arg that takes everything remaining
 take a --, as sub-commands need

---
 set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index a9c2ab9..e9db10e 100644
--- a/set.go
+++ b/set.go
@@ -240,7 +240,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" && !flags.argsOnly() {
+				if arg == "--" && !flags.argsOnly() && !positionalOpts.takesRemaining() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
@@ -656,6 +656,13 @@ func (a *argBinding) current() ArgCounter {
 	return nil
 }
 
+// takesRemaining detects whether the current arg is the last one and takes
+// everything, even what looks like a flag
+func (a *argBinding) takesRemaining() bool {
+	v, ok := a.current().(*varArgsCounter)
+	return ok && !v.stopOnFlags && a.index == len(a.takers)-1
+}
+
 func (a *argBinding) Done() error {
 	if c := a.current(); c != nil {
 		return c.Done()
-- 
2.43.0


From 17b8b17e6b5de9cd08b009933204545d14cb9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 020/108] fix: let an implicit value overwrite the default
 value of an option without Merge

---
 context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/context.go b/context.go
index 23bfa56..8e6b6f1 100644
--- a/context.go
+++ b/context.go
@@ -921,6 +921,12 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
+
+		// As with the first occurrence, the value used to initialize the option
+		// is a default which is overwritten unless merge semantics are in place
+		if opt := c.option(); opt.Occurrences() == 0 {
+			optionApplyValueConventions(opt.value(), opt.internalFlags(), true)
+		}
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From 4cdc537ef26972e5d8a9d316f542ae7388db7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 021/108] fix: let the values of a string arg overwrite its
 default

---
 arg.go     | 7 ++++++-
 context.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 2077fb3..3f4b71b 100644
--- a/arg.go
+++ b/arg.go
@@ -484,7 +484,12 @@ func (a *Arg) cloneZero() {
 
 func (a *Arg) nextOccur() {
 	a.count++
-	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
+	if a.count == 1 {
+		// The default value is overwritten even when the occurrences merge
+		optionReset(a.Value, a.flags)
+		return
+	}
+	optionApplyValueConventions(a.Value, a.flags, false)
 }
 
 func (a *Arg) restore(v any, count int) {
diff --git a/context.go b/context.go
index 8e6b6f1..69adbe8 100644
--- a/context.go
+++ b/context.go
@@ -925,7 +925,7 @@ func (c *Context) SetValue(arg any) error {
 		// As with the first occurrence, the value used to initialize the option
 		// is a default which is overwritten unless merge semantics are in place
 		if opt := c.option(); opt.Occurrences() == 0 {
-			optionApplyValueConventions(opt.value(), opt.internalFlags(), true)
+			optionReset(opt.value(), opt.internalFlags())
 		}
 	}
 	return c.target.(option).Set(arg)
-- 
2.43.0


From 0b86a00e028595012d2dff3e709ee1285e83902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:10 +0000
Subject: [PATCH 022/108] fix: find values, occurrences and raw values by
 alias, rune, index and reference

---
 context.go | 17 +++++++++++++++--
 set.go     |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 69adbe8..6577337 100644
--- a/context.go
+++ b/context.go
@@ -702,9 +702,16 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 
 	switch f := name.(type) {
 	case rune, string, nil, int, *Arg, *Flag:
-		d := occurs(c.internal, c.nameToString(f))
+		name := c.nameToString(f)
+		if name != "" {
+			if o, ok := c.lookupOption(name); ok {
+				name = o.name()
+			}
+		}
+
+		d := occurs(c.internal, name)
 		if f != "" && len(d) == 0 {
-			return c.Parent().rawCore(c.nameToString(f), occurs)
+			return c.Parent().rawCore(name, occurs)
 		}
 
 		return d
@@ -1794,6 +1801,12 @@ func (c *Context) lookupOption(name any) (option, bool) {
 		o, ok := c.target.(option)
 		return o, ok
 	}
+	switch v := name.(type) {
+	case *Arg, int:
+		return c.LookupArg(v)
+	case *Flag, rune:
+		return c.LookupFlag(v)
+	}
 	if f, ok := c.LookupFlag(name); ok {
 		return f, true
 	}
diff --git a/set.go b/set.go
index e9db10e..234446b 100644
--- a/set.go
+++ b/set.go
@@ -476,6 +476,9 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
+	if actual, ok := s.ResolveAlias(name); ok {
+		name = actual
+	}
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(option).value(), true
 	}
-- 
2.43.0


From 2432d060de59410b37ad7dfb812d478087930491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 023/108] fix: let a flag hide those with the same name in
 outer commands

---
 set.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/set.go b/set.go
index 234446b..98920bd 100644
--- a/set.go
+++ b/set.go
@@ -103,11 +103,16 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 	}
 
 	if parent != nil {
-		for _, f := range parent.Flags() {
+		// A flag hides those with the same name or alias in outer commands
+		inherited := parent.Flags()
+		for i := len(inherited) - 1; i >= 0; i-- {
+			f := inherited[i]
 			if f.internalFlags().nonPersistent() {
 				continue
 			}
-			b.defineFlag(f)
+			if _, hidden := b.names[f.Name]; !hidden {
+				b.defineFlag(f)
+			}
 			f.setInternalFlags(internalFlagPersistent, true)
 		}
 	}
@@ -458,10 +463,12 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 	}
 
 	for _, alias := range f.Aliases {
+		options := b.longOptions
 		if len(alias) == 1 {
-			b.shortOptions[alias] = name
-		} else {
-			b.longOptions[alias] = name
+			options = b.shortOptions
+		}
+		if _, hidden := options[alias]; !hidden {
+			options[alias] = name
 		}
 	}
 	b.names[name] = f
-- 
2.43.0


From 98be31edef464a4fd2197f1a43a1858fb80e9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 024/108] fix: do not report the raw values of a flag that
 another one hides

---
 context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 6577337..d7f5b50 100644
--- a/context.go
+++ b/context.go
@@ -710,7 +710,7 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 		}
 
 		d := occurs(c.internal, name)
-		if f != "" && len(d) == 0 {
+		if f != "" && len(d) == 0 && !c.definesOption(name) {
 			return c.Parent().rawCore(name, occurs)
 		}
 
@@ -721,6 +721,18 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	}
 }
 
+func (c *Context) definesOption(name string) bool {
+	cmd, ok := c.target.(*Command)
+	if !ok {
+		return false
+	}
+	if _, _, found := findFlagByName(cmd.Flags, name); found {
+		return true
+	}
+	_, _, found := findArgByName(cmd.Args, name)
+	return found
+}
+
 // BindingLookup returns the parse data for the context.  Note that this lookup
 // only applies to the current context and does not traverse inherited contexts.
 // Compare Raw and RawOccurrences which perform this for you.
-- 
2.43.0


From d2d31ef9110c06deed70dc201c917d2a46f277f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 025/108] fix: report the raw values of the option that is
 asked for in the context of another one

---
 context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/context.go b/context.go
index d7f5b50..5287dc0 100644
--- a/context.go
+++ b/context.go
@@ -707,6 +707,10 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 			if o, ok := c.lookupOption(name); ok {
 				name = o.name()
 			}
+			// An option only knows about its own values
+			if c.isOption() && c.option().name() != name {
+				return c.Parent().rawCore(name, occurs)
+			}
 		}
 
 		d := occurs(c.internal, name)
-- 
2.43.0


From ab82f970d668403ed716ec474693ef9ac5470c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 026/108] fix: validate the flags of an outer command which are
 given after a sub-command

---
 action.go  |  1 +
 context.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/action.go b/action.go
index 0538b17..dc558f5 100644
--- a/action.go
+++ b/action.go
@@ -332,6 +332,7 @@ var (
 				actionFunc(executeBeforeHooks),
 				executeDeferredPipeline(BeforeTiming),
 				executeUserPipeline(BeforeTiming),
+				ActionFunc(validatePersistentFlags),
 				ActionFunc(triggerBeforeOptions),
 				ActionFunc(triggerBeforeValueTargets),
 			),
diff --git a/context.go b/context.go
index 5287dc0..9e2d856 100644
--- a/context.go
+++ b/context.go
@@ -1615,6 +1615,21 @@ func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	}
 }
 
+// validatePersistentFlags applies the validators of the flags which ancestor
+// commands define and which have been set again by the current command
+func validatePersistentFlags(ctx *Context) error {
+	for _, f := range ctx.PersistentFlags() {
+		if actual, _ := ctx.LookupFlag(f.Name); actual != f || len(ctx.internal.Raw(f.Name)) == 0 {
+			continue
+		}
+		validators := f.uses().Before[actualBeforeIndexValidatorTiming]
+		if err := execute(ctx.newChild(f).setTiming(BeforeTiming), validators); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func triggerValueTargetsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
 		me, _ := ctx.hookable()
-- 
2.43.0


From 9f52cf0e276b0fbf96067cfb1493dda99347681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 027/108] fix: let the initializer of a flag or arg remove
 flags and args

---
 command.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/command.go b/command.go
index ea564a7..a638c69 100644
--- a/command.go
+++ b/command.go
@@ -612,24 +612,17 @@ func (c *Command) contextName() string {
 }
 
 func initializeFlagsArgs(ctx *Context) error {
-	var (
-		flagStart int
-		argStart  int
-		anyFlags  = true
-		anyArgs   = true
-	)
-
 	// New flags and/or args may have been introduced, so allow these to also initialize.
-	// They can ONLY be appended to the slice, not inserted elsewhere
-	for anyFlags || anyArgs {
-		flags := ctx.LocalFlags()[flagStart:]
-		flagStart = len(ctx.LocalFlags())
+	// Likewise, flags and/or args may have been removed.
+	for again := true; again; {
+		again = false
 
-		for _, sub := range flags {
-			if sub.internalFlags().initialized() {
+		for _, sub := range slices.Clone(ctx.LocalFlags()) {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalFlags(), sub) {
 				continue
 			}
 
+			again = true
 			originalName := sub.Name
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
@@ -641,21 +634,18 @@ func initializeFlagsArgs(ctx *Context) error {
 				ctx.newChild(sub).reinitialize()
 			}
 		}
-		anyFlags = len(flags) > 0
 
-		args := ctx.LocalArgs()[argStart:]
-		argStart = len(ctx.LocalArgs())
-
-		for _, sub := range args {
-			if sub.internalFlags().initialized() {
+		for _, sub := range slices.Clone(ctx.LocalArgs()) {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalArgs(), sub) {
 				continue
 			}
+
+			again = true
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
 				return err
 			}
 		}
-		anyArgs = len(args) > 0
 	}
 
 	return nil
-- 
2.43.0


From 171f736e962b10fd22b75debe47ec571b100991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 028/108] fix: a Prototype does nothing when setup has been
 prevented

---
 action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/action.go b/action.go
index dc558f5..6e44964 100644
--- a/action.go
+++ b/action.go
@@ -1479,6 +1479,9 @@ func (t Timing) Describe() string {
 }
 
 func (p Prototype) Execute(ctx context.Context) error {
+	if FromContext(ctx).SkipImplicitSetup() {
+		return nil
+	}
 	return Do(ctx,
 		Pipeline(
 			p.copyCommonToTarget,
-- 
2.43.0


From 5a20b11662f3b7c7651982434dcf79540a6b0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 029/108] fix: sub-commands work when setup has been prevented

---
 command.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index a638c69..ff055d6 100644
--- a/command.go
+++ b/command.go
@@ -356,9 +356,15 @@ func ensureSubcommands(ctx context.Context) error {
 		if cmd.Action == nil {
 			cmd.Action = DisplayHelpScreen()
 		}
+		// Set explicitly because sub-commands work even if setup has been prevented
 		return Do(ctx, AddArg(&Arg{
-			Name: "command",
-			Uses: ExecuteSubcommand(nil),
+			Name:       "command",
+			UsageText:  "<command> [<args>]",
+			Value:      List(),
+			NArg:       -1,
+			Options:    DisableSplitting,
+			Completion: CompletionFunc(completeSubCommand),
+			Uses:       ExecuteSubcommand(nil),
 		}))
 	}
 	return nil
-- 
2.43.0


From ba35dff2a3128514d67cc3d72477136f38c94f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 030/108] fix: complete a command line whose error is not a
 ParseError

---
 command.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index ff055d6..8908bb2 100644
--- a/command.go
+++ b/command.go
@@ -435,7 +435,10 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	}
 
 	if cc.Err != nil {
-		name := cc.Err.(*ParseError).Name
+		var name string
+		if pe, ok := cc.Err.(*ParseError); ok {
+			name = pe.Name
+		}
 
 		if strings.HasPrefix(name, "-") {
 			flag, ok := cmd.Flag(name)
-- 
2.43.0


From 54a56051446098a154d26b7552fe2d0dc1c299fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:20 +0000
Subject: [PATCH 031/108] fix: complete the value of the flag that is named,
 not of one whose name it starts

---
 command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 8908bb2..de850cd 100644
--- a/command.go
+++ b/command.go
@@ -481,7 +481,7 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 	for _, f := range cmd.VisibleFlags() {
 		for _, n := range f.synopsis().Names {
-			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
+			if n == cc.Incomplete || (hasArg && n == flagName) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
 			if strings.HasPrefix(n, cc.Incomplete) {
-- 
2.43.0


From 7343174113288f9dae80421339438f38a2a970c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:22 +0000
Subject: [PATCH 032/108] fix: do not panic on a completion request for a word
 before the first

---
 completion_zsh.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 9615206..6e44fc6 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -55,7 +55,10 @@ func newZshComplete() ShellComplete {
 
 func (*zshComplete) GetCompletionRequest() (args []string, incomplete string) {
 	cwords, _ := Split(os.Getenv("COMP_WORDS"))
-	cword, _ := strconv.Atoi(os.Getenv("COMP_CWORD"))
+	cword, err := strconv.Atoi(os.Getenv("COMP_CWORD"))
+	if err != nil || cword < 0 {
+		return
+	}
 
 	if cword <= len(cwords) {
 		args = cwords[0:cword]
-- 
2.43.0


From 5ffa8fb40c80273e8342ef01665a2cf403bd6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 033/108] fix: serve completion requests of apps with required
 args and flags

---
 completion.go | 6 ++++++
 context.go    | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/completion.go b/completion.go
index 4e1ed3b..89e7ad8 100644
--- a/completion.go
+++ b/completion.go
@@ -245,6 +245,12 @@ func (c *Context) robustParsingMode() bool {
 	return c.flagSetOrAncestor((internalFlags).robustParseModeEnabled)
 }
 
+// completionRequested detects a dynamic shell completion request, which
+// has to be served whether or not the arguments of the app itself are valid
+func (c *Context) completionRequested() bool {
+	return c.robustParsingMode() && c.App() != nil && newCompletionData(c).ShellComplete != nil
+}
+
 func (c *Context) shellCompletes() map[string]ShellComplete {
 	l, ok := c.LookupData(shellCompletesKey)
 	if !ok {
diff --git a/context.go b/context.go
index 9e2d856..e7ccfa1 100644
--- a/context.go
+++ b/context.go
@@ -173,7 +173,7 @@ func (c *Context) Execute(args []string) error {
 		}
 	}
 	res := c.parse(args)
-	if res.err != nil {
+	if res.err != nil && !c.completionRequested() {
 		return res.err
 	}
 
@@ -2265,7 +2265,7 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") {
+		if !c.Seen("") && !c.completionRequested() {
 			return expectedRequiredOption(c.Name())
 		}
 	}
-- 
2.43.0


From 202daba238fa23e1d4c17d3362b7b209d7085222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:28 +0000
Subject: [PATCH 034/108] fix: complete the options of a sub-command rather
 than those of the command that has it

---
 command.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/command.go b/command.go
index de850cd..a538673 100644
--- a/command.go
+++ b/command.go
@@ -417,6 +417,15 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	cmd := c.Target().(*Command)
 	var items []CompletionItem
 
+	if cc.Err == nil && len(cmd.Args) > 0 {
+		// What follows in an arg that takes all remaining values (such as a sub-command)
+		// belongs to it even if it looks like a flag
+		last := cmd.Args[len(cmd.Args)-1]
+		if last.NArg == TakeRemaining && len(cc.Bindings[last.Name]) > 0 {
+			return actualCompletion(last.completion()).Complete(c.newChild(last))
+		}
+	}
+
 	if strings.HasPrefix(cc.Incomplete, "-") {
 		// If a search only finds one match, then complete the flag
 		items = findSolitaryMatch(c)
-- 
2.43.0


From 93f4bdcd584f9cc56e47d119f6492a7e38bb8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 035/108] fix: let the alias of a flag hide flags with that
 name in outer commands

---
 set.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 98920bd..524bc51 100644
--- a/set.go
+++ b/set.go
@@ -19,6 +19,7 @@ type set struct {
 type bindingImpl struct {
 	shortOptions      map[string]string
 	longOptions       map[string]string
+	hiddenNames       map[string]bool // names that an alias in an inner command hides
 	positionalOptions []string
 	names             map[string]option
 }
@@ -95,6 +96,7 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 		names:        map[string]option{},
 		shortOptions: map[string]string{},
 		longOptions:  map[string]string{},
+		hiddenNames:  map[string]bool{},
 
 		positionalOptions: []string{},
 	}
@@ -111,6 +113,9 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 				continue
 			}
 			if _, hidden := b.names[f.Name]; !hidden {
+				if _, hidden := b.resolveAliasOnly(f.Name); hidden {
+					b.hiddenNames[f.Name] = true
+				}
 				b.defineFlag(f)
 			}
 			f.setInternalFlags(internalFlagPersistent, true)
@@ -430,9 +435,13 @@ func (b *bindingImpl) LookupOption(name string) (TransformFunc, ArgCounter, Bind
 }
 
 func (b *bindingImpl) ResolveAlias(name string) (string, bool) {
-	if _, ok := b.names[name]; ok {
+	if _, ok := b.names[name]; ok && !b.hiddenNames[name] {
 		return name, true
 	}
+	return b.resolveAliasOnly(name)
+}
+
+func (b *bindingImpl) resolveAliasOnly(name string) (string, bool) {
 	if len(name) == 1 {
 		if r, ok := b.shortOptions[name]; ok {
 			return r, ok
-- 
2.43.0


From 9930aaa94bdbb9a81d2cad5b46621fdcd1e2dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 036/108] fix: report each arg with an exact count that is
 missing, not only the first

---
 command.go |  4 +++-
 set.go     | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index a538673..e247b81 100644
--- a/command.go
+++ b/command.go
@@ -463,7 +463,9 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		if arg == nil {
 			return nil
 		}
-		return actualCompletion(arg.completion()).Complete(c)
+		if !ok || len(cc.Bindings[arg.Name]) > 0 {
+			return actualCompletion(arg.completion()).Complete(c)
+		}
 	}
 
 	// Request completion of the last argument that was seen
diff --git a/set.go b/set.go
index 524bc51..4cffd4c 100644
--- a/set.go
+++ b/set.go
@@ -185,7 +185,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 	positionalOpts := newArgBinding(b)
 
 	if args.empty() {
-		err = positionalOpts.Done()
+		err = positionalOpts.end()
 		return
 	}
 
@@ -402,7 +402,7 @@ Parsing:
 		}
 	}
 
-	err = positionalOpts.Done()
+	err = positionalOpts.end()
 	return
 }
 
@@ -689,6 +689,19 @@ func (a *argBinding) Done() error {
 	return nil
 }
 
+// end finishes the current arg and each that follows it
+func (a *argBinding) end() error {
+	if err := a.Done(); err != nil {
+		return err
+	}
+	for a.next() {
+		if err := a.Done(); err != nil {
+			return argTakerError("<"+a.name()+">", "", err, nil)
+		}
+	}
+	return nil
+}
+
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
 	for {
 		t := a.current()
-- 
2.43.0


From c2f543fa2d1b0b57ba5458f444d4ea2c44575a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 037/108] fix: separate required flags and show required args
 as such with RightToLeft in the synopsis

---
 internal/synopsis/synopsis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index cf58829..9b1d87e 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -103,7 +103,7 @@ func NewCommand(name string, flags []*Flag, args []*Arg, rtl bool) *Command {
 	var optional []*Arg
 
 	if rtl {
-		var start int
+		start := len(args)
 		for i, p := range args {
 			if p.Optional {
 				start = i
@@ -241,6 +241,7 @@ func (c *Command) WriteTo(sb styleWriter) {
 
 	if flags := c.Flags[Other]; len(flags) > 0 {
 		for _, f := range flags {
+			sb.WriteString(" ")
 			f.primaryWriteTo(sb)
 		}
 	}
-- 
2.43.0


From 51fc79e6b9557897a2b601053775b2f4aaa54f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:39 +0000
Subject: [PATCH 038/108] fix: leave hidden sub-commands and args out of the
 help screen and synopsis

---
 command.go   | 18 ++++++++++++++----
 templates.go |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/command.go b/command.go
index e247b81..c31a814 100644
--- a/command.go
+++ b/command.go
@@ -269,6 +269,11 @@ func (c commandsByCategory) Swap(i, j int) {
 	c[i], c[j] = c[j], c[i]
 }
 
+// VisibleCommands filters all commands in the category by whether they are not hidden
+func (e *commandCategory) VisibleCommands() []*Command {
+	return filterInVisibleCommands(e.Commands)
+}
+
 // Synopsis returns the UsageText for the command or produces a succinct representation
 // that names each flag and arg
 func (c *Command) Synopsis() string {
@@ -321,8 +326,12 @@ func filterInVisibleFlags(flags []*Flag) []*Flag {
 
 // VisibleSubcommands filters all sub-commands in the command by whether they are not hidden
 func (c *Command) VisibleSubcommands() []*Command {
-	res := make([]*Command, 0, len(c.Subcommands))
-	for _, o := range c.Subcommands {
+	return filterInVisibleCommands(c.Subcommands)
+}
+
+func filterInVisibleCommands(cmds []*Command) []*Command {
+	res := make([]*Command, 0, len(cmds))
+	for _, o := range cmds {
 		if o.internalFlags().hidden() {
 			continue
 		}
@@ -518,11 +527,12 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 func (c *Command) newSynopsis() *synopsis.Command {
 	flags := make([]*synopsis.Flag, len(c.Flags))
-	args := make([]*synopsis.Arg, len(c.Args))
+	visible := c.VisibleArgs()
+	args := make([]*synopsis.Arg, len(visible))
 	for i, f := range c.Flags {
 		flags[i] = f.synopsis()
 	}
-	for i, a := range c.Args {
+	for i, a := range visible {
 		args[i] = a.newSynopsis()
 	}
 
diff --git a/templates.go b/templates.go
index 85bbbb6..df384c9 100644
--- a/templates.go
+++ b/templates.go
@@ -274,7 +274,7 @@ func commandAdapter(val *Command) *commandData {
 			for _, a := range items {
 				res = append(res, &commandDataCategory{
 					Category:        a.Category,
-					VisibleCommands: visibleCommands(a.Commands),
+					VisibleCommands: visibleCommands(a.VisibleCommands()),
 				})
 			}
 			return res
-- 
2.43.0


From 9b2743be1a9db81cc40a2e664b991cc7e4f5545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 039/108] fix: use UsageText of commands and HelpText,
 ManualText and UsageText of the app

---
 app.go                        | 3 +++
 command.go                    | 4 +++-
 internal/synopsis/synopsis.go | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index dbc8596..210a1aa 100644
--- a/app.go
+++ b/app.go
@@ -229,6 +229,9 @@ func (a *App) createRoot() *Command {
 				Args:        a.Args,
 				Subcommands: a.Commands,
 				Action:      a.Action,
+				HelpText:    a.HelpText,
+				ManualText:  a.ManualText,
+				UsageText:   a.UsageText,
 				Description: a.Description,
 				Comment:     a.Comment,
 				Data:        a.Data,
diff --git a/command.go b/command.go
index c31a814..4be12cc 100644
--- a/command.go
+++ b/command.go
@@ -536,9 +536,11 @@ func (c *Command) newSynopsis() *synopsis.Command {
 		args[i] = a.newSynopsis()
 	}
 
-	return synopsis.NewCommand(
+	res := synopsis.NewCommand(
 		c.Name, flags, args, c.internalFlags().rightToLeft(),
 	)
+	res.Usage = c.UsageText
+	return res
 }
 
 // SetData sets the specified metadata on the command
diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 9b1d87e..7c4a3dd 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -25,6 +25,7 @@ type argCounterUsage interface {
 
 type Command struct {
 	Name         string
+	Usage        string // replaces the generated synopsis if present
 	Flags        map[OptionGroup][]*Flag
 	Args         []*Arg
 	RequiredArgs []*Arg
@@ -203,6 +204,11 @@ func (v *Value) WriteTo(w styleWriter) {
 }
 
 func (c *Command) WriteTo(sb styleWriter) {
+	if c.Usage != "" {
+		sb.WriteString(c.Usage)
+		return
+	}
+
 	sb.Styled(Bold, c.Name)
 
 	if flags := c.Flags[ActionGroup]; len(flags) > 0 {
-- 
2.43.0


From 96034152ac8df57abff9727d511e4d0e14a57608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 040/108] fix: show and complete the names that flags with
 option No accept

---
 command.go                    |  4 ++--
 completion.go                 |  2 +-
 flag.go                       | 11 +++++------
 internal/synopsis/synopsis.go |  9 +++++----
 option.go                     | 16 ++++++++++++++--
 templates.go                  |  5 ++---
 6 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/command.go b/command.go
index 4be12cc..e3ae2ed 100644
--- a/command.go
+++ b/command.go
@@ -443,7 +443,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		}
 
 		for _, f := range cmd.VisibleFlags() {
-			for _, n := range f.synopsis().Names {
+			for _, n := range f.newSynopsis().Names {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
 				}
@@ -500,7 +500,7 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 	var matchName string
 
 	for _, f := range cmd.VisibleFlags() {
-		for _, n := range f.synopsis().Names {
+		for _, n := range f.newSynopsis().Names {
 			if n == cc.Incomplete || (hasArg && n == flagName) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
diff --git a/completion.go b/completion.go
index 89e7ad8..22e9c42 100644
--- a/completion.go
+++ b/completion.go
@@ -195,7 +195,7 @@ func CompletionValues(values ...string) Completion {
 				}
 				return res
 			}
-			for _, n := range o.synopsis().Names {
+			for _, n := range o.newSynopsis().Names {
 				var prefix string
 				if len(n) == 2 { // as in -s short names
 					prefix = n // Force run-in style, which is most compatible
diff --git a/flag.go b/flag.go
index 4e1a4fd..d73812e 100644
--- a/flag.go
+++ b/flag.go
@@ -220,18 +220,17 @@ func (f *Flag) Synopsis() string {
 	return sprintSynopsis(f.synopsis())
 }
 
-func (f *Flag) cacheSynopsis(syn *synopsis.Flag) *synopsis.Flag {
-	f.SetData(synopsisKey, syn)
-	return syn
-}
-
 func (f *Flag) synopsis() *synopsis.Flag {
 	if f.Data != nil {
 		if a, ok := f.Data[synopsisKey]; ok {
 			return a.(*synopsis.Flag)
 		}
 	}
-	return f.cacheSynopsis(f.newSynopsis())
+	res := f.newSynopsis()
+	if f.internalFlags().mirrored() {
+		res.WithNo()
+	}
+	return res
 }
 
 func (f *Flag) newSynopsis() *synopsis.Flag {
diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 7c4a3dd..1902c45 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -281,10 +281,11 @@ func (f *Flag) primaryWriteTo(sb styleWriter) {
 }
 
 func (f *Flag) WithNo() {
-	_ = f.withLongAndShort(
-		[]string{"[no-]" + f.Long},
-		f.Shorts,
-	)
+	long := "[no-]" + f.Long
+	if f.Long == "" {
+		long = "no-" + f.Short
+	}
+	_ = f.withLongAndShort([]string{long}, f.Shorts)
 }
 
 func (f *Flag) withLongAndShort(long []string, short []rune) *Flag {
diff --git a/option.go b/option.go
index d83998f..ffae0da 100644
--- a/option.go
+++ b/option.go
@@ -222,6 +222,7 @@ const (
 	internalFlagDisableAutoVisibility
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
+	internalFlagMirrored // true for Flag which has the corresponding --no- flag
 )
 
 var (
@@ -333,6 +334,10 @@ func (f internalFlags) hidden() bool {
 	return f&internalFlagHidden == internalFlagHidden
 }
 
+func (f internalFlags) mirrored() bool {
+	return f&internalFlagMirrored == internalFlagMirrored
+}
+
 func (f internalFlags) required() bool {
 	return f&internalFlagRequired == internalFlagRequired
 }
@@ -530,13 +535,20 @@ func unsetInternalFlag(f internalFlags) ActionFunc {
 func noOption(c *Context) error {
 	f := c.Flag()
 
-	syn := f.synopsis()
-	syn.WithNo()
+	f.setInternalFlags(internalFlagMirrored, true)
+
+	var aliases []string
+	for _, a := range f.Aliases {
+		if len(a) > 1 {
+			aliases = append(aliases, "no-"+a)
+		}
+	}
 
 	return Do(c, AddFlag(&Flag{
 		HelpText:  f.HelpText,
 		UsageText: f.UsageText,
 		Name:      "no-" + f.Name,
+		Aliases:   aliases,
 		Category:  f.Category,
 		Value:     Bool(),
 		Options:   Hidden,
diff --git a/templates.go b/templates.go
index df384c9..12b406f 100644
--- a/templates.go
+++ b/templates.go
@@ -307,13 +307,12 @@ func renderHelp(us *synopsis.Usage) string {
 }
 
 func flagAdapter(val *Flag) *flagData {
-	syn := val.newSynopsis()
 	return &flagData{
 		Name:        val.Name,
-		HelpText:    renderHelp(syn.Value.Usage),
+		HelpText:    renderHelp(val.newSynopsis().Value.Usage),
 		ManualText:  val.ManualText,
 		Description: val.Description,
-		Synopsis:    wrapSynopsis(syn),
+		Synopsis:    wrapSynopsis(val.synopsis()),
 		Data:        val.Data,
 	}
 }
-- 
2.43.0


From 9142f6a9ac8deeeb2231bb2c6f26ce1d632e0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 041/108] fix: name flags of undocumented categories as they
 are used on the help screen

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 12b406f..b27a904 100644
--- a/templates.go
+++ b/templates.go
@@ -223,7 +223,7 @@ func (c *commandData) withLineage(lineage string, persistent []*Flag) *commandDa
 func (e flagDataList) Names() []string {
 	res := make([]string, 0, len(e))
 	for _, x := range e {
-		res = append(res, "-"+x.Name)
+		res = append(res, optionName(x.Name))
 	}
 	return res
 }
-- 
2.43.0


From bf9d1628e7d4336d92bc1b3a10117e9c44e86513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 042/108] fix: keep placeholders of the help text in order

---
 internal/synopsis/placeholder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/synopsis/placeholder.go b/internal/synopsis/placeholder.go
index 8c0954e..fb2ffd9 100644
--- a/internal/synopsis/placeholder.go
+++ b/internal/synopsis/placeholder.go
@@ -131,7 +131,7 @@ func (u *Usage) placeholders() []*placeholderExpr {
 			}
 		}
 	}
-	sort.Sort(res)
+	sort.Stable(res)
 	return res
 }
 
-- 
2.43.0


From 2e0673d660b1480b05a5df58e22e001bdae8407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 043/108] fix: omit the heading of sub-commands if all are
 hidden

---
 templates.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index b27a904..3267e74 100644
--- a/templates.go
+++ b/templates.go
@@ -272,9 +272,13 @@ func commandAdapter(val *Command) *commandData {
 		visibleCategories = func(items commandsByCategory) []*commandDataCategory {
 			res := make([]*commandDataCategory, 0, len(items))
 			for _, a := range items {
+				visible := a.VisibleCommands()
+				if len(visible) == 0 {
+					continue
+				}
 				res = append(res, &commandDataCategory{
 					Category:        a.Category,
-					VisibleCommands: visibleCommands(a.VisibleCommands()),
+					VisibleCommands: visibleCommands(visible),
 				})
 			}
 			return res
-- 
2.43.0


From 5244eb34649aafd456c91fee80992019403fb155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 044/108] fix: show required args as such in the synopsis

---
 arg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 3f4b71b..c3c22ea 100644
--- a/arg.go
+++ b/arg.go
@@ -339,7 +339,11 @@ func (a *Arg) Synopsis() string {
 
 func (a *Arg) newSynopsis() *synopsis.Arg {
 	defaultUsage := fmt.Sprintf("<%s>", a.Name)
-	return synopsis.NewArg(cmp.Or(a.UsageText, defaultUsage), a.NArg)
+	res := synopsis.NewArg(cmp.Or(a.UsageText, defaultUsage), a.NArg)
+	if a.internalFlags().required() {
+		res.Optional = false
+	}
+	return res
 }
 
 func (a *Arg) name() string {
-- 
2.43.0


From 9c8596899ffbc37a337b853844358a22040b56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 045/108] fix: keep the space in front of a word that is
 wrapped

---
 usage.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/usage.go b/usage.go
index cd66d46..e214e1f 100644
--- a/usage.go
+++ b/usage.go
@@ -405,6 +405,14 @@ func (w *wrapper) Write(b []byte) (int, error) {
 			}
 			return
 		}
+
+		// space or indent in front of a word which did not fit
+		flushPending = func() {
+			if buf.Len() > 0 {
+				lineLen += w.pending.Len()
+				w.pending.WriteTo(w.Writer)
+			}
+		}
 	)
 
 	for _, c := range s {
@@ -436,6 +444,7 @@ func (w *wrapper) Write(b []byte) (int, error) {
 				break
 			}
 
+			flushPending()
 			if tryWrite(&buf, bufLen) {
 				w.pending.WriteRune(c)
 				break
@@ -444,6 +453,7 @@ func (w *wrapper) Write(b []byte) (int, error) {
 			fallthrough
 
 		case c == '\n':
+			flushPending()
 			lineLen = 0
 			buf.WriteTo(w.Writer)
 			buf.Reset()
-- 
2.43.0


From af1e27849118b5077d0287ac89c63b324a8b96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 046/108] fix: reject malformed byte lengths

---
 value/value.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/value/value.go b/value/value.go
index d2ef4ea..773be4a 100644
--- a/value/value.go
+++ b/value/value.go
@@ -42,7 +42,7 @@ func JSON(v any) flag.Getter {
 }
 
 var (
-	byteLengthPat = regexp.MustCompile(`([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B`)
+	byteLengthPat = regexp.MustCompile(`^([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B$`)
 	magnitude     = map[string]int{
 		"":  0,
 		"k": 1,
@@ -74,7 +74,10 @@ func ParseByteLength(s string) (int, error) {
 		return strconv.Atoi(string(sub[1]))
 	}
 
-	num, _ := strconv.ParseFloat(string(sub[1]), 64)
+	num, err := strconv.ParseFloat(string(sub[1]), 64)
+	if err != nil {
+		return -1, fmt.Errorf("invalid byte length")
+	}
 	var base float64 = 1000
 	if strings.HasSuffix(string(sub[2]), "i") {
 		base = 1024
-- 
2.43.0


From f254d6105971009da440e6cd58abb43debee9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 047/108] fix: text of combined filter modes

---
 filter.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/filter.go b/filter.go
index feccff4..67c389b 100644
--- a/filter.go
+++ b/filter.go
@@ -96,9 +96,10 @@ func (f FilterModes) Matches(ctx context.Context) bool {
 	return true
 }
 
-// String produces a textual representation of the timing
+// String produces a textual representation of the filter modes.  Modes which are
+// combined are separated by commas.
 func (f FilterModes) String() string {
-	return filterModeLabels[f][1]
+	return f.join(1)
 }
 
 // MarshalText provides the textual representation
@@ -108,19 +109,32 @@ func (f FilterModes) MarshalText() ([]byte, error) {
 
 // UnmarshalText converts the textual representation
 func (f *FilterModes) UnmarshalText(b []byte) error {
-	token := strings.TrimSpace(string(b))
-	for k, y := range filterModeLabels {
-		if token == y[1] {
-			*f = k
-			return nil
+	var res FilterModes
+	for _, s := range strings.Split(string(b), ",") {
+		token := strings.TrimSpace(s)
+		for k, y := range filterModeLabels {
+			if token == y[1] {
+				res |= k
+			}
 		}
 	}
+	if res != 0 {
+		*f = res
+	}
 	return nil
 }
 
-// Describe produces a representation of the timing suitable for use in messages
+// Describe produces a representation of the filter modes suitable for use in messages
 func (f FilterModes) Describe() string {
-	return filterModeLabels[f][0]
+	return f.join(0)
+}
+
+func (f FilterModes) join(index int) string {
+	var res []string
+	for _, label := range decompose(filterModeLabels).items(f) {
+		res = append(res, label[index])
+	}
+	return strings.Join(res, ", ")
 }
 
 func (f ContextFilterFunc) Matches(c context.Context) bool {
-- 
2.43.0


From c30fa83caf4ff3ca3ee919d4b32db8ec5d727e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 048/108] fix: args of expression operators are not flags

---
 extensions/expr/expr.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 21021ed..e513b07 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -179,6 +179,12 @@ type exprSet struct {
 	cli.BindingMap
 }
 
+// exprArgs is the binding used to parse the arguments of an operator.  A token
+// that starts with a dash is never the name of one of the arguments
+type exprArgs struct {
+	cli.Binding
+}
+
 const (
 	exprFlagHidden = exprFlags(1 << iota)
 	exprFlagRightToLeft
@@ -788,7 +794,7 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		// use of the expression operator.
 		boundExpr := newBoundExpr(expr)
 		results = append(results, boundExpr)
-		bin, err := cli.RawParse(args, boundExpr.exprSet, boundExpr.expr.internalFlags().toRaw())
+		bin, err := cli.RawParse(args, exprArgs{boundExpr.exprSet}, boundExpr.expr.internalFlags().toRaw())
 
 		var pe *cli.ParseError
 		if err != nil {
@@ -822,6 +828,10 @@ func (b *exprBinding) Expr() *Expr {
 	return b.expr
 }
 
+func (exprArgs) ResolveAlias(string) (string, bool) {
+	return "", false
+}
+
 func (s *exprSet) lookupValue(name string) (any, bool) {
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(*cli.Arg).Value, true
-- 
2.43.0


From 288e20c292ec32ffa9c6d6d97e7175af75c621dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:13 +0000
Subject: [PATCH 049/108] fix: expression operators start with a dash

---
 extensions/expr/expr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index e513b07..eb89c8b 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -785,7 +785,12 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		arg := args[0]
 		args = args[1:]
 
-		expr, ok := exprs[arg[1:]]
+		name, isExpr := strings.CutPrefix(arg, "-")
+		if !isExpr {
+			return nil, nil, argsMustPrecedeExprs(arg)
+		}
+
+		expr, ok := exprs[name]
 		if !ok {
 			return nil, nil, unknownExpr(arg)
 		}
-- 
2.43.0


From 410254ab46fe59076eb4af394d14c695486045a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:32 +0000
Subject: [PATCH 050/108] fix: missing args of an expression operator that is
 followed by another

---
 extensions/expr/expr.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index eb89c8b..e759d51 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -803,14 +803,23 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 
 		var pe *cli.ParseError
 		if err != nil {
-			pe = err.(*cli.ParseError)
-			args = pe.Remaining
+			if !errors.As(err, &pe) {
+				return nil, nil, err
+			}
 
 			switch pe.Code {
+			case cli.UnknownOption:
+				// This is where the next operator starts, but the arguments
+				// before it must be complete
+				own := args[:len(args)-len(pe.Remaining)]
+				if _, err := cli.RawParse(own, exprArgs{boundExpr.exprSet}, boundExpr.expr.internalFlags().toRaw()); err != nil {
+					return nil, nil, err
+				}
+				args = pe.Remaining
 			case cli.UnexpectedArgument:
-				return nil, nil, argsMustPrecedeExprs(args[0])
-			case cli.ExpectedArgument:
-				return nil, nil, pe
+				return nil, nil, argsMustPrecedeExprs(pe.Remaining[0])
+			default:
+				return nil, nil, err
 			}
 		}
 
-- 
2.43.0


From 7a15337df4458c9fce0faa0110e2cd01abdbf98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:07 +0000
Subject: [PATCH 051/108] fix: values of the args of expression operators used
 more than once

---
 extensions/expr/expr.go | 100 +++++++++++++++++++++++++++++++++-------
 1 file changed, 84 insertions(+), 16 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index e759d51..e8096dc 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"iter"
+	"reflect"
 	"regexp"
 	"slices"
 	"sort"
@@ -165,6 +166,14 @@ type Yielder func(any) error
 type boundExpr struct {
 	*exprSet
 	expr *Expr
+
+	// defaults restores the values which the args had before the first use
+	// of the operator.  It is indexed like the args.
+	defaults []func()
+
+	// shared is whether the operator (and therefore the values of its args) is
+	// used more than once
+	shared bool
 }
 
 type exprBinding struct {
@@ -197,12 +206,45 @@ var (
 
 func newBoundExpr(e *Expr) *boundExpr {
 	set := newExprSet(cli.NewBinding(nil, e.Args, nil), nil)
+	defaults := make([]func(), len(e.Args))
+	for i, a := range e.Args {
+		defaults[i] = saveValue(a.Value)
+	}
 	return &boundExpr{
-		expr:    e,
-		exprSet: set,
+		expr:     e,
+		exprSet:  set,
+		defaults: defaults,
+	}
+}
+
+// saveValue copies what the pointer refers to and provides a function to restore it.
+// Structs are left alone: they decide themselves whether they are reset
+func saveValue(p any) func() {
+	v := reflect.ValueOf(p)
+	if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() == reflect.Struct {
+		return func() {}
+	}
+	saved := reflect.New(v.Type().Elem()).Elem()
+	saved.Set(cloneValue(v.Elem()))
+	return func() {
+		v.Elem().Set(cloneValue(saved))
 	}
 }
 
+func cloneValue(v reflect.Value) reflect.Value {
+	switch {
+	case v.Kind() == reflect.Slice && !v.IsNil():
+		return reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()), v)
+	case v.Kind() == reflect.Map && !v.IsNil():
+		c := reflect.MakeMapWithSize(v.Type(), v.Len())
+		for iter := v.MapRange(); iter.Next(); {
+			c.SetMapIndex(iter.Key(), iter.Value())
+		}
+		return c
+	}
+	return v
+}
+
 func newExprSet(b cli.Binding, all cli.BindingMap) *exprSet {
 	result := &exprSet{
 		BindingMap: all,
@@ -263,10 +305,8 @@ func (e *Expression) Initializer() cli.Action {
 		for _, eb := range e.items {
 			// For the expression bindings participating in the
 			// pipeline, apply the binding result data. These
-			tryResetIfSupported(eb)
-
 			if known, ok := eb.(*boundExpr); ok {
-				err = known.BindingMap().ApplyTo(known.exprSet)
+				err = known.apply()
 				if err != nil {
 					return
 				}
@@ -664,25 +704,46 @@ func (b *boundExpr) BindingMap() cli.BindingMap {
 }
 
 func (b *boundExpr) Reset() {
+	for _, restore := range b.defaults {
+		restore()
+	}
 	b.exprSet.Binding.Reset()
+
+	// Only what is about to be set starts empty, the others keep their default
+	for i, name := range b.PositionalArgNames() {
+		if _, ok := b.exprSet.BindingMap[name]; !ok && i < len(b.defaults) {
+			b.defaults[i]()
+		}
+	}
+}
+
+// apply sets the args to the values of this use of the operator
+func (b *boundExpr) apply() error {
+	b.Reset()
+	return b.BindingMap().ApplyTo(b.exprSet)
 }
 
 func (b *boundExpr) Evaluate(c context.Context, v any, yield func(any) error) error {
 	ctx := cli.FromContext(c).ValueContextOf(b.Expr().Name, b)
-	tryResetIfSupported(b)
 
-	err := b.BindingMap().ApplyTo(b.exprSet)
+	err := b.apply()
 	if err != nil {
 		return err
 	}
 
-	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, yield)
-}
-
-func tryResetIfSupported(v any) {
-	if r, ok := v.(interface{ Reset() }); ok {
-		r.Reset()
+	if b.shared {
+		// Other uses of the operator could have set the args in the meantime
+		next := yield
+		yield = func(v any) error {
+			err := next(v)
+			if applyErr := b.apply(); err == nil {
+				err = applyErr
+			}
+			return err
+		}
 	}
+
+	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, yield)
 }
 
 func (e *Expression) Set(arg string) error {
@@ -780,6 +841,7 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 	}
 
 	results := make([]Binding, 0)
+	bound := map[*Expr][]*boundExpr{}
 	all := cli.BindingMap{}
 	for len(args) > 0 {
 		arg := args[0]
@@ -799,6 +861,7 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		// use of the expression operator.
 		boundExpr := newBoundExpr(expr)
 		results = append(results, boundExpr)
+		bound[expr] = append(bound[expr], boundExpr)
 		bin, err := cli.RawParse(args, exprArgs{boundExpr.exprSet}, boundExpr.expr.internalFlags().toRaw())
 
 		var pe *cli.ParseError
@@ -811,11 +874,11 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 			case cli.UnknownOption:
 				// This is where the next operator starts, but the arguments
 				// before it must be complete
-				own := args[:len(args)-len(pe.Remaining)]
-				if _, err := cli.RawParse(own, exprArgs{boundExpr.exprSet}, boundExpr.expr.internalFlags().toRaw()); err != nil {
+				own := len(args) - len(pe.Remaining)
+				if _, err := cli.RawParse(args[:own], exprArgs{boundExpr.exprSet}, boundExpr.expr.internalFlags().toRaw()); err != nil {
 					return nil, nil, err
 				}
-				args = pe.Remaining
+				args = args[own:]
 			case cli.UnexpectedArgument:
 				return nil, nil, argsMustPrecedeExprs(pe.Remaining[0])
 			default:
@@ -835,6 +898,11 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 			break
 		}
 	}
+	for _, uses := range bound {
+		for _, b := range uses {
+			b.shared = len(uses) > 1
+		}
+	}
 	return results, all, nil
 }
 
-- 
2.43.0


From 96bbcd720673234149285782c1e75236af207ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:22 +0000
Subject: [PATCH 052/108] fix: help screen with undocumented categories of
 expression operators

---
 extensions/expr/templates.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/extensions/expr/templates.go b/extensions/expr/templates.go
index 4b0c5e8..e00f8ee 100644
--- a/extensions/expr/templates.go
+++ b/extensions/expr/templates.go
@@ -18,11 +18,22 @@ type exprData struct {
 type exprDataCategory struct {
 	Undocumented bool
 	Category     string
-	VisibleExprs []*exprData
+	VisibleExprs exprDataList
+}
+
+type exprDataList []*exprData
+
+// Names gets the names of all of the operators as they are written in an expression
+func (e exprDataList) Names() []string {
+	res := make([]string, 0, len(e))
+	for _, x := range e {
+		res = append(res, x.Synopsis.s.Names...)
+	}
+	return res
 }
 
 type exprDescriptionData struct {
-	VisibleExprs    []*exprData
+	VisibleExprs    exprDataList
 	ExprsByCategory []*exprDataCategory
 }
 
@@ -55,8 +66,8 @@ func exprAdapter(val *Expr) *exprData {
 func exprDescription(e *Expression) *exprDescriptionData {
 	exprs := e.VisibleExprs()
 	var (
-		visibleExprs = func(items []*Expr) []*exprData {
-			res := make([]*exprData, 0, len(items))
+		visibleExprs = func(items []*Expr) exprDataList {
+			res := make(exprDataList, 0, len(items))
 			for _, a := range items {
 				res = append(res, exprAdapter(a))
 			}
-- 
2.43.0


From 3c49765697bd1b54b5268bd4919af7e741ed9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 053/108] fix: every occurrence of a provider argument flag
 counts

---
 extensions/provider/provider.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 5c45806..84207f9 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -184,8 +184,9 @@ func validFactory(fn any) bool {
 // ArgumentFlag obtains a conventions-based flag for setting an argument
 func (v *Value) ArgumentFlag() cli.Prototype {
 	return cli.Prototype{
-		Name:  "arg",
-		Value: new(string),
+		Name:    "arg",
+		Value:   new(string),
+		Options: cli.EachOccurrence,
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
 				cli.Bind(v.Set),
@@ -223,6 +224,7 @@ func SetArgument(name string) cli.Action {
 	return cli.Prototype{
 		Name:     name + "-arg",
 		Value:    new(string),
+		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
 			Action: cli.BindIndirect(name, (*Value).Set),
-- 
2.43.0


From c21ee8b2f50d2fa580164085e504a1feaa606547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 054/108] fix: a provider argument does not replace the name of
 the provider

---
 extensions/provider/provider.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 84207f9..1d074e8 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -189,7 +189,7 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Options: cli.EachOccurrence,
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
-				cli.Bind(v.Set),
+				cli.Bind(v.setArgument),
 				func(c *cli.Context) {
 					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
 				},
@@ -227,7 +227,7 @@ func SetArgument(name string) cli.Action {
 		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Action: cli.BindIndirect(name, (*Value).Set),
+			Action: cli.BindIndirect(name, (*Value).setArgument),
 		},
 	}
 }
@@ -283,6 +283,13 @@ func (v *Value) Set(arg string) error {
 		}
 		arg = args[1]
 	}
+	return v.setArgument(arg)
+}
+
+func (v *Value) setArgument(arg string) error {
+	if v.Args == nil {
+		v.Args = &map[string]string{}
+	}
 
 	var args []string
 	if v.disableSplitting {
-- 
2.43.0


From 606404e98cbb4bf6401d1f36e904f1fbd121e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:57 +0000
Subject: [PATCH 055/108] fix: timing of the context in EachOccurrence actions
 and in other targets

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index e7ccfa1..e1822d0 100644
--- a/context.go
+++ b/context.go
@@ -1685,6 +1685,7 @@ func (c *Context) internalError(err error) error {
 func (c *Context) copy(newTarget target, t internalContext) *Context {
 	return &Context{
 		ref:        c.ref,
+		timing:     c.timing,
 		Stdin:      c.Stdin,
 		Stdout:     c.Stdout,
 		Stderr:     c.Stderr,
-- 
2.43.0


From 2fec461125afc90cb67e15d0f69be1be5d703753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 056/108] fix: arguments given by a separate flag are validated
 against the provider

---
 extensions/provider/provider.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 1d074e8..77310db 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -190,8 +190,12 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
 				cli.Bind(v.setArgument),
-				func(c *cli.Context) {
-					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
+				func(c *cli.Context) error {
+					name := fmt.Sprint(c.Data()["DependentFlag"])
+					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", name))
+					return c.Action(cli.ActionOf(func(c *cli.Context) error {
+						return validateProvider(c, v, name)
+					}))
 				},
 			),
 		},
@@ -227,7 +231,12 @@ func SetArgument(name string) cli.Action {
 		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Action: cli.BindIndirect(name, (*Value).setArgument),
+			Action: cli.Pipeline(
+				cli.BindIndirect(name, (*Value).setArgument),
+				func(c *cli.Context) error {
+					return validateProvider(c, c.Value(name).(*Value), name)
+				},
+			),
 		},
 	}
 }
@@ -325,8 +334,10 @@ func (v *Value) Initializer() cli.Action {
 }
 
 func validateProviderExists(c *cli.Context) error {
-	v := c.Value("").(*Value)
-	provider := strings.TrimLeft(c.Name(), "-")
+	return validateProvider(c, c.Value("").(*Value), strings.TrimLeft(c.Name(), "-"))
+}
+
+func validateProvider(c *cli.Context, v *Value, provider string) error {
 	registry := Services(c).Registry(provider)
 	if registry == nil {
 		return nil
@@ -334,6 +345,9 @@ func validateProviderExists(c *cli.Context) error {
 	if registry.AllowUnknown {
 		return nil
 	}
+	if v.Name == "" && !v.setName {
+		return nil
+	}
 	pro, exists := registry.LookupProvider(v.Name)
 	p := pro.Defaults
 	if !exists {
-- 
2.43.0


From 2e27828c2626d86d0ad34dc3e761f3fa9e9242ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 057/108] fix: instances of providers without a factory

---
 extensions/provider/provider.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 77310db..d8431ff 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -381,6 +381,12 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 	if !ok {
 		return nil, fmt.Errorf("provider not found: %q", name)
 	}
+	if fac == nil {
+		if pro.Value == nil {
+			return nil, fmt.Errorf("provider cannot be created: %q", name)
+		}
+		return pro.Value, nil
+	}
 	return fac(mergedOpts)
 }
 
-- 
2.43.0


From 75ef3182e3df807bfe3c6b62968093aaaea351bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:13 +0000
Subject: [PATCH 058/108] fix: text of provider values

---
 extensions/provider/provider.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index d8431ff..bf10bc7 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -316,10 +316,17 @@ func (v *Value) String() string {
 	var buf bytes.Buffer
 	buf.WriteString(v.Name)
 
-	switch val := v.Args.(type) {
+	args := v.Args
+	if m, ok := args.(*map[string]string); ok {
+		args = *m
+	}
+	switch val := args.(type) {
+	case nil:
 	case map[string]string:
-		buf.WriteString(",")
-		buf.WriteString(support.FormatMap(val, ","))
+		if len(val) > 0 {
+			buf.WriteString(",")
+			buf.WriteString(support.FormatMap(val, ","))
+		}
 	default:
 		buf.WriteString(",")
 		buf.WriteString(fmt.Sprint(val))
-- 
2.43.0


From 756ee24aaa638ae8f04cc054910bcf550979bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:23 +0000
Subject: [PATCH 059/108] fix: opening a file without a display

---
 extensions/exec/open.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/exec/open.go b/extensions/exec/open.go
index 135a4f9..ae548cd 100644
--- a/extensions/exec/open.go
+++ b/extensions/exec/open.go
@@ -3,6 +3,7 @@
 package exec
 
 import (
+	"errors"
 	"os"
 	"os/exec"
 )
@@ -12,5 +13,5 @@ func openUsingApp(input, app string) (*exec.Cmd, error) {
 		return exec.Command("xdg-open", input), nil
 	}
 
-	return nil, nil
+	return nil, errors.New("no display to open files with")
 }
-- 
2.43.0


From 4b6c70236d301351ae502164f28153a444851fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 060/108] fix: additional structure options keep the default
 ones

---
 extensions/structure/structure.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index 99602f4..bac32de 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -75,6 +75,9 @@ func Decode(input, output any, opts ...DecoderOption) error {
 
 // WithOptions applies additional options.
 func (v *Value) WithOptions(options ...DecoderOption) *Value {
+	if v.Options == nil {
+		v.Options = viableOptions()
+	}
 	v.Options = append(v.Options, options...)
 	return v
 }
-- 
2.43.0


From 0b61aa345dce6776df764a6f34c07ba5e392964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:43 +0000
Subject: [PATCH 061/108] fix: structure fields that are custom values

---
 extensions/structure/structure.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index bac32de..db7aec3 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -149,13 +149,24 @@ func valueHook(from, to reflect.Value) (any, error) {
 		return from.Interface(), nil
 	}
 
-	if !to.Type().Implements(valueType) {
+	result := to
+	switch {
+	case to.Type().Implements(valueType):
+		if to.Kind() == reflect.Interface && to.IsNil() {
+			return from.Interface(), nil
+		}
+		if to.Kind() == reflect.Pointer && to.IsNil() {
+			result = reflect.New(to.Type().Elem())
+		}
+	case to.CanAddr() && reflect.PointerTo(to.Type()).Implements(valueType):
+		// Pointers to structs are dereferenced by the decoder
+		result = to.Addr()
+	default:
 		return from.Interface(), nil
 	}
 
-	result := to.Interface()
-	err := result.(cli.Value).Set(from.String())
-	return result, err
+	err := result.Interface().(cli.Value).Set(from.String())
+	return result.Interface(), err
 }
 
 var _ flag.Value = (*Value)(nil)
-- 
2.43.0


From f803c0570239932057cdb7ac3c81112fdaa4342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 062/108] fix: lists in structures do not keep the tail of the
 previous value

---
 extensions/structure/structure.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index db7aec3..bdb4d13 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -127,6 +127,7 @@ func viableOptions() []DecoderOption {
 				mapstructure.StringToIPHookFunc(),
 				mapstructure.StringToIPNetHookFunc(),
 				mapstructure.StringToSliceHookFunc(","),
+				mapstructure.DecodeHookFunc(sliceHook),
 				mapstructure.StringToTimeDurationHookFunc(),
 				mapstructure.DecodeHookFunc(urlHook),
 				mapstructure.DecodeHookFunc(valueHook),
@@ -144,6 +145,15 @@ func urlHook(from, to reflect.Type, data any) (any, error) {
 	return url.Parse(data.(string))
 }
 
+// sliceHook clears the existing slice, the tail of which would be
+// kept by the decoder
+func sliceHook(from, to reflect.Value) (any, error) {
+	if to.Kind() == reflect.Slice && to.CanSet() && !reflect.PointerTo(to.Type()).Implements(valueType) {
+		to.SetZero()
+	}
+	return from.Interface(), nil
+}
+
 func valueHook(from, to reflect.Value) (any, error) {
 	if from.Kind() != reflect.String {
 		return from.Interface(), nil
-- 
2.43.0


From dd221d1d52c9832310578c8da73cfb28d91dea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:12 +0000
Subject: [PATCH 063/108] fix: structure fields with an existing URL

---
 extensions/structure/structure.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index bdb4d13..a1b8ada 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -139,7 +139,8 @@ func viableOptions() []DecoderOption {
 }
 
 func urlHook(from, to reflect.Type, data any) (any, error) {
-	if from.Kind() != reflect.String || to != urlType {
+	// Pointers to structs which are not nil are dereferenced by the decoder
+	if from.Kind() != reflect.String || (to != urlType && to != urlType.Elem()) {
 		return data, nil
 	}
 	return url.Parse(data.(string))
-- 
2.43.0


From b9bc32be7094b97c36367d8f8b6f727461a87997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 064/108] fix: skip nil generators of directories

---
 extensions/template/context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 1194756..a4ea0e3 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -38,6 +38,9 @@ var (
 
 func (c *OutputContext) Do(ctx context.Context, gens ...Generator) error {
 	for _, g := range gens {
+		if g == nil {
+			continue
+		}
 		err := g.Generate(ctx, c)
 		if err != nil {
 			return err
-- 
2.43.0


From 77160a54375e24b71957749b0dd238c4b505c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 065/108] fix: data of file templates

---
 extensions/template/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/template/template.go b/extensions/template/template.go
index 6da5b9c..e61f3a0 100644
--- a/extensions/template/template.go
+++ b/extensions/template/template.go
@@ -155,8 +155,8 @@ func someData(namevalues ...any) Generator {
 
 	res := make([]Generator, 0, len(namevalues)/2)
 	for i := 0; i < len(namevalues); i += 2 {
-		name := namevalues[0].(string)
-		value := namevalues[0]
+		name := namevalues[i].(string)
+		value := namevalues[i+1]
 		res = append(res, Data(name, value))
 	}
 
-- 
2.43.0


From 7fd33a74581d170091afb1acddf02912fe0eb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 066/108] fix: paths of files generated in directories

---
 extensions/template/context.go | 10 +++++-----
 extensions/template/file.go    |  7 +++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index a4ea0e3..daca061 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -125,7 +125,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 	}
 
 	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(c.File(name))
+		f, err := c.actualFS().Open(name)
 		if err != nil {
 			return nil, nil
 		}
@@ -236,20 +236,20 @@ func (c *OutputContext) Rename(oldpath, newpath string) error {
 }
 
 func (c *OutputContext) pathEnsure(name string) (string, error) {
-	name = c.expandName(name)
 	if strings.HasPrefix(name, "/") {
-		return name, nil
+		return c.expandName(name), nil
 	}
 
+	name = c.File(name)
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
 		if err != nil {
-			return c.File(name), err
+			return name, err
 		}
 	}
 
-	return c.File(name), nil
+	return name, nil
 }
 
 func (c *OutputContext) actualFS() cli.FS {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index cf43969..7e1db78 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -137,14 +137,13 @@ func Gofmt() FileGenerator {
 			return err
 		}
 
-		_, err = doFileGenerate(ctx, c, name, Contents(result))
-		return err
+		return Contents(result).GenerateFile(ctx, c, name)
 	})
 }
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.Chmod(name, mode)
+		return c.actualFS().Chmod(name, mode)
 	})
 }
 
@@ -156,7 +155,7 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.Chmod(name, fs.FileMode(int(m)))
+	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From 27f4222b44471c810a65509273e0ec5d0e2d3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 067/108] fix: path in the message of a file without generators

---
 extensions/template/file.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/extensions/template/file.go b/extensions/template/file.go
index 7e1db78..67bd1e6 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -160,7 +160,7 @@ func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string)
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	if len(f.ops) == 0 {
-		c.identical(f.name)
+		c.identical(c.File(f.name))
 		return nil
 	}
 
@@ -171,11 +171,6 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 		original, _ = io.ReadAll(file)
 	}
 
-	if len(f.ops) == 0 {
-		c.identical(f.name)
-		return nil
-	}
-
 	fileName, err := doFileGenerate(ctx, c, f.name, f.ops...)
 	if err != nil {
 		return err
-- 
2.43.0


From 6c1c3ab664de20fd06f799de23321561fe54e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:12 +0000
Subject: [PATCH 068/108] fix: close the files used by file generators

---
 extensions/template/context.go | 1 +
 extensions/template/file.go    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index daca061..3f42fb9 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -129,6 +129,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 		if err != nil {
 			return nil, nil
 		}
+		defer f.Close()
 		return io.ReadAll(f)
 	}()
 	if bytes.Equal(original, newContents) {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 67bd1e6..9f41aa7 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -54,6 +54,9 @@ func newGenerateContents(f generateFile) FileGeneratorFunc {
 		}
 
 		_, err = file.(io.Writer).Write(data)
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
+		}
 		return err
 	}
 }
@@ -127,6 +130,7 @@ func Gofmt() FileGenerator {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 
 		src, err := io.ReadAll(file)
 		if err != nil {
@@ -169,6 +173,7 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	var original []byte
 	if err == nil {
 		original, _ = io.ReadAll(file)
+		_ = file.Close()
 	}
 
 	fileName, err := doFileGenerate(ctx, c, f.name, f.ops...)
-- 
2.43.0


From ea4a921b042290dc98083022142a42d4d0455cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 069/108] fix: dry run of templates does not change files

---
 extensions/template/context.go |  4 ++++
 extensions/template/file.go    | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 3f42fb9..6cae251 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -242,6 +242,10 @@ func (c *OutputContext) pathEnsure(name string) (string, error) {
 	}
 
 	name = c.File(name)
+	if c.DryRun {
+		return name, nil
+	}
+
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 9f41aa7..2e7c2bd 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -89,6 +89,10 @@ func Contents(contents any) FileGenerator {
 // Touch touches the file.
 func Touch() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
+
 		f := c.actualFS()
 		fileName := name
 		_, err := f.Stat(fileName)
@@ -126,6 +130,10 @@ func Template(tt Interface, namedata ...any) FileGenerator {
 
 func Gofmt() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
+
 		file, err := c.FS.OpenContext(ctx, name)
 		if err != nil {
 			return err
@@ -147,10 +155,17 @@ func Gofmt() FileGenerator {
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.actualFS().Chmod(name, mode)
+		return chmod(c, name, mode)
 	})
 }
 
+func chmod(c *OutputContext, name string, mode fs.FileMode) error {
+	if c.DryRun {
+		return nil
+	}
+	return c.actualFS().Chmod(name, mode)
+}
+
 func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, name string) error {
 	if f == nil {
 		return nil
@@ -159,7 +174,7 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
+	return chmod(c, name, fs.FileMode(int(m)))
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From b088b584785fe51af1f2263800dfc2b22cd48b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:47 +0000
Subject: [PATCH 070/108] fix: values with Reset are reset on the first
 occurrence only

---
 value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 943a78c..52d4a34 100644
--- a/value.go
+++ b/value.go
@@ -787,12 +787,13 @@ func optionReset(p any, flags internalFlags) {
 func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 	resetOnFirstOccur := !flags.merge()
 	if !firstOccur {
-		// string will reset on every occurrence unless Merge is turned on
+		// string and the name-value pair will reset on every occurrence unless
+		// Merge is turned on; other values reset on the first occurrence
 		if resetOnFirstOccur {
 			switch p := p.(type) {
 			case *string:
 				*p = ""
-			case valueResetOrMerge:
+			case *NameValue:
 				p.Reset()
 			}
 		}
-- 
2.43.0


From 6ea30c89d1534e6159c957355c4218d767d11a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 071/108] fix: stat in file systems without StatFS

---
 file.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/file.go b/file.go
index 6689e26..56c1701 100644
--- a/file.go
+++ b/file.go
@@ -552,11 +552,7 @@ func (f fsExtensionWrapper) Stat(name string) (fs.FileInfo, error) {
 	if s, ok := f.FS.(fs.StatFS); ok {
 		return s.Stat(name)
 	}
-	return nil, &fs.PathError{
-		Op:   "stat",
-		Path: name,
-		Err:  errors.New("not supported"),
-	}
+	return fs.Stat(f.FS, name)
 }
 
 func (f fsExtensionWrapper) OpenContext(c context.Context, name string) (fs.File, error) {
-- 
2.43.0


From 06bd9a9d255fe6331895af83a565c19e5a25d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 072/108] fix: open the dash file when it is not an OS file

---
 file.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/file.go b/file.go
index 56c1701..e9a1f94 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,9 @@ type stdFile struct {
 	out io.Writer
 }
 
+// stdFileInfo describes standard input when it isn't a file
+type stdFileInfo struct{}
+
 type defaultFS struct {
 	FS
 	std *stdFile
@@ -423,14 +426,14 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			return d.std.openRead(), nil
 		case os.O_RDWR:
 			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+				return d.std.openWrite(), nil
 			}
 			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
+			return d.std.openWrite(), nil
 		}
 	}
 	return d.FS.OpenFile(name, flag, perm)
@@ -581,9 +584,30 @@ func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
 	}
-	return nil, nil
+	return stdFileInfo{}, nil
+}
+
+func (s *stdFile) openRead() fs.File {
+	if f, ok := s.in.(*os.File); ok {
+		return f
+	}
+	return s
 }
 
+func (s *stdFile) openWrite() fs.File {
+	if f, ok := s.out.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
+func (stdFileInfo) Name() string       { return "-" }
+func (stdFileInfo) Size() int64        { return 0 }
+func (stdFileInfo) Mode() fs.FileMode  { return fs.ModeNamedPipe | 0666 }
+func (stdFileInfo) ModTime() time.Time { return time.Time{} }
+func (stdFileInfo) IsDir() bool        { return false }
+func (stdFileInfo) Sys() any           { return nil }
+
 func (s *stdFile) Read(d []byte) (int, error) {
 	return s.in.Read(d)
 }
-- 
2.43.0


From f3e885c8400cce849aba3d4e3c3a4f5e58d610fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:19 +0000
Subject: [PATCH 073/108] fix: binder for IP, any, and other types

---
 extensions/bind/binder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 84fbf26..65a2777 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -57,7 +57,6 @@ package bind
 
 import (
 	"context"
-	"fmt"
 	"math/big"
 	"net"
 	"net/url"
@@ -503,7 +502,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return URL(nameopt...)
 		case *regexp.Regexp:
 			return Regexp(nameopt...)
-		case *net.IP:
+		case net.IP:
 			return IP(nameopt...)
 		case *big.Int:
 			return BigInt(nameopt...)
@@ -511,10 +510,11 @@ func For[T any](nameopt ...any) Binder[T] {
 			return BigFloat(nameopt...)
 		case []byte:
 			return Bytes(nameopt...)
-		case any:
-			return Interface(nameopt...)
 		default:
-			panic(fmt.Sprintf("unexpected target type %T", t))
+			if _, ok := any(&t).(*any); ok {
+				return Interface(nameopt...)
+			}
+			return Value[T](nameopt...)
 		}
 	}().(Binder[T])
 }
-- 
2.43.0


From d77003fcfc666d4f62744cdd6a4f7130c7f4a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 074/108] fix: setting strings and name-value lists replaces
 them

---
 context.go | 8 +++++++-
 value.go   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index e1822d0..f0e2dde 100644
--- a/context.go
+++ b/context.go
@@ -951,7 +951,13 @@ func (c *Context) SetValue(arg any) error {
 			optionReset(opt.value(), opt.internalFlags())
 		}
 	}
-	return c.target.(option).Set(arg)
+
+	opt := c.option()
+	if text, ok := opt.value().(*string); ok && !opt.internalFlags().mergeExplicitlyRequested() {
+		// Otherwise, the string would be added to the existing one
+		*text = ""
+	}
+	return opt.Set(arg)
 }
 
 // At either stores or executes the action at the given timing.
diff --git a/value.go b/value.go
index 52d4a34..b2a9029 100644
--- a/value.go
+++ b/value.go
@@ -522,6 +522,8 @@ func setDirect(dest any, v any) error {
 		*p = v.([]string)
 	case *map[string]string:
 		*p = v.(map[string]string)
+	case *[]*NameValue:
+		*p = v.([]*NameValue)
 	case *int:
 		*p = v.(int)
 	case *int8:
-- 
2.43.0


From 0d9c0a6f11314f24337945d9bf48ef90e36abe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:22 +0000
Subject: [PATCH 075/108] fix: args of expression operators by name or index in
 ContextOf

---
 context.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/context.go b/context.go
index f0e2dde..8778c4f 100644
--- a/context.go
+++ b/context.go
@@ -437,6 +437,17 @@ func (c *Context) ContextOf(target any) *Context {
 		return c
 	}
 	if !c.IsCommand() {
+		// Other targets can have args of their own
+		switch name := target.(type) {
+		case int:
+			if len(c.LocalArgs()) > 0 {
+				return c.tryOptionContext(c.LookupArg(name))
+			}
+		case string:
+			if a, _, ok := findArgByName(c.LocalArgs(), name); ok {
+				return c.newChild(a)
+			}
+		}
 		return c.Parent().ContextOf(target)
 	}
 	switch name := target.(type) {
-- 
2.43.0


From e4a50ac495ab66b65304cc83d023fd51b04735f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 076/108] fix: table formats are not changed by guessing the
 width

---
 extensions/table/table.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 86b7133..4b227c3 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -213,9 +213,6 @@ func newTableContext(f ...*Format) *tableContext {
 	if len(f) > 1 {
 		panic("expected zero or one arg")
 	}
-	if format.ColWidth <= 0 {
-		format.ColWidth = support.GuessWidth()
-	}
 	format.apply(c)
 
 	c.headers = nil
@@ -345,7 +342,11 @@ func (f *Format) apply(tc *tableContext) {
 	t.SetBorder(f.Border)
 	t.SetTablePadding(f.TablePadding)
 	t.SetNoWhiteSpace(f.NoWhiteSpace)
-	t.SetColWidth(f.ColWidth)
+	if f.ColWidth <= 0 {
+		t.SetColWidth(support.GuessWidth())
+	} else {
+		t.SetColWidth(f.ColWidth)
+	}
 
 	if f.Border {
 		tc.cornerSeparators = [...]string{
-- 
2.43.0


From 569d1792631fa2b89104b0e0c344ea0dfa0c3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 077/108] fix: footers after the last row in porcelain tables

---
 extensions/table/table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 4b227c3..4270a65 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -388,8 +388,14 @@ func (porcelainContext) Headers(titles ...string) string {
 	return strings.Join(titles, "\t") + "\n"
 }
 
-func (porcelainContext) Footers(titles ...string) string {
-	return strings.Join(titles, "\t") + "\n"
+func (p *porcelainContext) Footers(titles ...string) string {
+	var res string
+	if p.cells != nil {
+		// The last row comes before the footers
+		res = p.Row()
+		p.cells = nil
+	}
+	return res + strings.Join(titles, "\t") + "\n"
 }
 
 func (p *porcelainContext) Cell(value any) (string, error) {
-- 
2.43.0


From 23eb1754a484c4e3e8269cacd7de125fbb497857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 078/108] fix: tables of rows with different numbers of cells

---
 extensions/table/table.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 4270a65..e6b65e4 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -293,6 +293,7 @@ func (c *tableContext) Cell(value any) (string, error) {
 
 func (c *tableContext) EndTable() string {
 	if len(c.headers) > 0 || len(c.cells) > 0 || len(c.footers) > 0 {
+		c.alignColumns()
 		c.table.SetHeader(c.headers)
 		c.table.SetFooter(c.footers)
 		c.table.AppendBulk(c.cells)
@@ -328,6 +329,26 @@ func (c *tableContext) EndTable() string {
 	return strings.Join(lines, nl)
 }
 
+// alignColumns adds empty cells where there are fewer than in other rows
+func (c *tableContext) alignColumns() {
+	count := max(len(c.headers), len(c.footers))
+	for _, row := range c.cells {
+		count = max(count, len(row))
+	}
+	pad := func(row []string) []string {
+		return append(row, make([]string, count-len(row))...)
+	}
+	if len(c.headers) > 0 {
+		c.headers = pad(c.headers)
+	}
+	if len(c.footers) > 0 {
+		c.footers = pad(c.footers)
+	}
+	for i := range c.cells {
+		c.cells[i] = pad(c.cells[i])
+	}
+}
+
 func (f *Format) apply(tc *tableContext) {
 	t := tc.table
 	t.SetAutoWrapText(f.AutoWrapText)
-- 
2.43.0


From 1994fae93eba8a6499b10d37712e8cb879296fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 079/108] fix: help screens with tables

---
 extensions/table/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index e6b65e4..8d36390 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -132,11 +132,12 @@ const (
 const (
 	flagTemplate = `
 {{- Row -}}
-{{- Execute "FlagSynopsis" .Synopsis | ExtraSpaceBeforeFlag | Cell -}}
+{{- .Synopsis | print | ExtraSpaceBeforeFlag | Cell -}}
 {{- Cell .HelpText -}}
 `
 
 	flagListingTemplate = `
+{{- if . }}{{ "\n" }}{{ end -}}
 {{- Table "Unformatted" -}}
 {{- range . -}}{{- template "Flag" . -}}{{- end -}}
 {{- EndTable -}}
-- 
2.43.0


From cf1cfb357a1b3c9a02de6a5465b706a883153fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:08 +0000
Subject: [PATCH 080/108] fix: corners of table formats which use the center
 separator

---
 extensions/table/table.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 8d36390..c67ddc4 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -305,6 +305,9 @@ func (c *tableContext) EndTable() string {
 	// the underlying package supports it
 	nl := "\n"
 	sep := c.centerSeparator
+	if sep == "" {
+		return c.buf.String()
+	}
 	lines := strings.Split(c.buf.String(), nl)
 	last := len(lines) - 2
 
@@ -318,13 +321,16 @@ func (c *tableContext) EndTable() string {
 		default:
 			sin = 3
 		}
-		if strings.HasPrefix(lines[i], sep) {
-			lines[i] = c.cornerSeparators[sin] + strings.TrimPrefix(lines[i], sep)
+		line, left := strings.CutPrefix(lines[i], sep)
+		line, right := strings.CutSuffix(line, sep)
+		line = strings.ReplaceAll(line, sep, c.cornerSeparators[sin+1])
+		if left {
+			line = c.cornerSeparators[sin] + line
 		}
-		if strings.HasSuffix(lines[i], sep) {
-			lines[i] = strings.TrimSuffix(lines[i], sep) + c.cornerSeparators[sin+2]
+		if right {
+			line += c.cornerSeparators[sin+2]
 		}
-		lines[i] = strings.ReplaceAll(lines[i], sep, c.cornerSeparators[sin+1])
+		lines[i] = line
 	}
 
 	return strings.Join(lines, nl)
-- 
2.43.0


From 8e1597b45cbb6146ef6fc0a7212b2da026574deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:42 +0000
Subject: [PATCH 081/108] Restore go.sum as it was

---
 go.sum | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go.sum b/go.sum
index ac99f67..bd1f773 100644
--- a/go.sum
+++ b/go.sum
@@ -41,14 +41,12 @@ github.com/google/go-cmp v0.6.0 h1:ofyhxvXcZhMsU5ulbFiLKl/XBFqE1GSq7atu8tAmTRI=
 github.com/google/go-cmp v0.6.0/go.mod h1:17dUlkBOakJ0+DkrSSNjCkIjxS6bF9zb3elmeNGIjoY=
 github.com/google/pprof v0.0.0-20241101162523-b92577c0c142 h1:sAGdeJj0bnMgUNVeUpp6AYlVdCt3/GdI3pGRqsNSQLs=
 github.com/google/pprof v0.0.0-20241101162523-b92577c0c142/go.mod h1:vavhavw2zAxS5dIdcRluK6cSGGPlZynqzFM8NdvU144=
-github.com/google/uuid v1.6.0/go.mod h1:TIyPZe4MgqvfeYDBFedMoGGpEw/LqOeaOT+nhxU+yHo=
 github.com/hashicorp/go-version v1.7.0 h1:5tqGy27NaOTB8yJKUZELlFAS/LTKJkrmONwQKeRZfjY=
 github.com/hashicorp/go-version v1.7.0/go.mod h1:fltr4n8CU8Ke44wwGCBoEymUuxUHl09ZGVZPK5anwXA=
 github.com/juju/ansiterm v1.0.0 h1:gmMvnZRq7JZJx6jkfSq9/+2LMrVEwGwt7UR6G+lmDEg=
 github.com/juju/ansiterm v1.0.0/go.mod h1:PyXUpnI3olx3bsPcHt98FGPX/KCFZ1Fi+hw1XLI6384=
 github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51 h1:Z9n2FFNUXsshfwJMBgNA0RU6/i7WVaAegv3PtuIHPMs=
 github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51/go.mod h1:CzGEWj7cYgsdH8dAjBGEr58BoE7ScuLd+fwFZ44+/x8=
-github.com/kr/fs v0.1.0/go.mod h1:FFnZGqtBN9Gxj7eW1uZ42v5BccTP0vu6NEaFoC2HwRg=
 github.com/kr/pretty v0.2.1 h1:Fmg33tUaq4/8ym9TJN1x7sLJnHVwhP33CNkpYV/7rwI=
 github.com/kr/pretty v0.2.1/go.mod h1:ipq/a2n7PKx3OHsz4KJII5eveXtPO4qwEXGdVfWzfnI=
 github.com/kr/pty v1.1.1/go.mod h1:pFQYn66WHrOpPYNljwOMqo10TkYh1fy3cYio2l3bCsQ=
@@ -107,7 +105,6 @@ github.com/stretchr/testify v1.8.0/go.mod h1:yNjHg4UonilssWZ8iaSj1OCr/vHnekPRkoO
 github.com/stretchr/testify v1.8.4/go.mod h1:sz/lmYIOXD/1dqDmKjjqLyZ2RngseejIcXlSw2iwfAo=
 github.com/stretchr/testify v1.10.0 h1:Xv5erBjTwe/5IxqUQTdXv5kgmIvbHo3QQyRwhJsOfJA=
 github.com/stretchr/testify v1.10.0/go.mod h1:r2ic/lqez/lEtzL7wO/rwa5dbSLXVDPFyf8C91i36aY=
-github.com/yuin/goldmark v1.4.13/go.mod h1:6yULJ656Px+3vBD8DxQVa3kxgyrAnzto9xy5taEt/CY=
 golang.org/x/exp/typeparams v0.0.0-20220428152302-39d4317da171/go.mod h1:AbB0pIl9nAr9wVwH+Z2ZpaocVmF5I4GyWCDIsVjR0bk=
 golang.org/x/exp/typeparams v0.0.0-20230203172020-98cc5a0785f9/go.mod h1:AbB0pIl9nAr9wVwH+Z2ZpaocVmF5I4GyWCDIsVjR0bk=
 golang.org/x/exp/typeparams v0.0.0-20240213143201-ec583247a57a h1:rrd/FiSCWtI24jk057yBSfEfHrzzjXva1VkDNWRXMag=
-- 
2.43.0


From acb54d731a88d694cf59d401bae8e555f21a1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:15 +0000
Subject: [PATCH 082/108] fix: auto-detect color on the destination of the
 writer

---
 usage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index e214e1f..627ba8a 100644
--- a/usage.go
+++ b/usage.go
@@ -72,6 +72,7 @@ type Style = ansiterm.Style
 type stringHelper struct {
 	*ansiterm.Writer
 	enabled bool
+	dest    io.Writer // what enabled is auto-detected on
 }
 
 type templateBinding struct {
@@ -155,6 +156,7 @@ func NewWriter(w io.Writer) Writer {
 	return &stringHelper{
 		Writer:  ansiterm.NewWriter(w),
 		enabled: colorEnabled(w),
+		dest:    w,
 	}
 }
 
@@ -547,7 +549,7 @@ func (w *stringHelper) WriteString(s string) (int, error) {
 }
 
 func (w *stringHelper) ResetColorCapable() {
-	w.SetColorCapable(colorEnabled(w.Writer))
+	w.SetColorCapable(colorEnabled(w.dest))
 }
 
 func (w *stringHelper) ColorCapable() bool {
-- 
2.43.0


From f6bc9106d4e2bc48a5b0725a4634926648fd0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:15 +0000
Subject: [PATCH 083/108] fix: buffers use color as other writers of stdout do

---
 usage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usage.go b/usage.go
index 627ba8a..140b405 100644
--- a/usage.go
+++ b/usage.go
@@ -588,8 +588,8 @@ func (s *synopsisWrapper[T]) String() string {
 }
 
 func colorEnabled(w io.Writer) bool {
-	if s, ok := w.(*stringHelper); ok {
-		return s.enabled
+	if s, ok := w.(Writer); ok {
+		return s.ColorCapable()
 	}
 
 	f, ok := w.(*os.File)
-- 
2.43.0


From 46f7feac42f1b743e7efa7ec0342989e3655b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:15 +0000
Subject: [PATCH 084/108] fix: the color named Default in templates

---
 extensions/color/color_templates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index a72c33c..1b188c6 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -136,8 +136,8 @@ func (t *templateContext) resetColor() func() string {
 }
 
 func (t *templateContext) setColor(color string, a ...any) (string, error) {
-	if _, ok := colorNames[color]; ok {
-		return t.funcs[color].(sprinter)(a...)
+	if f, ok := colorNames[color]; ok {
+		return t.sprintForegroundColor(f)(a...)
 	}
 	return "", fmt.Errorf("not valid color: %q", color)
 }
-- 
2.43.0


From 7e52776ea905183876e0a8819f593eb0662c72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:15 +0000
Subject: [PATCH 085/108] fix: emoji follow the color mode when it changes

---
 extensions/color/color_templates.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index 1b188c6..4ed3272 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -10,8 +10,6 @@ import (
 type templateContext struct {
 	c     *cli.Context
 	funcs map[string]any
-
-	colorEnabledCache *bool
 }
 
 type sprinter = func(...any) (string, error)
@@ -211,10 +209,5 @@ func (t *templateContext) emoji(name string) (string, error) {
 }
 
 func (t *templateContext) colorEnabled() bool {
-	if t.colorEnabledCache == nil {
-		res := t.c.NewBuffer()
-		enabled := res.ColorCapable()
-		t.colorEnabledCache = &enabled
-	}
-	return *t.colorEnabledCache
+	return t.c.NewBuffer().ColorCapable()
 }
-- 
2.43.0


From bb6a4147a066e3424b82fb522c752eb6c447012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 086/108] fix: pipelines made from the same one by Append are
 distinct

---
 action.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 6e44964..737afd5 100644
--- a/action.go
+++ b/action.go
@@ -12,6 +12,7 @@ import (
 	"os/signal"
 	"regexp"
 	"runtime/debug"
+	"slices"
 	"strings"
 	"time"
 
@@ -1633,12 +1634,12 @@ func (af actionFunc) Execute(ctx context.Context) error {
 
 // Append appends actions to the pipeline
 func (p ActionPipeline) Append(x ...Action) ActionPipeline {
-	return append(p, x...)
+	return append(slices.Clip(p), x...)
 }
 
 // Prepend prepends actions to the pipeline
 func (p ActionPipeline) Prepend(x ...Action) ActionPipeline {
-	return append(x, p...)
+	return append(slices.Clip(x), p...)
 }
 
 // Execute the pipeline by calling each action successively
-- 
2.43.0


From cd3b68b561440146805c45a70f7af3950b7a548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 087/108] fix: FromFilePath uses the file system of each app

---
 action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/action.go b/action.go
index 737afd5..be67c94 100644
--- a/action.go
+++ b/action.go
@@ -1345,6 +1345,7 @@ func flagScreamingSnakeCase(o option) string {
 // Alternatively, you can set the Flag or Arg field FilePath.
 func FromFilePath(f fs.FS, filePath string) Action {
 	return Implicitly(ActionFunc(func(c *Context) error {
+		f := f
 		if f == nil {
 			f = c.actualFS()
 		}
-- 
2.43.0


From 754909b0a68dc1c054a2626f7dd1280dc883c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 088/108] fix: ValueTransform keeps the transformed value as it
 is

---
 action.go |  9 +++++++--
 value.go  | 25 +++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index be67c94..f4e68e9 100644
--- a/action.go
+++ b/action.go
@@ -1223,8 +1223,13 @@ func Transform(fn TransformFunc) Action {
 func ValueTransform(valueFn TransformFunc) Action {
 	return Transform(func(raw []string) (any, error) {
 		name, value, hasValue := splitValuePair(raw[1])
+		rest := raw[2:]
+		if !hasValue && len(rest) > 0 {
+			// The name and the value are separate arguments
+			value, rest, hasValue = rest[0], rest[1:], true
+		}
 		if hasValue {
-			values := append([]string{name, value}, raw[2:]...)
+			values := append([]string{name, value}, rest...)
 			f, err := valueFn(values)
 			if err != nil {
 				return nil, err
@@ -1234,7 +1239,7 @@ func ValueTransform(valueFn TransformFunc) Action {
 			if err != nil {
 				return nil, err
 			}
-			return name + "=" + txt, nil
+			return transformedPair{name, txt}, nil
 		}
 
 		return name, nil
diff --git a/value.go b/value.go
index b2a9029..19d970e 100644
--- a/value.go
+++ b/value.go
@@ -309,6 +309,8 @@ func SetData(dest any, arg any) error {
 	}
 
 	switch val := arg.(type) {
+	case transformedPair:
+		return val.set(dest)
 	case string:
 		return Set(dest, val)
 	case io.Reader:
@@ -324,6 +326,29 @@ func SetData(dest any, arg any) error {
 	panic(fmt.Sprintf("unexpected argument type %T", arg))
 }
 
+// transformedPair is a name-value pair whose value has been transformed and so is
+// not split again
+type transformedPair struct {
+	name, value string
+}
+
+func (p transformedPair) set(dest any) error {
+	switch d := dest.(type) {
+	case *NameValue:
+		d.Name, d.Value = p.name, p.value
+	case *[]*NameValue:
+		*d = append(*d, &NameValue{Name: p.name, Value: p.value})
+	case *map[string]string:
+		if *d == nil {
+			*d = map[string]string{}
+		}
+		(*d)[p.name] = p.value
+	default:
+		return Set(dest, p.name+"="+p.value)
+	}
+	return nil
+}
+
 func trySetOptional(dest any, trySetOptional func() (any, bool)) bool {
 	if _, ok := dest.(Value); ok {
 		return false
-- 
2.43.0


From 18d528fda211b5387cab1e7748acd4cebb3ad980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:20 +0000
Subject: [PATCH 089/108] fix: file reference transforms without a file system
 use the one of the app

---
 action.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/action.go b/action.go
index f4e68e9..725abb1 100644
--- a/action.go
+++ b/action.go
@@ -1270,6 +1270,7 @@ func transformOutputToString(v any) (string, error) {
 // When f is nil, the file system is determined from the Context.
 func TransformOptionalFileReference(f fs.FS) TransformFunc {
 	return func(raw []string) (any, error) {
+		f := transformFS(f)
 		readers := make([]io.Reader, len(raw)-1)
 		for i, s := range raw[1:] {
 			if strings.HasPrefix(s, "@") {
@@ -1289,6 +1290,7 @@ func TransformOptionalFileReference(f fs.FS) TransformFunc {
 // TransformFileReference obtains the transform for the given file system.
 func TransformFileReference(f fs.FS) TransformFunc {
 	return func(raw []string) (any, error) {
+		f := transformFS(f)
 		readers := make([]io.Reader, len(raw)-1)
 		for i, s := range raw[1:] {
 			f, err := f.Open(s)
@@ -1301,6 +1303,16 @@ func TransformFileReference(f fs.FS) TransformFunc {
 	}
 }
 
+func transformFS(f fs.FS) fs.FS {
+	if f != nil {
+		return f
+	}
+	if app := CurrentApp(); app != nil && app.FS != nil {
+		return app.FS
+	}
+	return newDefaultFS(os.Stdin, os.Stdout)
+}
+
 // FromEnv loads the flag or arg value from the given environment variable(s).
 // Alternatively, you can set the EnvVars field on Flag or Arg to achieve the same
 // behavior.
-- 
2.43.0


From 723320aa8be1d3ed4291abe12647c72edf73d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:18 +0000
Subject: [PATCH 090/108] fix: a NameValue arg keeps the name when the value is
 a separate argument

---
 set.go   | 8 +++++++-
 value.go | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 4cffd4c..66515aa 100644
--- a/set.go
+++ b/set.go
@@ -271,7 +271,13 @@ Parsing:
 					}
 				}
 				argName := "<" + positionalOpts.name() + ">"
-				appendOutput(positionalOpts.name(), []string{argName, arg})
+				if c, ok := positionalOpts.current().(*valuePairCounter); ok && c.separateValue {
+					// The name and the value are the same occurrence
+					occurs := bindings[positionalOpts.name()]
+					occurs[len(occurs)-1] = append(occurs[len(occurs)-1], arg)
+				} else {
+					appendOutput(positionalOpts.name(), []string{argName, arg})
+				}
 
 				if args.empty() {
 					if err = positionalOpts.Done(); err != nil {
diff --git a/value.go b/value.go
index 19d970e..f639eba 100644
--- a/value.go
+++ b/value.go
@@ -98,6 +98,9 @@ type valueCompleter interface {
 
 type valuePairCounter struct {
 	count int
+
+	// separateValue is whether the name and value were separate
+	separateValue bool
 }
 
 // BindingLookup can lookup values or their raw bindings
@@ -668,6 +671,7 @@ func (v *valuePairCounter) Take(arg string, _ bool) error {
 		return nil
 	case 1:
 		v.count++
+		v.separateValue = true
 		return nil
 	case 2:
 		v.count++
-- 
2.43.0


From 2f52bded73a6bd0472c6bfb9a60a6db8f9d45efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:05 +0000
Subject: [PATCH 091/108] fix: the mirror flag triggers the Action of the
 original flag after a sub-command

---
 option.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index ffae0da..8770667 100644
--- a/option.go
+++ b/option.go
@@ -564,7 +564,19 @@ func noOption(c *Context) error {
 			return nil
 		},
 		Action: func(c *Context) error {
-			return c.ContextOf(f).SetValue(false)
+			orig := c.ContextOf(f)
+			if err := orig.SetValue(false); err != nil {
+				return err
+			}
+			if f.flags.triggerRequested() || f.triggered == f.count+1 {
+				return nil
+			}
+
+			// When specified after a sub-command, Before has already happened
+			if err := orig.Trigger(); err != nil {
+				return err
+			}
+			return triggerFlag(c.Parent(), f)
 		},
 	}))
 }
-- 
2.43.0


From 977a225545b488979ef9429e7213445d9671afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:13 +0000
Subject: [PATCH 092/108] fix: MustExist accepts a File which was not specified

---
 option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/option.go b/option.go
index 8770667..a08da2a 100644
--- a/option.go
+++ b/option.go
@@ -492,6 +492,10 @@ func mustExistOption(c *Context) error {
 		if f.Exists() {
 			return nil
 		}
+		// As with a string, a blank name means that no file was specified
+		if file, ok := v.(*File); ok && file.Name == "" {
+			return nil
+		}
 	case fileStat:
 		_, err := f.Stat()
 
-- 
2.43.0


From 6dea0f8b6381cc5a048208b753b4ea85c9d6413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:32 +0000
Subject: [PATCH 093/108] fix: sorted flags, commands and expressions in the
 help of a sub-command

---
 option.go | 48 +++++++++++++++++++++++++++++++++++++++++++++---
 usage.go  |  6 ++++++
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/option.go b/option.go
index a08da2a..28f6572 100644
--- a/option.go
+++ b/option.go
@@ -223,6 +223,9 @@ const (
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
 	internalFlagMirrored // true for Flag which has the corresponding --no- flag
+	internalFlagSortedFlags
+	internalFlagSortedCommands
+	internalFlagSortedExprs
 )
 
 var (
@@ -246,9 +249,9 @@ var (
 		EachOccurrence:         ActionFunc(eachOccurrenceOpt),
 		AllowFileReference:     actionFunc(allowFileReferenceOpt),
 		FileReference:          actionFunc(fileReferenceOpt),
-		SortedFlags:            Before(ActionFunc(sortedFlagsOpt)),
-		SortedCommands:         Before(ActionFunc(sortedCommandsOpt)),
-		SortedExprs:            Before(ActionFunc(sortedExprsOpt)),
+		SortedFlags:            Pipeline(setInternalFlag(internalFlagSortedFlags), Before(ActionFunc(sortedFlagsOpt))),
+		SortedCommands:         Pipeline(setInternalFlag(internalFlagSortedCommands), Before(ActionFunc(sortedCommandsOpt))),
+		SortedExprs:            Pipeline(setInternalFlag(internalFlagSortedExprs), Before(ActionFunc(sortedExprsOpt))),
 		ImpliedAction:          setInternalFlag(internalFlagImpliedAction),
 		Trigger:                setInternalFlag(internalFlagTriggerRequested),
 	}
@@ -374,6 +377,18 @@ func (f internalFlags) mergeExplicitlyRequested() bool {
 	return f&internalFlagMergeExplicitlyRequested == internalFlagMergeExplicitlyRequested
 }
 
+func (f internalFlags) sortedFlags() bool {
+	return f&internalFlagSortedFlags == internalFlagSortedFlags
+}
+
+func (f internalFlags) sortedCommands() bool {
+	return f&internalFlagSortedCommands == internalFlagSortedCommands
+}
+
+func (f internalFlags) sortedExprs() bool {
+	return f&internalFlagSortedExprs == internalFlagSortedExprs
+}
+
 func (f internalFlags) rightToLeft() bool {
 	return f&internalFlagRightToLeft == internalFlagRightToLeft
 }
@@ -656,6 +671,33 @@ func sortedCommandsOpt(c *Context) error {
 	return nil
 }
 
+// sortUsage applies the sort options to a command, whose Before pipeline has possibly
+// not been executed
+func sortUsage(c *Context) error {
+	cmd, ok := c.target.(*Command)
+	if !ok {
+		return nil
+	}
+	if cmd.flags.sortedFlags() {
+		if err := sortedFlagsOpt(c); err != nil {
+			return err
+		}
+	}
+	if cmd.flags.sortedCommands() {
+		if err := sortedCommandsOpt(c); err != nil {
+			return err
+		}
+	}
+	for _, a := range cmd.Args {
+		if a.flags.sortedExprs() {
+			if err := sortedExprsOpt(c.newChild(a)); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func sortedExprsOpt(c *Context) error {
 	exp, ok := c.target.description().(interface{ SortUsage() })
 	if !ok {
diff --git a/usage.go b/usage.go
index 140b405..535d04e 100644
--- a/usage.go
+++ b/usage.go
@@ -218,6 +218,12 @@ func DisplayHelpScreen(command ...string) Action {
 			// wrapper
 			usageColor = c.Stdout.ColorCapable()
 
+			for s := ctxt; s != nil; s = s.Parent() {
+				if err := sortUsage(s); err != nil {
+					return err
+				}
+			}
+
 			current := ctxt.Command()
 			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
-- 
2.43.0


From 788bb60ab0b8d5d5c88e11ec24803fd871a51b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:31 +0000
Subject: [PATCH 094/108] fix: a Prototype cleared what it does not specify in
 values

---
 action.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/action.go b/action.go
index 725abb1..5494c95 100644
--- a/action.go
+++ b/action.go
@@ -1518,23 +1518,25 @@ func (p Prototype) Use(action Action) Prototype {
 }
 
 func (p *Prototype) copyCommonToTarget(c *Context) error {
+	// Values can't be asked what they have, so what the prototype does not
+	// specify must not be set
 	o := c.target
-	if o.category() == "" {
+	if o.category() == "" && p.Category != "" {
 		o.setCategory(p.Category)
 	}
-	if o.helpText() == "" {
+	if o.helpText() == "" && p.HelpText != "" {
 		o.setHelpText(p.HelpText)
 	}
-	if o.manualText() == "" {
+	if o.manualText() == "" && p.ManualText != "" {
 		o.setManualText(p.ManualText)
 	}
-	if o.usageText() == "" {
+	if o.usageText() == "" && p.UsageText != "" {
 		o.setUsageText(p.UsageText)
 	}
-	if o.description() == "" || o.description() == nil {
+	if (o.description() == "" || o.description() == nil) && p.Description != nil {
 		o.setDescription(p.Description)
 	}
-	if o.defaultText() == "" {
+	if o.defaultText() == "" && p.DefaultText != "" {
 		o.setDefaultText(p.DefaultText)
 	}
 	return nil
@@ -1612,25 +1614,12 @@ func (p *Prototype) copyToValue(c *Context) error {
 		return nil
 	}
 
-	if o.category() == "" {
-		o.setCategory(p.Category)
-	}
-	if o.helpText() == "" {
-		o.setHelpText(p.HelpText)
-	}
-	if o.manualText() == "" {
-		o.setManualText(p.ManualText)
-	}
-	if o.usageText() == "" {
-		o.setUsageText(p.UsageText)
-	}
-	if o.description() == "" || o.description() == nil {
-		o.setDescription(p.Description)
-	}
 	for k, v := range p.Data {
 		o.SetData(k, v)
 	}
-	o.setAliases(p.Aliases)
+	if len(p.Aliases) > 0 {
+		o.setAliases(p.Aliases)
+	}
 	p.Options.Execute(c)
 	return nil
 }
-- 
2.43.0


From 5243d42200dadc89e67cd35ee6a833568bcfbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:02 +0000
Subject: [PATCH 095/108] fix: customizations were not run again on an arg that
 changes its name

---
 command.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command.go b/command.go
index e3ae2ed..89dabfc 100644
--- a/command.go
+++ b/command.go
@@ -673,10 +673,16 @@ func initializeFlagsArgs(ctx *Context) error {
 			}
 
 			again = true
+			originalName := sub.Name
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
 				return err
 			}
+			// The name has changed, so hooks need to run again
+			// on the arg
+			if sub.Name != originalName {
+				ctx.newChild(sub).reinitialize()
+			}
 		}
 	}
 
-- 
2.43.0


From 0786ca94a90d75841a0835d4c502fa30020b875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:02 +0000
Subject: [PATCH 096/108] fix: errors from customizations of what changes its
 name were ignored

---
 command.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index 89dabfc..18ea6b6 100644
--- a/command.go
+++ b/command.go
@@ -663,7 +663,9 @@ func initializeFlagsArgs(ctx *Context) error {
 			// The name has changed, so hooks need to run again
 			// on the flag
 			if sub.Name != originalName {
-				ctx.newChild(sub).reinitialize()
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -681,7 +683,9 @@ func initializeFlagsArgs(ctx *Context) error {
 			// The name has changed, so hooks need to run again
 			// on the arg
 			if sub.Name != originalName {
-				ctx.newChild(sub).reinitialize()
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -705,7 +709,9 @@ func initializeSubcommands(ctx *Context) error {
 		// The name has changed, so hooks need to run again
 		// on the flag
 		if sub.Name != originalName {
-			ctx.newChild(sub).reinitialize()
+			if err := ctx.newChild(sub).reinitialize(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 93e4b6ae4c74d713fa54d00f958459921b33ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:18 +0000
Subject: [PATCH 097/108] fix: joe new app generates a valid program without
 --license

---
 internal/joe/tpl/app.go.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/joe/tpl/app.go.tpl b/internal/joe/tpl/app.go.tpl
index 0109b57..95fb363 100644
--- a/internal/joe/tpl/app.go.tpl
+++ b/internal/joe/tpl/app.go.tpl
@@ -19,7 +19,7 @@ import (
 
     //go:embed license.txt
     var license string
-{{ end -}}
+{{ end }}
 
 func main() {
     createApp().Run(os.Args)
-- 
2.43.0


From c3451f500e068e9d54543079da5b9b1793afa70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:24 +0000
Subject: [PATCH 098/108] fix: Touch reports an error from closing the file
 that it creates

---
 extensions/template/file.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extensions/template/file.go b/extensions/template/file.go
index 2e7c2bd..da77d7d 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -102,8 +102,7 @@ func Touch() FileGenerator {
 			if err != nil {
 				return err
 			}
-			defer file.Close()
-			return nil
+			return file.Close()
 		}
 
 		currentTime := time.Now().Local()
-- 
2.43.0


From fd42a836e8449dc42ef2f32fa26ceff8dac613b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:41 +0000
Subject: [PATCH 099/108] fix: initialize flags, args and commands which the
 initializer of a sub-command adds or removes

An initializer of a sub-command, flag or arg which added or removed a
sibling command caused a panic, or the command, or flags added, was
not initialized; a first sub-command added by a flag could not be called.
---
 action.go  |  3 +--
 command.go | 51 ++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/action.go b/action.go
index 5494c95..edfa3c9 100644
--- a/action.go
+++ b/action.go
@@ -310,8 +310,7 @@ var (
 				),
 			),
 			actionFunc(ensureSubcommands),
-			ActionFunc(initializeFlagsArgs),
-			ActionFunc(initializeSubcommands),
+			ActionFunc(initializeDescendants),
 			ActionFunc(initializeValueTargets),
 			ActionFunc(finalizeArgsAndFlags),
 			ActionFunc(copyContextToParent),
diff --git a/command.go b/command.go
index 18ea6b6..7a4751f 100644
--- a/command.go
+++ b/command.go
@@ -693,27 +693,52 @@ func initializeFlagsArgs(ctx *Context) error {
 	return nil
 }
 
-func initializeSubcommands(ctx *Context) error {
+// initializeDescendants initializes flags, args, and sub-commands, including the ones
+// which the initializers of the others add to this command
+func initializeDescendants(ctx *Context) error {
 	cmd := ctx.target.(*Command)
-	for _, sub := range cmd.Subcommands {
-		if sub.internalFlags().initialized() {
-			continue
-		}
+	ensured := len(cmd.Subcommands) > 0
+	initialized := map[*Command]bool{}
 
-		originalName := sub.Name
-		err := ctx.newChild(sub).initialize()
-		if err != nil {
+	for {
+		if err := initializeFlagsArgs(ctx); err != nil {
 			return err
 		}
-
-		// The name has changed, so hooks need to run again
-		// on the flag
-		if sub.Name != originalName {
-			if err := ctx.newChild(sub).reinitialize(); err != nil {
+		if !ensured && len(cmd.Subcommands) > 0 {
+			ensured = true
+			if err := ensureSubcommands(ctx); err != nil {
 				return err
 			}
+			continue
+		}
+
+		index := slices.IndexFunc(cmd.Subcommands, func(sub *Command) bool {
+			return !initialized[sub] && !sub.internalFlags().initialized()
+		})
+		if index < 0 {
+			return nil
+		}
+
+		sub := cmd.Subcommands[index]
+		initialized[sub] = true
+		if err := initializeSubcommand(ctx, sub); err != nil {
+			return err
 		}
 	}
+}
+
+func initializeSubcommand(ctx *Context, sub *Command) error {
+	originalName := sub.Name
+	err := ctx.newChild(sub).initialize()
+	if err != nil {
+		return err
+	}
+
+	// The name has changed, so hooks need to run again
+	// on the command
+	if sub.Name != originalName {
+		return ctx.newChild(sub).reinitialize()
+	}
 	return nil
 }
 
-- 
2.43.0


From c577717ac3e6a9dbd82f9ec0549c6932323e2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 100/108] fix: the current app is again the outer one after an
 action ran another app

---
 app.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 210a1aa..9ab2f7f 100644
--- a/app.go
+++ b/app.go
@@ -271,9 +271,11 @@ func (a *App) Initialize(c context.Context) (context.Context, error) {
 }
 
 func provideCurrentApp(a *App) func() {
+	// An action can run another app
+	previous := CurrentApp()
 	SetCurrentApp(a)
 	return func() {
-		SetCurrentApp(nil)
+		SetCurrentApp(previous)
 	}
 }
 
-- 
2.43.0


From 0c0abb577cb52c5ab53e96ce2cca63eb6ace4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:54 +0000
Subject: [PATCH 101/108] fix: write the description of a completion item on
 one line

A help text of several lines made the response that zsh reads be taken
apart at the wrong places, which corrupted every item after it.
---
 completion_zsh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 6e44fc6..ad19701 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"strings"
 )
 
 type zshComplete struct {
@@ -82,7 +83,8 @@ func (z *zshComplete) FormatCompletions(items []CompletionItem) string {
 }
 
 func (z *zshComplete) formatCompletion(item CompletionItem) string {
-	itemDesc := item.HelpText
+	// Each part of the item is on one line
+	itemDesc := strings.ReplaceAll(item.HelpText, "\n", " ")
 	if itemDesc == "" {
 		itemDesc = "_"
 	}
-- 
2.43.0


From 6fce6495ec034015e82ce6e314b057b821700a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:27 +0000
Subject: [PATCH 102/108] fix: the path of a context follows changes of the
 names in it

The path was kept when it was first asked for, so that the path of a
flag, arg or command (and the patterns which match it) named what it was
called before its initializers gave it another name.
---
 context.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/context.go b/context.go
index 8778c4f..4c2f817 100644
--- a/context.go
+++ b/context.go
@@ -48,9 +48,8 @@ type Context struct {
 	timing   Timing
 	request  *CompletionRequest
 
-	parent    *Context
-	pathCache ContextPath
-	ref       context.Context
+	parent *Context
+	ref    context.Context
 }
 
 // WalkFunc provides the callback for the Walk function
@@ -1151,13 +1150,6 @@ func (c *Context) Path() ContextPath {
 	if c == nil {
 		return nil
 	}
-	if len(c.pathCache) == 0 {
-		c.pathCache = c.pathSlow()
-	}
-	return c.pathCache
-}
-
-func (c *Context) pathSlow() ContextPath {
 	res := make([]string, 0)
 	c.lineageFunc(func(ctx *Context) {
 		res = append(res, ctx.Name())
-- 
2.43.0


From 5abba5f562a5cb1d115c6582b46fc4a02e38dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:08 +0000
Subject: [PATCH 103/108] fix: do not execute the implicit command when a
 completion is requested

The handler of ImplicitCommand executed the command when a word after its
args was completed, so that pressing TAB ran its actions.  The completions
of the implicit command are offered instead.
---
 command.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/command.go b/command.go
index 7a4751f..592dce0 100644
--- a/command.go
+++ b/command.go
@@ -116,6 +116,10 @@ type commandCategory struct {
 	Commands []*Command
 }
 
+// implicitInvocation is the error used instead of executing the implicit command when
+// its completion is requested
+type implicitInvocation []string
+
 type commandsByCategory []*commandCategory
 
 type commandContext struct {
@@ -211,6 +215,14 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 func ImplicitCommand(name string) Action {
 	return HandleCommandNotFound(func(c *Context, _ error) (*Command, error) {
 		invoke := append([]string{name}, c.Args()...)
+		if c.CompletionRequest() != nil {
+			// Only identify the command that is completed
+			if _, err := tryFindCommandOrIntercept(c, c.Command(), name, nil); err != nil {
+				return nil, err
+			}
+			return nil, implicitInvocation(invoke)
+		}
+
 		err := subcommandCore(c, invoke, nil)
 		if err != nil {
 			return nil, err
@@ -220,6 +232,15 @@ func ImplicitCommand(name string) Action {
 	})
 }
 
+func (implicitInvocation) Error() string {
+	return "implicit command"
+}
+
+// Unwrap indicates that no other handler is used
+func (implicitInvocation) Unwrap() error {
+	return ErrSkipCommand
+}
+
 func groupedByCategory(cmds []*Command) commandsByCategory {
 	res := commandsByCategory{}
 	for _, command := range cmds {
@@ -406,6 +427,10 @@ func completeSubCommand(c *Context) []CompletionItem {
 	}
 
 	cmd, err := tryFindCommandOrIntercept(c, c.Command(), invoke[0], nil)
+	if implicit, ok := err.(implicitInvocation); ok {
+		invoke = implicit
+		cmd, err = tryFindCommandOrIntercept(c, c.Command(), invoke[0], nil)
+	}
 	if err != nil {
 		return nil
 	}
-- 
2.43.0


From 8faa9bcd8cb6e53559e601ee0ddb9e66b66c1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:29 +0000
Subject: [PATCH 104/108] fix: complete the value of a flag of a parent command

The flag that waits for its value was only looked for in the innermost
command, so that the candidates were those of an arg of it instead.
---
 command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/command.go b/command.go
index 592dce0..0c38166 100644
--- a/command.go
+++ b/command.go
@@ -485,6 +485,9 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 
 		if strings.HasPrefix(name, "-") {
 			flag, ok := cmd.Flag(name)
+			for up := c.Parent(); !ok && up != nil; up = up.Parent() {
+				flag, _, ok = findFlagByName(up.LocalFlags(), name)
+			}
 			if ok {
 				return actualCompletion(flag.completion()).Complete(c)
 			}
-- 
2.43.0


From 450b54d1d31b664822801399a4e7bbef8f66aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:16 +0000
Subject: [PATCH 105/108] fix: write values with percent signs as they are in
 the error of Enum

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index edfa3c9..04f8b24 100644
--- a/action.go
+++ b/action.go
@@ -816,7 +816,8 @@ func Enum(options ...string) Action {
 							Code: InvalidArgument,
 							Err: errorTemplate{
 								fallback: fmt.Sprintf("unrecognized value %q, expected %s", occur, expected),
-								format:   fmt.Sprintf("unrecognized value %q for %%[1]s, expected %s", occur, expected),
+								format: strings.ReplaceAll(fmt.Sprintf("unrecognized value %q for ", occur), "%", "%%") + "%[1]s" +
+									strings.ReplaceAll(fmt.Sprintf(", expected %s", expected), "%", "%%"),
 							},
 						}
 					}
-- 
2.43.0


From c30a567dc8d7508b1e306fc565ad87687620e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:00 +0000
Subject: [PATCH 106/108] fix: do not run deferred actions of the app when a
 completion is requested

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 04f8b24..23f62e0 100644
--- a/action.go
+++ b/action.go
@@ -317,11 +317,11 @@ var (
 		),
 		Action: actions(
 			ActionFunc(triggerOptions),
+			IfMatch(subcommandDidNotExecute, actionFunc(triggerRobustParsingAndCompletion)),
 			ActionFunc(triggerValueTargets),
 			IfMatch(subcommandDidNotExecute,
 				actions(
 					executeDeferredPipeline(ActionTiming),
-					actionFunc(triggerRobustParsingAndCompletion),
 					executeUserPipeline(ActionTiming),
 				),
 			),
-- 
2.43.0


From 41ea17a2f2ae4336ad1109024c6eb1d14531abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:14 +0000
Subject: [PATCH 107/108] fix: customizations apply to the path before any of
 them changes a name

Since the path follows changes of names, a customization that renames
its target kept those made later from being applied.
---
 context.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 4c2f817..7e0b15c 100644
--- a/context.go
+++ b/context.go
@@ -48,8 +48,9 @@ type Context struct {
 	timing   Timing
 	request  *CompletionRequest
 
-	parent *Context
-	ref    context.Context
+	parent   *Context
+	hookPath ContextPath // path to which the hooks being executed apply
+	ref      context.Context
 }
 
 // WalkFunc provides the callback for the Walk function
@@ -1150,6 +1151,9 @@ func (c *Context) Path() ContextPath {
 	if c == nil {
 		return nil
 	}
+	if c.hookPath != nil {
+		return slices.Clone(c.hookPath)
+	}
 	res := make([]string, 0)
 	c.lineageFunc(func(ctx *Context) {
 		res = append(res, ctx.Name())
@@ -1752,9 +1756,15 @@ func bubble(start *Context, self, anc func(*Context, context.Context) error) err
 func tunnel(start *Context, self, anc func(*Context, context.Context) error) error {
 	lineage := start.Lineage()
 	fn := anc
+
+	// Ancestor hooks apply to the name before any of them changes it
+	start.hookPath = start.Path()
+	defer func() { start.hookPath = nil }()
+
 	for i := len(lineage) - 1; i >= 0; i-- {
 		current := lineage[i]
 		if i == 0 {
+			start.hookPath = nil
 			fn = self
 		}
 		if fn == nil {
-- 
2.43.0


From 8cc1135c6a5ffd410fed31567344adaf93cc0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:02 +0000
Subject: [PATCH 108/108] fix: complete the values of a flag that takes several

A flag with a list takes the tokens that follow until the next flag, but
the completions of the args were offered for them.
---
 command.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/command.go b/command.go
index 0c38166..93982ac 100644
--- a/command.go
+++ b/command.go
@@ -477,6 +477,10 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		return items
 	}
 
+	if f := findFlagTakingMore(c); f != nil {
+		return actualCompletion(f.completion()).Complete(c)
+	}
+
 	if cc.Err != nil {
 		var name string
 		if pe, ok := cc.Err.(*ParseError); ok {
@@ -484,11 +488,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		}
 
 		if strings.HasPrefix(name, "-") {
-			flag, ok := cmd.Flag(name)
-			for up := c.Parent(); !ok && up != nil; up = up.Parent() {
-				flag, _, ok = findFlagByName(up.LocalFlags(), name)
-			}
-			if ok {
+			if flag, ok := findFlagInLineage(c, name); ok {
 				return actualCompletion(flag.completion()).Complete(c)
 			}
 		}
@@ -520,6 +520,48 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	return items
 }
 
+// findFlagTakingMore finds the flag whose last occurrence takes the next token, too,
+// as with lists
+func findFlagTakingMore(c *Context) *Flag {
+	cc := c.CompletionRequest()
+	for i := len(cc.Args) - 1; i > 0; i-- {
+		name := cc.Args[i]
+		if !strings.HasPrefix(name, "-") {
+			continue
+		}
+		flag, ok := findFlagInLineage(c, name)
+		if !ok || flag.internalFlags().flagOnly() || flag.internalFlags().optional() {
+			return nil
+		}
+
+		// Make sure that this was parsed as the flag
+		occurs := cc.Bindings[flag.Name]
+		values := cc.Args[i+1:]
+		parsed := append([]string{name}, values...)
+		if len(values) == 0 {
+			parsed = append(parsed, "")
+		}
+		if len(occurs) == 0 || !slices.Equal(occurs[len(occurs)-1], parsed) {
+			return nil
+		}
+
+		next := argList(append(slices.Clone(values), "next"))
+		if _, err := next.take(flag.Name, flag.actualArgCounter()); err == nil && next.empty() {
+			return flag
+		}
+		return nil
+	}
+	return nil
+}
+
+func findFlagInLineage(c *Context, name string) (*Flag, bool) {
+	flag, ok := c.Command().Flag(name)
+	for up := c.Parent(); !ok && up != nil; up = up.Parent() {
+		flag, _, ok = findFlagByName(up.LocalFlags(), name)
+	}
+	return flag, ok
+}
+
 func findSolitaryMatch(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
 	cmd := c.Target().(*Command)
-- 
2.43.0

