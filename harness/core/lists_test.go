package core

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// refSplit is what splitting a list means: the text without the space around
// it, cut at each separator that no backslash precedes, into at most n items.
func refSplit(s, sep string, n int) []string {
	s = strings.TrimSpace(s)
	if s == "" || n == 0 {
		return nil
	}
	var res []string
	item := ""
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], `\`+sep) {
			item += sep
			i += 1 + len(sep)
			continue
		}
		if strings.HasPrefix(s[i:], sep) && (n < 0 || len(res)+1 < n) {
			res = append(res, item)
			item = ""
			i += len(sep)
			continue
		}
		item += s[i : i+1]
		i++
	}
	return append(res, item)
}

func escape(s string, seps ...string) string {
	for _, x := range seps {
		s = strings.ReplaceAll(s, x, `\`+x)
	}
	return s
}

// an item that has no space around it and no backslash
var listItem = rapid.OneOf(
	rapid.StringMatching(`[a-c,=]{1,4}`),
	rapid.StringMatching(`[a-cé]([a-c =,:;.-]{0,4}[a-c])?`),
	rapid.SampledFrom([]string{"true", "=", ",", ",,", "a,", ",a", "a=b", "a=b,c=d", "x=", "=x", "a==b"}),
)

// TestP05_SplitList: SplitList cuts at the separators that are not escaped.
func TestP05_SplitList(t *testing.T) {
	pbt.Run(t, "texts over separators, backslashes, letters and space, with n from -1 to 4; non-trivial: an escaped and an unescaped separator", 10000, func(c *pbt.C) {
		sep := rapid.SampledFrom([]string{",", "=", ":", ", ", "::"}).Draw(c.T, "sep")
		parts := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "\\", sep, sep, "\\" + sep, " ", "é", "=", "."}), 0, 9).Draw(c.T, "parts")
		n := rapid.IntRange(-1, 4).Draw(c.T, "n")
		s := strings.Join(parts, "")
		c.Showf("SplitList(%q, %q, %d)", s, sep, n)
		want := refSplit(s, sep, n)
		if strings.Contains(s, `\`+sep) && len(want) > 1 {
			c.NonTrivial()
		}
		got := cli.SplitList(s, sep, n)
		if !reflect.DeepEqual(strs(got), strs(want)) {
			c.Failf("got %q, want %q", got, want)
		}
	})
}

// TestP05_ListRoundTrip: items whose separators are escaped come back.
func TestP05_ListRoundTrip(t *testing.T) {
	pbt.Run(t, "lists of items, escaped and joined; non-trivial: two items and one of them contains a separator", 4000, func(c *pbt.C) {
		items := rapid.SliceOfN(listItem, 1, 5).Draw(c.T, "items")
		empty := false
		for i := range items {
			if rapid.IntRange(0, 9).Draw(c.T, "empty") == 7 {
				items[i], empty = "", true
			}
		}
		c.Showf("%q", items)
		esc := make([]string, len(items))
		for i, s := range items {
			esc[i] = escape(s, ",")
			if strings.Contains(s, ",") && len(items) > 1 {
				c.NonTrivial()
			}
		}
		text := strings.Join(esc, ",")
		// on a flag and on an arg: one token or one each
		forms := [][]string{{"--l", text}, {"--l=" + text}, {"--", text}}
		if !empty {
			forms = append(forms, append([]string{"--l"}, esc...))
		}
		if text == "" { // no items, or one that is empty
			forms = nil
		} else if got := cli.SplitList(text, ",", -1); !reflect.DeepEqual(got, items) {
			c.Failf("SplitList(%q) is %q", text, got)
		}
		for _, tokens := range forms {
			var dest []string
			app := newApp("app")
			if tokens[0] == "--" {
				app.Args = []*cli.Arg{{Name: "l", Value: &dest}}
			} else {
				app.Flags = []*cli.Flag{{Name: "l", Value: &dest}}
			}
			var seen []string
			app.Action = func(ctx *cli.Context) { seen = ctx.List("l") }
			if err := run(app, tokens...); err != nil {
				c.Failf("%q: %v", tokens, err)
			}
			if !reflect.DeepEqual(dest, items) || !reflect.DeepEqual(seen, items) {
				c.Failf("%q sets %q and the context has %q", tokens, dest, seen)
			}
		}

		// no splitting
		var dest []string
		app := newApp("app")
		app.Flags = []*cli.Flag{{Name: "l", Value: &dest, Options: cli.DisableSplitting}}
		var tokens []string
		for _, s := range items {
			tokens = append(tokens, "--l="+s)
		}
		if err := run(app, tokens...); err != nil {
			c.Failf("%q: %v", tokens, err)
		}
		if !reflect.DeepEqual(dest, items) {
			c.Failf("%q with DisableSplitting sets %q", tokens, dest)
		}
		dest = nil
		if err := cli.Set(&dest, items...); err != nil || !reflect.DeepEqual(dest, items) {
			c.Failf("Set gives %q, %v", dest, err)
		}
	})
}

var pairText = rapid.OneOf(rapid.StringMatching(`[a-d,=]{0,3}[a-d]`), rapid.StringMatching(`[a-d]([ :,=]{0,2}[a-d])?`), rapid.Just(""))

// TestP05_Maps: names and values in which commas and equal signs are escaped
// come back, as a map and as name-value pairs, joined or one by one.
func TestP05_Maps(t *testing.T) {
	pbt.Run(t, "lists of name-value pairs, escaped; non-trivial: two pairs and an escape in one of them", 4000, func(c *pbt.C) {
		type pair struct{ k, v string }
		pairs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) pair {
			return pair{listItem.Draw(t, "name"), pairText.Draw(t, "value")}
		}), 1, 4).Draw(c.T, "pairs")
		c.Showf("%q", pairs)
		want := map[string]string{}
		var wantNV []string
		var esc, plain []string
		for _, p := range pairs {
			want[p.k] = p.v
			wantNV = append(wantNV, p.k+"\x00"+p.v)
			e := escape(p.k, ",", "=") + "=" + escape(p.v, ",")
			esc = append(esc, e)
			plain = append(plain, escape(p.k, "=")+"="+p.v)
			if strings.Contains(e, `\`) && len(pairs) > 1 {
				c.NonTrivial()
			}
		}
		text := strings.Join(esc, ",")
		if got := cli.SplitMap(text); !reflect.DeepEqual(got, want) {
			c.Failf("SplitMap(%q) is %q, want %q", text, got, want)
		}
		nvs := func(s []*cli.NameValue) (res []string) {
			for _, x := range s {
				res = append(res, x.Name+"\x00"+x.Value)
			}
			return
		}
		check := func(split bool, tokens ...string) {
			m := map[string]string{"default": "x"}
			nv := cli.NameValues("default", "x")
			var opts cli.Option
			if !split {
				opts = cli.DisableSplitting
			}
			for i := 0; i < 2; i++ {
				app := newApp("app")
				f := &cli.Flag{Name: "m", Value: &m, Options: opts}
				if i == 1 {
					f.Value = nv
				}
				app.Flags = []*cli.Flag{f}
				var sm map[string]string
				var snv []*cli.NameValue
				app.Action = func(ctx *cli.Context) {
					if i == 0 {
						sm = ctx.Map("m")
					} else {
						snv = ctx.NameValues("m")
					}
				}
				if err := run(app, tokens...); err != nil {
					c.Failf("%q (split %v): %v", tokens, split, err)
				}
				if i == 0 && (!reflect.DeepEqual(m, want) || !reflect.DeepEqual(sm, want)) {
					c.Failf("%q (split %v) sets the map %q, context %q, want %q", tokens, split, m, sm, want)
				}
				if i == 1 && (!reflect.DeepEqual(nvs(*nv), wantNV) || !reflect.DeepEqual(nvs(snv), wantNV)) {
					c.Failf("%q (split %v) sets the pairs %q, context %q, want %q", tokens, split, nvs(*nv), nvs(snv), wantNV)
				}
			}
		}
		check(true, "--m="+text)
		var each, eachPlain []string
		for i := range esc {
			each = append(each, "--m="+esc[i])
			eachPlain = append(eachPlain, "--m="+plain[i])
		}
		check(true, each...)
		check(false, eachPlain...)

		// one pair
		var one cli.NameValue
		app := newApp("app")
		app.Flags = []*cli.Flag{{Name: "v", Value: &one}}
		forms := [][]string{{"--v=" + plain[0]}, {"--v", plain[0]}, {"--v", escape(pairs[0].k, "="), pairs[0].v}}
		form := rapid.SampledFrom(forms).Draw(c.T, "form")
		if err := run(app, form...); err != nil {
			c.Failf("%q: %v", form, err)
		}
		if one.Name != pairs[0].k || one.Value != pairs[0].v {
			c.Failf("%q sets %+v", form, one)
		}
		// a name on its own
		var alone cli.NameValue
		app = newApp("app")
		app.Flags = []*cli.Flag{{Name: "v", Value: &alone}}
		if err := run(app, "--v", escape(pairs[0].k, "=")); err != nil || alone.Name != pairs[0].k || alone.Value != "true" {
			c.Failf("name %q on its own sets %+v, %v", pairs[0].k, alone, err)
		}
		if err := cli.Set(cli.NameValues(), escape(pairs[0].k, "=")); err == nil {
			c.Failf("a name-value pair without a value was accepted: %q", pairs[0].k)
		}
	})
}

// TestP05_MapText: the text of a map lists its pairs in order, and reads back.
func TestP05_MapText(t *testing.T) {
	pbt.Run(t, "maps without separators in the names and values; non-trivial: two entries", 3000, func(c *pbt.C) {
		m := rapid.MapOfN(rapid.StringMatching(`[a-d]{1,2}`), rapid.StringMatching(`[a-d=]{0,3}`), 0, 5).Draw(c.T, "map")
		q := cli.Quote(m)
		c.Showf("%s", q)
		if len(m) > 1 {
			c.NonTrivial()
		}
		var want []string
		for k, v := range m {
			want = append(want, k+"="+v)
		}
		sort.Strings(want)
		if q != strings.Join(want, ",") {
			c.Failf("Quote gives %q, want %q", q, strings.Join(want, ","))
		}
		if got := cli.SplitMap(q); fmt.Sprint(got) != fmt.Sprint(m) {
			c.Failf("reads back as %v", got)
		}
		// a comma that starts no pair belongs to the value before it
		if len(m) > 0 {
			tail := rapid.StringMatching(`[e-h]{1,2}(,[e-h]{1,2}){0,2}`).Draw(c.T, "tail")
			got := cli.SplitMap("z=1," + tail + "," + q)
			if got["z"] != "1,"+tail {
				c.Failf("z=1,%s,%s has z=%q", tail, q, got["z"])
			}
		}
	})
}
