package text

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os/exec"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

func nil2() context.Context { return context.Background() }

// word is an argument: shell syntax, blanks, quotes, text of any language, and bytes
var word = rapid.OneOf(
	rapid.StringN(0, 8, -1),
	rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]string{
		"a", "b", "Z", "0", "_", "'", "\"", "\\", " ", "\t", "\n", "$", "$HOME", "`", "*", "?", "[", "]", "{", "}", "(", ")", "<", ">",
		"|", "&", ";", "#", "~", "!", "^", "=", "-", "--", "+", "%", "@", ":", ",", ".", "/", "é", "日", "\u00a0", "\u2028", "\xff", "\x80", "\x01", "\r",
	}), 0, 8), func(p []string) string { return strings.Join(p, "") }),
)

func plain(s string) bool {
	return s != "" && !strings.ContainsFunc(s, func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_@%+=:,./-", r))
	})
}

func wordsOf(c *pbt.C) []string {
	args := rapid.SliceOfN(word, 0, 6).Draw(c.T, "args")
	for i, a := range args {
		args[i] = strings.ReplaceAll(a, "\x00", "")
	}
	return args
}

// TestP21_Join: splitting what was joined gives the arguments back
func TestP21_Join(t *testing.T) {
	pbt.Run(t, "an argument needs quoting", 40000, func(c *pbt.C) {
		args := wordsOf(c)
		text := cli.Join(args)
		c.Showf("%q\n%s", args, text)
		if slices.ContainsFunc(args, func(s string) bool { return !plain(s) }) {
			c.NonTrivial()
		}
		back, err := cli.Split(text)
		if err != nil {
			c.Failf("does not split: %v", err)
		}
		if !slices.Equal(back, args) {
			c.Failf("split into %q", back)
		}
		// the arguments are joined one by one; the plain ones are readable
		var quoted []string
		for _, a := range args {
			q := cli.Quote(a)
			if plain(a) != (q == a) && plain(a) {
				c.Failf("%q is quoted without need: %s", a, q)
			}
			if p := cli.Quote(&a); p != q {
				c.Failf("a pointer to it is quoted as %s, the string as %s", p, q)
			}
			quoted = append(quoted, q)
		}
		if want := strings.Join(quoted, " "); want != text {
			c.Failf("joined as %s, quoted as %s", text, want)
		}
	})
}

// TestP21_Shell: the shell takes what was joined as the same arguments
func TestP21_Shell(t *testing.T) {
	sh, err := exec.LookPath("sh")
	if err != nil {
		t.Skip("no sh")
	}
	pbt.Run(t, "an argument needs quoting", 500, func(c *pbt.C) {
		var all [][]string
		var script strings.Builder
		for i, n := 0, rapid.IntRange(1, 12).Draw(c.T, "commands"); i < n; i++ {
			args := wordsOf(c)
			all = append(all, args)
			fmt.Fprintf(&script, "show %s\n", cli.Join(args))
			if slices.ContainsFunc(args, func(s string) bool { return !plain(s) }) {
				c.NonTrivial()
			}
		}
		c.Showf("%q", all)
		cmd := exec.Command(sh, "-c", "show() { for a; do printf '%s\\0' \"$a\"; done; printf 'end\\0\\0'; }\n"+script.String())
		cmd.Env = []string{"HOME=/nonexistent", "LC_ALL=C"}
		cmd.Dir = t.TempDir()
		out, err := cmd.CombinedOutput()
		if err != nil {
			c.Failf("the shell fails: %v\n%s", err, out)
		}
		var want bytes.Buffer
		for _, args := range all {
			for _, a := range args {
				want.WriteString(a + "\x00")
			}
			want.WriteString("end\x00\x00")
		}
		if !bytes.Equal(out, want.Bytes()) {
			c.Failf("the shell takes %q", out)
		}
	})
}

// TestP21_Values: the text of a value sets the same value
func TestP21_Values(t *testing.T) {
	pbt.Run(t, "the value is not the zero value", 15000, func(c *pbt.C) {
		same := func(a, b any) bool { return reflect.DeepEqual(a, b) }
		var ptr any
		switch k := rapid.IntRange(0, 21).Draw(c.T, "kind"); k {
		case 0:
			ptr = p(rapid.Bool().Draw(c.T, "v"))
		case 1:
			ptr = p(intGen.Draw(c.T, "v"))
		case 2:
			ptr = p(rapid.Int8().Draw(c.T, "v"))
		case 3:
			ptr = p(rapid.Int16().Draw(c.T, "v"))
		case 4:
			ptr = p(rapid.Int32().Draw(c.T, "v"))
		case 5:
			ptr = p(rapid.Int64().Draw(c.T, "v"))
		case 6:
			ptr = p(rapid.Uint().Draw(c.T, "v"))
		case 7:
			ptr = p(rapid.Uint8().Draw(c.T, "v"))
		case 8:
			ptr = p(rapid.Uint16().Draw(c.T, "v"))
		case 9:
			ptr = p(rapid.Uint32().Draw(c.T, "v"))
		case 10:
			ptr = p(rapid.Uint64().Draw(c.T, "v"))
		case 11:
			ptr = p(rapid.Float32().Draw(c.T, "v"))
		case 12:
			ptr = p(rapid.Float64().Draw(c.T, "v"))
		case 13:
			ptr = p(time.Duration(rapid.Int64().Draw(c.T, "v")))
		case 14:
			ptr = p(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "v"))
		case 15:
			n := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "v"))
			if rapid.Bool().Draw(c.T, "neg") {
				n.Neg(n)
			}
			ptr = p(n)
			same = func(a, b any) bool { return a.(*big.Int).Cmp(b.(*big.Int)) == 0 }
		case 16:
			u := &url.URL{
				Scheme:   rapid.SampledFrom([]string{"http", "https", "file"}).Draw(c.T, "scheme"),
				Host:     rapid.SampledFrom([]string{"example.com", "h:80", "[::1]:9", "127.0.0.1"}).Draw(c.T, "host"),
				Path:     "/" + rapid.StringN(0, 6, -1).Draw(c.T, "path"),
				RawQuery: rapid.SampledFrom([]string{"", "a=b", "a=%20&b"}).Draw(c.T, "query"),
				Fragment: rapid.SampledFrom([]string{"", "f", "a b"}).Draw(c.T, "fragment"),
			}
			ptr = p(u)
			same = func(a, b any) bool { return a.(*url.URL).String() == b.(*url.URL).String() }
		case 17:
			ip := net.IP(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(c.T, "v"))
			if rapid.Bool().Draw(c.T, "v4") {
				ip = net.IPv4(ip[0], ip[1], ip[2], ip[3])
			}
			ptr = &ip
			same = func(a, b any) bool { return a.(net.IP).Equal(b.(net.IP)) }
		case 18:
			re := regexp.MustCompile(regexp.QuoteMeta(rapid.StringN(0, 5, -1).Draw(c.T, "lit")) + rapid.SampledFrom([]string{"", "a+", "(x|y)", "[^,]$"}).Draw(c.T, "re"))
			ptr = p(re)
			same = func(a, b any) bool { return a.(*regexp.Regexp).String() == b.(*regexp.Regexp).String() }
		case 20:
			l := rapid.SliceOfN(rapid.StringMatching(`[a-z0-9'"$=-][a-z0-9 '"$=-]{0,2}[a-z0-9'"$=-]`), 0, 4).Draw(c.T, "v")
			ptr = &l
			text := cli.Quote(ptr)
			c.Showf("%q %s", l, text)
			if direct := cli.Quote(l); direct != text {
				c.Failf("the list is written as %s, a pointer to it as %s", direct, text)
			}
			var got []string
			if err := cli.Set(&got, cli.SplitList(text, ",", -1)...); err != nil {
				c.Failf("error: %v", err)
			}
			if len(l) > 0 {
				c.NonTrivial()
				for i := range l {
					if i >= len(got) || strings.TrimSpace(got[i]) != strings.TrimSpace(l[i]) {
						c.Failf("got %q", got)
					}
				}
			}
			return
		case 21:
			var l []*cli.NameValue
			for range rapid.IntRange(1, 3).Draw(c.T, "n") {
				l = append(l, &cli.NameValue{
					Name:  rapid.StringMatching(`[a-z][a-z0-9-]{0,3}`).Draw(c.T, "name"),
					Value: rapid.StringMatching(`[a-z0-9][a-z0-9 '"$-]{0,3}[a-z0-9]`).Draw(c.T, "value"),
				})
			}
			ptr = &l
			text := cli.Quote(ptr)
			c.Showf("%s", text)
			c.NonTrivial()
			if direct := cli.Quote(l); direct != text {
				c.Failf("the pairs are written as %s, a pointer to them as %s", direct, text)
			}
			var parts []string
			for _, nv := range l {
				parts = append(parts, nv.String())
			}
			if text != strings.Join(parts, ",") {
				c.Failf("the pairs are written as %s", text)
			}
			for _, nv := range l {
				if one := cli.Quote(nv); one != nv.String() {
					c.Failf("the pair is written as %s", one)
				}
				var got cli.NameValue
				words, serr := cli.Split(nv.String())
				if serr != nil || len(words) != 1 {
					c.Failf("the pair is split as %q, %v", words, serr)
				}
				if err := got.Set(words[0]); err != nil || got.Name != nv.Name || got.Value != nv.Value {
					c.Failf("the pair is read as %v, %v", got, err)
				}
			}
			return
		default:
			m := rapid.MapOfN(rapid.StringMatching(`[a-z]{1,3}`), rapid.StringMatching(`[a-z0-9 ]{0,3}`), 0, 3).Draw(c.T, "v")
			ptr = &m
			// splitting is left to the caller
			text := cli.Quote(ptr)
			c.Showf("%T %s", m, text)
			got := map[string]string{}
			if err := cli.Set(&got, cli.SplitList(text, ",", -1)...); err != nil {
				c.Failf("error: %v", err)
			}
			if len(m) > 0 {
				c.NonTrivial()
			}
			for k, v := range m {
				m[k] = v
			}
			if !trimmedEqual(got, m) {
				c.Failf("got %q", got)
			}
			return
		}
		v := reflect.ValueOf(ptr).Elem()
		text := cli.Quote(ptr)
		c.Showf("%s %s", v.Type(), text)
		c.Label("%s", v.Type())
		if !v.IsZero() {
			c.NonTrivial()
		}
		if direct := cli.Quote(v.Interface()); direct != text {
			c.Failf("the value is written as %s, a pointer to it as %s", direct, text)
		}
		dest := reflect.New(v.Type())
		if err := cli.Set(dest.Interface(), text); err != nil {
			c.Failf("error: %v", err)
		}
		if b, ok := ptr.(*[]byte); ok && len(*b) == 0 {
			if dest.Elem().Len() != 0 {
				c.Failf("got %v", dest.Elem())
			}
			return
		}
		if !same(dest.Elem().Interface(), v.Interface()) {
			c.Failf("got %v", dest.Elem())
		}
	})
}

// blanks around the whole list are dropped when it is split
func trimmedEqual(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		if strings.TrimSpace(a[k]) != strings.TrimSpace(v) {
			return false
		}
	}
	return true
}

func p[T any](v T) *T { return &v }
