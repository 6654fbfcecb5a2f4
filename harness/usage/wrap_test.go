package usage

import (
	"bytes"
	"regexp"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

var ansiCode = regexp.MustCompile("\x1b\\[[0-9;]*[@-Za-z]")

func width(s string) int { return len([]rune(ansiCode.ReplaceAllString(s, ""))) }

// TestP19_Wrap: wrapping moves words to new lines and changes nothing else
func TestP19_Wrap(t *testing.T) {
	pbt.Run(t, "a line is wrapped", 40000, func(c *pbt.C) {
		word := rapid.Custom(func(t *rapid.T) string {
			w := rapid.SampledFrom([]string{"a", "to", "the", "text", "words,", "é", "日本", "long-word", "longer.word.of.the.text", "[x]", "--flag=VALUE"}).Draw(t, "word")
			if rapid.IntRange(0, 5).Draw(t, "style") == 5 {
				code := rapid.SampledFrom([]string{"\x1b[1m", "\x1b[4m", "\x1b[31;1m", "\x1b[38;5;123m", "\x1b[2K", "\x1b[3@", "\x1b[Z", "\x1b[5z", "\x1b[1;2H", "\x1b[A", "\x1b[4a"}).Draw(t, "code")
				return code + w + "\x1b[0m"
			}
			return w
		})
		var text strings.Builder
		for i, n := 0, rapid.IntRange(0, 14).Draw(c.T, "n"); i < n; i++ {
			text.WriteString(word.Draw(c.T, "w"))
			if i < n-1 {
				text.WriteString(rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "   ", "\n", "\n\n", "\n  "}).Draw(c.T, "sep"))
			}
		}
		limit := rapid.IntRange(1, 24).Draw(c.T, "limit")
		indent := strings.Repeat(" ", rapid.SampledFrom([]int{0, 0, 1, 2, 4, 7, 30}).Draw(c.T, "indent"))
		c.Showf("%q, indent %d, width %d", text.String(), len(indent), limit)
		var buf bytes.Buffer
		cli.Wrap(&buf, text.String(), indent, limit)
		out := buf.String()
		fail := func(why string) { c.Failf("%s: %q", why, out) }
		if !strings.HasSuffix(out, "\n") {
			fail("no newline at the end")
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		// every line of the text starts a line
		for i, l := range strings.Split(text.String(), "\n") {
			rest := l
			for first := true; first || strings.TrimSpace(rest) != ""; first = false {
				if len(lines) == 0 {
					fail("text is lost")
				}
				got := lines[0]
				lines = lines[1:]
				if got == "" && strings.TrimSpace(rest) == "" {
					rest = ""
					break
				}
				if i > 0 || !first {
					if !strings.HasPrefix(got, indent) {
						fail("a line is not indented")
					}
					got = got[len(indent):]
				}
				if !first {
					rest = strings.TrimLeft(rest, " ")
				}
				if !strings.HasPrefix(rest, got) {
					fail("the text is changed")
				}
				rest = rest[len(got):]
				if rest != "" && !strings.HasPrefix(rest, " ") {
					fail("a word is broken")
				}
				// the line is no longer than needed, and no shorter
				full := got
				if i > 0 || !first {
					full = indent + got
				}
				if strings.TrimSpace(rest) != "" {
					c.NonTrivial()
					if width(full) < limit {
						fail("a line is wrapped that is not full")
					}
				}
				if j := strings.LastIndex(strings.TrimLeft(full, " "), " "); j >= 0 {
					j += len(full) - len(strings.TrimLeft(full, " "))
					if width(strings.TrimRight(full[:j], " ")) >= limit {
						fail("a line is not wrapped")
					}
				}
			}
		}
		if len(lines) > 0 {
			fail("too many lines")
		}
		c.Label("width %d", limit/8*8)
	})
}
