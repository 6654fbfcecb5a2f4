package model

import (
	"strings"

	"pgregory.net/rapid"
)

var shortNames = []string{"a", "b", "v", "x", "é"}
var longNames = []string{"all", "long", "lo", "verbose", "no-x", "name2", "x.y"}
var argNames = []string{"first", "second", "rest"}

// GenCount draws a count; flags is for a flag, otherwise it is for an arg.
func GenCount(flagCount bool) *rapid.Generator[Count] {
	return rapid.Custom(func(t *rapid.T) Count {
		var kinds []string
		if flagCount {
			kinds = []string{"exact0", "req", "exact1", "exact2", "opt", "until", "all", "except", "req", "exact0", "match"}
		} else {
			kinds = []string{"opt", "exact1", "until", "except", "exact2", "all", "opt", "exact3", "match"}
		}
		k := rapid.SampledFrom(kinds).Draw(t, "count")
		if strings.HasPrefix(k, "exact") {
			return Count{Kind: "exact", N: int(k[5] - '0')}
		}
		return Count{Kind: k}
	})
}

// GenGrammar draws the flags and args of a command.
func GenGrammar() *rapid.Generator[Grammar] {
	return rapid.Custom(func(t *rapid.T) Grammar {
		var g Grammar
		shorts := rapid.Permutation(shortNames).Draw(t, "shorts")
		longs := rapid.Permutation(longNames).Draw(t, "longs")
		n := rapid.IntRange(0, 4).Draw(t, "nflags")
		for i := 0; i < n; i++ {
			c := GenCount(true).Draw(t, "flagCount")
			f := Opt{Count: c, Optional: c.Kind == "opt"}
			if rapid.IntRange(0, 4).Draw(t, "shortOnly") == 0 && shorts[i] != "é" {
				f.Name = shorts[i]
			} else {
				f.Name = longs[i]
				if rapid.Bool().Draw(t, "hasShort") {
					f.Aliases = append(f.Aliases, shorts[i])
				}
				if rapid.IntRange(0, 3).Draw(t, "hasLong2") == 0 && i+4 < len(longs) {
					f.Aliases = append(f.Aliases, longs[i+4])
				}
			}
			g.Flags = append(g.Flags, f)
		}
		m := rapid.IntRange(0, 3).Draw(t, "nargs")
		for i := 0; i < m; i++ {
			g.Args = append(g.Args, Pos{Name: argNames[i], Count: GenCount(false).Draw(t, "argCount")})
		}
		return g
	})
}

// GenToken draws one token for the grammar.
func (g Grammar) GenToken() *rapid.Generator[string] {
	value := rapid.OneOf(
		rapid.SampledFrom([]string{"foo", "bar", "1", "a=b", "x,y", "", "-", "true", "é", "=", " "}),
		rapid.StringMatching(`[a-gi-z=,é]{1,4}`),
	)
	return rapid.Custom(func(t *rapid.T) string {
		k := rapid.IntRange(0, 19).Draw(t, "tokenKind")
		switch {
		case k < 8 || len(g.Flags) == 0 && k < 14:
			return value.Draw(t, "value")
		case k == 8:
			return "--"
		case k == 9:
			return rapid.SampledFrom([]string{"-5", "--unknown", "-q", "--=", "---", "-=", "--a", "--all=", "-a=", "--lo=1=2", "-é"}).Draw(t, "odd")
		case k == 10:
			return "-" + rapid.StringMatching(`[abvx=é5-]{1,4}`).Draw(t, "cluster")
		}
		if len(g.Flags) == 0 {
			return value.Draw(t, "value")
		}
		f := rapid.SampledFrom(g.Flags).Draw(t, "flag")
		n := rapid.SampledFrom(append([]string{f.Name}, f.Aliases...)).Draw(t, "spelling")
		if len([]rune(n)) == 1 && k < 17 {
			s := "-" + n
			switch rapid.IntRange(0, 3).Draw(t, "shortForm") {
			case 1:
				s += value.Draw(t, "v")
			case 2:
				for _, f2 := range g.Flags {
					for _, a := range append([]string{f2.Name}, f2.Aliases...) {
						if len([]rune(a)) == 1 && rapid.Bool().Draw(t, "inCluster") {
							s += a
						}
					}
				}
			}
			return s
		}
		s := "--" + n
		if rapid.IntRange(0, 2).Draw(t, "eq") == 0 {
			s += "=" + value.Draw(t, "v")
		}
		return s
	})
}

// GenTokens draws a command line (without the program name).
func (g Grammar) GenTokens(max int) *rapid.Generator[[]string] {
	return rapid.SliceOfN(g.GenToken(), 0, max)
}
