// Package model holds the reference models the property tests compare the
// library with. They are written from the documentation of carbonfrost/joe-cli
// and do not share code with it.
package model

import "strings"

// Count says how many tokens a flag or an arg takes.
type Count struct {
	Kind string // "exact", "opt", "req", "all", "until", "except", "match"
	N    int    // for exact
}

func (c Count) String() string {
	if c.Kind == "exact" {
		return "exact" + string(rune('0'+c.N))
	}
	return c.Kind
}

// Opt is a flag.
type Opt struct {
	Name     string
	Aliases  []string
	Count    Count
	Optional bool // the value is optional: used alone the flag takes nothing
}

// Pos is a positional arg.
type Pos struct {
	Name  string
	Count Count
}

// Grammar is the set of flags and args of one command.
type Grammar struct {
	Flags              []Opt
	Args               []Pos
	DisallowFlagsAfter bool
}

// Occ is one occurrence: the spelling and the values that came with it.
type Occ []string

// Err is the outcome of a parse that did not complete.
type Err struct {
	Code      string // "unknown", "unexpected", "expected", "invalid", "flagafterarg"
	Name      string // as the error reports it; "" where it names nothing
	Token     string
	Remaining []string
}

// Result is what a parse produces.
type Result struct {
	Occ   map[string][]Occ
	Order []string // name of each occurrence, in order
	Err   *Err

	// ImpreciseErr: the documentation does not settle which name or remaining
	// tokens the error carries
	ImpreciseErr bool
	// NamesMissing: the arg without enough values is named
	NamesMissing bool

	// TookFlagLike is set when an exact count took a token that looks like a flag
	TookFlagLike bool
}

// LooksLikeFlag is the syntax of a flag: a dash and at least one more character.
func LooksLikeFlag(s string) bool { return len(s) > 1 && s[0] == '-' }

const (
	yes = iota
	end
	flag
)

// Matches is the function of the counts that match one token or none
func Matches(s string) bool { return !LooksLikeFlag(s) && strings.ContainsAny(s, "aeiou1,é") }

type take struct {
	Count
	n int
}

// offer decides whether the counter takes the token
func (t *take) offer(tok string, maybeFlag bool) int {
	switch t.Kind {
	case "exact":
		if t.n >= t.N {
			return end
		}
	case "req":
		if t.n >= 1 {
			return end
		}
	case "opt":
		if t.n >= 1 {
			return end
		}
		if maybeFlag && LooksLikeFlag(tok) {
			return flag
		}
	case "until":
		if maybeFlag && LooksLikeFlag(tok) {
			return end
		}
	case "except":
		if maybeFlag && LooksLikeFlag(tok) {
			return flag
		}
	case "match":
		if t.n >= 1 || !Matches(tok) {
			return end
		}
	case "all":
	default:
		panic(t.Kind)
	}
	t.n++
	return yes
}

func (t *take) satisfied() bool {
	switch t.Kind {
	case "exact":
		return t.n == t.N
	case "req":
		return t.n == 1
	}
	return true
}

func (g Grammar) resolve(s string) (Opt, bool) {
	for _, f := range g.Flags {
		if f.Name == s {
			return f, true
		}
	}
	// a later flag with the same alias wins; the generators keep aliases distinct
	for _, f := range g.Flags {
		for _, a := range f.Aliases {
			if a == s {
				return f, true
			}
		}
	}
	return Opt{}, false
}

func dashed(name string) string {
	if len(name) == 1 { // a one-byte name; longer ones, even of one character, are long names
		return "-" + name
	}
	return "--" + name
}

// Parse parses the tokens (without the program name).
func (g Grammar) Parse(tokens []string) (res Result) {
	res.Occ = map[string][]Occ{}
	add := func(name string, vals ...string) {
		res.Occ[name] = append(res.Occ[name], vals)
		res.Order = append(res.Order, name)
	}
	fail := func(e Err) Result { res.Err = &e; return res }

	takers := make([]*take, len(g.Args))
	for i, a := range g.Args {
		takers[i] = &take{Count: a.Count}
	}
	cur := 0
	curDone := func() bool { return cur >= len(takers) || takers[cur].satisfied() }
	missing := func() Result {
		res.ImpreciseErr = true
		return fail(Err{Code: "expected", Name: "<" + g.Args[cur].Name + ">"})
	}

	onlyArgs := false
	inRun := false     // the previous token was positional
	afterArgs := false // flags come after an arg
	i := 0

	for i < len(tokens) {
		tok := tokens[i]
		flagLike := LooksLikeFlag(tok) && !onlyArgs

		takesAll := cur == len(takers)-1 && takers[cur].Kind == "all"
		if tok == "--" && (inRun || onlyArgs) && !takesAll {
			// ends the options and the arg being filled
			onlyArgs = true
			inRun = false
			if !curDone() {
				return missing()
			}
			cur++
			i++
			continue
		}
		if tok == "--" && !inRun && !onlyArgs {
			onlyArgs = true
			i++
			continue
		}

		if !flagLike || inRun {
			// offer the token to the args
			if inRun {
				afterArgs = true
			}
			taken, wantsFlag := false, false
			for cur < len(takers) {
				r := takers[cur].offer(tok, !onlyArgs)
				if r == yes {
					taken = true
					break
				}
				if r == flag {
					wantsFlag = true
					break
				}
				cur++
			}
			if taken {
				if flagLike && takers[cur].Kind == "exact" {
					res.TookFlagLike = true
				}
				add(g.Args[cur].Name, "<"+g.Args[cur].Name+">", tok)
				inRun = true
				i++
				continue
			}
			if !flagLike {
				return fail(Err{Code: "unexpected", Token: tok, Remaining: tokens[i:]})
			}
			_ = wantsFlag
		}

		// tok is a flag
		if g.DisallowFlagsAfter && afterArgs {
			res.ImpreciseErr = true
			if strings.HasPrefix(tok, "--") {
				if _, ok := g.resolve(strings.SplitN(tok[2:], "=", 2)[0]); !ok {
					return fail(Err{Code: "unknown", Name: dashed(strings.SplitN(tok[2:], "=", 2)[0])})
				}
			}
			return fail(Err{Code: "flagafterarg"})
		}
		inRun = false
		i++
		if strings.HasPrefix(tok, "--") {
			name, value, hasValue := strings.Cut(tok[2:], "=")
			f, ok := g.resolve(name)
			if !ok {
				return fail(Err{Code: "unknown", Name: dashed(name), Remaining: append([]string{dashed(name)}, tokens[i:]...)})
			}
			if hasValue {
				add(f.Name, "--"+name, value)
				continue
			}
			vals, n, ok := takeValues(f.Count, tokens[i:])
			if !ok {
				return fail(Err{Code: "expected", Name: dashed(name), Remaining: append([]string{dashed(name)}, tokens[i:]...)})
			}
			add(f.Name, append([]string{dashed(name)}, vals...)...)
			i += n
			continue
		}

		cluster := tok[1:]
		for len(cluster) > 0 {
			r := []rune(cluster)
			c := string(r[0])
			rest := string(r[1:])
			f, ok := g.resolve(c)
			if !ok {
				n := "-" + c
				if c == "-" {
					n = ""
				}
				return fail(Err{Code: "unknown", Name: n, Remaining: append([]string{"-" + cluster}, tokens[i:]...)})
			}
			if rest != "" {
				t := take{Count: f.Count}
				if t.offer(rest, false) == yes {
					if !t.satisfied() {
						res.ImpreciseErr = true
						return fail(Err{Code: "expected"})
					}
					add(f.Name, "-"+c, rest)
					break
				}
				if rest[0] == '=' {
					return fail(Err{Code: "invalid", Name: "-" + c, Token: rest, Remaining: append([]string{"-" + c + rest}, tokens[i:]...)})
				}
				add(f.Name, "-"+c, "")
				cluster = rest
				continue
			}
			if f.Optional {
				add(f.Name, "-"+c, "")
				break
			}
			vals, n, ok := takeValues(f.Count, tokens[i:])
			if !ok {
				return fail(Err{Code: "expected", Name: dashed(f.Name), Remaining: append([]string{"-" + c}, tokens[i:]...)})
			}
			add(f.Name, append([]string{"-" + c}, vals...)...)
			i += n
			break
		}
	}

	for first := cur; cur < len(takers); cur++ {
		if !curDone() {
			res.NamesMissing = inRun || cur > first
			return missing()
		}
	}
	return res
}

func takeValues(c Count, tokens []string) (vals []string, n int, ok bool) {
	t := &take{Count: c}
	for _, tok := range tokens {
		if t.offer(tok, true) != yes {
			break
		}
		vals = append(vals, tok)
		n++
	}
	if len(vals) == 0 {
		vals = []string{""}
	}
	return vals, n, t.satisfied()
}
