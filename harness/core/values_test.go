package core

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/netip"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// scalar is one of the built-in value types that hold a single value.
type scalar struct {
	name string
	make func() any // a destination that already holds a value
	// want is the value for the text by an independent reading of it; ok is
	// false where the text is not valid
	want func(text string) (v any, ok bool)
	gen  *rapid.Generator[string]
	get  func(c *cli.Context, name any) any
}

var numberText = rapid.OneOf(
	rapid.Map(rapid.Int64(), func(i int64) string { return strconv.FormatInt(i, 10) }),
	rapid.Map(rapid.Uint64(), func(i uint64) string { return strconv.FormatUint(i, 10) }),
	rapid.Map(rapid.IntRange(-300, 300), strconv.Itoa),
	rapid.SampledFrom([]string{
		"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
		"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
		"18446744073709551615", "18446744073709551616", "", " 1", "1 ", "+1", "-0", "0x", "0x1F", "0X1f", "-0x80",
		"017", "0o17", "0b101", "0b102", "08", "1_000", "0x_1", "_1", "1e3", "0.0", ".5", "-", "+", "--1", "１",
		"99999999999999999999", "-99999999999999999999", "NaN", "Inf", "-inf", "1e400", "1e39", "-1e39", "1e-400", "0x1p4",
	}),
	rapid.StringMatching(`[+-]?(0[xob]?)?[0-9a-f_]{1,6}`),
	rapid.StringMatching(`[a-z0-9.+-]{0,4}`),
)

func validInt(text string, bits int, signed bool) (*big.Int, bool) {
	if !signed && (strings.HasPrefix(text, "+") || strings.HasPrefix(text, "-")) {
		return nil, false
	}
	i, ok := new(big.Int).SetString(text, 0)
	if !ok {
		return nil, false
	}
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return i, i.Cmp(lo) >= 0 && i.Cmp(hi) < 0
}

func intScalar[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](name string, bits int, signed bool, get func(*cli.Context, any) any) scalar {
	return scalar{
		name: name,
		make: func() any { v := new(T); *v = 77; return v },
		want: func(s string) (any, bool) {
			i, ok := validInt(s, bits, signed)
			if !ok {
				return nil, false
			}
			if signed {
				return T(i.Int64()), true
			}
			return T(i.Uint64()), true
		},
		gen: numberText,
		get: get,
	}
}

var durations = rapid.OneOf(
	rapid.Map(rapid.Int64(), func(i int64) string { return time.Duration(i).String() }),
	rapid.Map(rapid.Int64Range(-1e12, 1e12), func(i int64) string { return time.Duration(i).String() }),
	rapid.SampledFrom([]string{"", "1", "1d", "1h1", "s", "-1.5h", "+5m", "1h2m3s4ms5us6ns", "0", "9999999999h", "1µs", " 1s"}),
)

var scalars = []scalar{
	{
		name: "bool",
		make: func() any { v := new(bool); *v = true; return v },
		want: func(s string) (any, bool) {
			for _, t := range []string{"", "1", "true", "on", "t"} {
				if len(t) == len(s) && strings.EqualFold(t, s) {
					return true, true
				}
			}
			for _, t := range []string{"0", "false", "off", "f"} {
				if len(t) == len(s) && strings.EqualFold(t, s) {
					return false, true
				}
			}
			return nil, false
		},
		gen: rapid.OneOf(rapid.SampledFrom([]string{"", "1", "0", "true", "false", "TRUE", "False", "on", "off", "ON", "oFf", "t", "f", "T", "F", "yes", "no", "2", " ", "tru", "10", "00", "o"}),
			rapid.StringMatching(`[truefalson01]{0,5}`)),
		get: func(c *cli.Context, n any) any { return c.Bool(n) },
	},
	intScalar[int]("int", strconv.IntSize, true, func(c *cli.Context, n any) any { return c.Int(n) }),
	intScalar[int8]("int8", 8, true, func(c *cli.Context, n any) any { return c.Int8(n) }),
	intScalar[int16]("int16", 16, true, func(c *cli.Context, n any) any { return c.Int16(n) }),
	intScalar[int32]("int32", 32, true, func(c *cli.Context, n any) any { return c.Int32(n) }),
	intScalar[int64]("int64", 64, true, func(c *cli.Context, n any) any { return c.Int64(n) }),
	intScalar[uint]("uint", strconv.IntSize, false, func(c *cli.Context, n any) any { return c.Uint(n) }),
	intScalar[uint8]("uint8", 8, false, func(c *cli.Context, n any) any { return c.Uint8(n) }),
	intScalar[uint16]("uint16", 16, false, func(c *cli.Context, n any) any { return c.Uint16(n) }),
	intScalar[uint32]("uint32", 32, false, func(c *cli.Context, n any) any { return c.Uint32(n) }),
	intScalar[uint64]("uint64", 64, false, func(c *cli.Context, n any) any { return c.Uint64(n) }),
	{
		name: "float32",
		make: func() any { v := new(float32); *v = 7.5; return v },
		want: func(s string) (any, bool) { f, err := strconv.ParseFloat(s, 32); return float32(f), err == nil },
		gen:  rapid.OneOf(numberText, rapid.Map(rapid.Float32(), func(f float32) string { return strconv.FormatFloat(float64(f), 'g', -1, 32) })),
		get:  func(c *cli.Context, n any) any { return c.Float32(n) },
	},
	{
		name: "float64",
		make: func() any { v := new(float64); *v = 7.5; return v },
		want: func(s string) (any, bool) { f, err := strconv.ParseFloat(s, 64); return f, err == nil },
		gen:  rapid.OneOf(numberText, rapid.Map(rapid.Float64(), func(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) })),
		get:  func(c *cli.Context, n any) any { return c.Float64(n) },
	},
	{
		name: "duration",
		make: func() any { v := new(time.Duration); *v = time.Minute; return v },
		want: func(s string) (any, bool) { d, err := time.ParseDuration(s); return d, err == nil },
		gen:  durations,
		get:  func(c *cli.Context, n any) any { return c.Duration(n) },
	},
	{
		name: "url",
		make: func() any { u, _ := url.Parse("http://before"); return &u },
		want: func(s string) (any, bool) { u, err := url.Parse(s); return u, err == nil },
		gen: rapid.OneOf(rapid.StringMatching(`https?://[a-z]{1,4}(:[0-9]{1,3})?/[a-z%?#=&]{0,6}`),
			rapid.SampledFrom([]string{"", ":", "://", "a b", "http://[::1", "%zz", "http://a:b/", "mailto:x@y", "\x7f"})),
		get: func(c *cli.Context, n any) any { return c.URL(n) },
	},
	{
		name: "ip",
		make: func() any { ip := net.ParseIP("10.9.8.7"); return &ip },
		want: func(s string) (any, bool) {
			a, err := netip.ParseAddr(s)
			if err != nil || a.Zone() != "" {
				return nil, false
			}
			b := a.As16()
			return net.IP(b[:]), true
		},
		gen: rapid.OneOf(rapid.StringMatching(`[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,2}\.[0-9]`), rapid.StringMatching(`[0-9a-f]{1,4}::?[0-9a-f]{0,4}`),
			rapid.SampledFrom([]string{"", "::1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "fe80::1%eth0", "::ffff:1.2.3.4", "256.1.1.1", " 1.2.3.4"})),
		get: func(c *cli.Context, n any) any { return c.IP(n) },
	},
	{
		name: "regexp",
		make: func() any { r := regexp.MustCompile("before"); return &r },
		want: func(s string) (any, bool) { r, err := regexp.Compile(s); return r, err == nil },
		gen:  rapid.OneOf(rapid.StringMatching(`[a-c.*+?()\[\]|\\]{0,6}`)),
		get:  func(c *cli.Context, n any) any { return c.Regexp(n) },
	},
	{
		name: "bigint",
		make: func() any { b := big.NewInt(77); return &b },
		want: func(s string) (any, bool) {
			if !regexp.MustCompile(`^[+-]?[0-9]+$`).MatchString(s) {
				return nil, false
			}
			sum := new(big.Int)
			for _, r := range strings.TrimLeft(s, "+-") {
				sum.Mul(sum, big.NewInt(10)).Add(sum, big.NewInt(int64(r-'0')))
			}
			if s[0] == '-' {
				sum.Neg(sum)
			}
			return sum, true
		},
		gen: rapid.OneOf(numberText, rapid.StringMatching(`[+-]?[0-9]{1,40}`)),
		get: func(c *cli.Context, n any) any { return c.BigInt(n) },
	},
	{
		name: "bigfloat",
		make: func() any { b := big.NewFloat(7.5); return &b },
		want: func(s string) (any, bool) {
			f, _, err := new(big.Float).SetPrec(53).SetMode(big.ToZero).Parse(s, 10)
			return f, err == nil
		},
		gen: rapid.OneOf(numberText, rapid.StringMatching(`[+-]?[0-9]{1,20}\.[0-9]{0,20}(e[+-]?[0-9]{1,2})?`)),
		get: func(c *cli.Context, n any) any { return c.BigFloat(n) },
	},
}

// current is the value a destination holds, in a form that can be compared.
func current(dest any) any {
	return comparable(reflect.ValueOf(dest).Elem().Interface())
}

func comparable(v any) any {
	switch x := v.(type) {
	case *url.URL:
		if x == nil {
			return nil
		}
		return x.String()
	case *regexp.Regexp:
		if x == nil {
			return nil
		}
		return x.String()
	case *big.Int:
		if x == nil {
			return nil
		}
		return x.String()
	case *big.Float:
		if x == nil {
			return nil
		}
		return x.Text('p', 0)
	case net.IP:
		return x.String()
	case float32:
		return math.Float32bits(x)
	case float64:
		if math.IsNaN(x) {
			return "NaN"
		}
		return math.Float64bits(x)
	}
	return v
}

// TestP04_Scalars: a text is accepted or rejected, and converted, as its type
// says, whichever way it reaches the value.
func TestP04_Scalars(t *testing.T) {
	pbt.Run(t, "a built-in type, a text biased to the bounds of the types, and a way to set it; non-trivial: the text is not a plain valid decimal",
		30000, func(c *pbt.C) {
			s := rapid.SampledFrom(scalars).Draw(c.T, "type")
			text := s.gen.Draw(c.T, "text")
			way := rapid.SampledFrom([]string{"Set", "SetData string", "SetData reader", "SetData bytes", "flag", "flag space", "arg", "short"}).Draw(c.T, "way")
			c.Showf("%s %q by %s", s.name, text, way)
			dest := s.make()
			before := current(dest)
			want, ok := s.want(text)
			c.Label("%s valid=%v", s.name, ok)
			if !regexp.MustCompile(`^[1-9][0-9]{0,1}$`).MatchString(text) {
				c.NonTrivial()
			}
			var err error
			ran := ok
			switch way {
			case "Set":
				err = cli.Set(dest, text)
			case "SetData string":
				err = cli.SetData(dest, text)
			case "SetData reader":
				err = cli.SetData(dest, strings.NewReader(text))
			case "SetData bytes":
				err = cli.SetData(dest, []byte(text))
			default:
				app := newApp("app")
				ran = false
				check := func(ctx *cli.Context) {
					ran = true
					got := []any{s.get(ctx, "value"), ctx.Value("value"), s.get(ctx, "value")}
					for _, g := range got {
						if ok && comparable(g) != comparable(want) {
							c.Failf("the context has %v (%T), want %v", g, g, want)
						}
					}
				}
				app.Action = check
				if way == "arg" && text != "--" {
					app.Args = []*cli.Arg{{Name: "value", Value: dest}}
					err = run(app, "--", text)
				} else {
					app.Flags = []*cli.Flag{{Name: "value", Aliases: []string{"n"}, Value: dest}}
					isBool := s.name == "bool"
					switch {
					case way == "flag" || isBool:
						err = run(app, "--value="+text)
					case way == "short" && text != "":
						err = run(app, "-n"+text)
					default:
						err = run(app, "--value", text)
					}
				}
			}
			if ok {
				if err != nil {
					c.Failf("rejected: %v", err)
				}
				if !ran {
					c.Failf("the action did not run")
				}
				if current(dest) != comparable(want) {
					c.Failf("value is %v, want %v", current(dest), comparable(want))
				}
				return
			}
			if err == nil {
				c.Failf("accepted as %v", current(dest))
			}
			if ran {
				c.Failf("the action ran in spite of %v", err)
			}
			if current(dest) != before {
				c.Failf("rejected (%v), but the value went from %v to %v", err, before, current(dest))
			}
		})
}

// TestP04_Quote: the text form of a scalar sets a value equal to it.
func TestP04_Quote(t *testing.T) {
	pbt.Run(t, "a built-in type and a valid text; Quote of the value is set on another one; non-trivial: all", 6000, func(c *pbt.C) {
		s := rapid.SampledFrom(scalars).Draw(c.T, "type")
		text := s.gen.Draw(c.T, "text")
		c.Showf("%s %q", s.name, text)
		a := s.make()
		if cli.Set(a, text) != nil {
			return
		}
		c.NonTrivial()
		if s.name == "bigfloat" {
			return // printed with ten digits
		}
		b := s.make()
		q := cli.Quote(a)
		if s.name == "float32" || s.name == "float64" || s.name == "url" || s.name == "regexp" {
			// fmt.Sprint of these is their text
			q = fmt.Sprint(reflect.ValueOf(a).Elem().Interface())
			if got := cli.Quote(a); got != q {
				c.Failf("Quote is %q, want %q", got, q)
			}
		}
		if err := cli.Set(b, q); err != nil {
			if s.name == "url" {
				return
			}
			c.Failf("Quote gives %q, which is rejected: %v", q, err)
		}
		if s.name != "url" && current(a) != current(b) {
			c.Failf("Quote gives %q, which sets %v, not %v", q, current(b), current(a))
		}
	})
}

// TestP04_Bytes: hex text appends bytes.
func TestP04_Bytes(t *testing.T) {
	pbt.Run(t, "hex texts set on bytes one after the other; non-trivial: at least two texts or an invalid one", 4000, func(c *pbt.C) {
		texts := rapid.SliceOfN(rapid.OneOf(
			rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 4), hex.EncodeToString),
			rapid.StringMatching(`[0-9a-fA-Fg]{0,5}`)), 1, 4).Draw(c.T, "texts")
		c.Showf("%q", texts)
		dest := cli.Bytes()
		var want []byte
		for _, s := range texts {
			ok := len(s)%2 == 0 && !strings.Contains(s, "g")
			if ok {
				for i := 0; i < len(s); i += 2 {
					n, _ := strconv.ParseUint(s[i:i+2], 16, 8)
					want = append(want, byte(n))
				}
			}
			if !ok || len(texts) > 1 {
				c.NonTrivial()
			}
			err := cli.Set(dest, s)
			if (err == nil) != ok {
				c.Failf("%q: error %v, want ok=%v", s, err, ok)
			}
			if !bytes.Equal(*dest, want) {
				c.Failf("after %q: %x, want %x", s, *dest, want)
			}
		}
		if cli.Quote(*dest) != hex.EncodeToString(want) {
			c.Failf("Quote is %q for %x", cli.Quote(*dest), want)
		}
		raw := rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(c.T, "raw")
		if err := cli.SetData(dest, raw); err != nil {
			c.Failf("SetData: %v", err)
		}
		if err := cli.SetData(dest, bytes.NewReader(raw)); err != nil {
			c.Failf("SetData: %v", err)
		}
		if want = append(append(want, raw...), raw...); !bytes.Equal(*dest, want) {
			c.Failf("after SetData of %x twice: %x, want %x", raw, *dest, want)
		}
	})
}
