package ext

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// point is a custom value, which also checks its text
type point struct{ X, Y int }

func (p *point) Set(s string) error {
	if n, err := fmt.Sscanf(s, "%dx%d", &p.X, &p.Y); n != 2 || err != nil {
		return errors.New("not a point")
	}
	return nil
}
func (p *point) String() string { return fmt.Sprintf("%dx%d", p.X, p.Y) }

// word reads text
type word struct{ W string }

func (w *word) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "!") {
		return errors.New("not a word")
	}
	w.W = "<" + string(b) + ">"
	return nil
}

type target struct {
	Str    string
	Bool   bool
	Int    int
	Int8   int8
	Int64  int64
	Uint   uint
	Uint16 uint16
	F32    float32
	F64    float64
	Dur    time.Duration
	BigI   *big.Int
	BigF   *big.Float
	IP     net.IP
	List   []string
	Re     *regexp.Regexp
	URL    *url.URL
	Point  *point
	Word   *word
	Plain  word
	Named  string `mapstructure:"other-name"`
}

// fields gives the texts that are tried for each of the fields
var structFields = []struct {
	name, key string
	text      []string
}{
	{"Str", "Str", []string{"x", "", "a=b", "a b", "é", "0", "a:b", "-1"}},
	{"Bool", "Bool", []string{"true", "false", "1", "0", "T", "yes", "x", "2"}},
	{"Int", "Int", []string{"0", "-5", "480", "0x1F", "0b11", "1_000", "017", "9223372036854775808", "x", "1.5", "1e3"}},
	{"Int8", "Int8", []string{"127", "128", "-128", "-129", "0x7F", "300"}},
	{"Int64", "Int64", []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "+4"}},
	{"Uint", "Uint", []string{"0", "1", "-1", "18446744073709551615", "18446744073709551616", "0x10"}},
	{"Uint16", "Uint16", []string{"65535", "65536", "0o17", "-0", "+1"}},
	{"F32", "F32", []string{"1.5", "3.4e38", "3.5e38", "1e-50", "nan", "-inf", "x", "0x1p4"}},
	{"F64", "F64", []string{"1.5", "1e308", "1e309", "-.5", "1e", "Inf", "1,5"}},
	{"Dur", "Dur", []string{"1s", "1h30m", "5", "0", "-2ms", "1x", "1.5s"}},
	{"BigI", "BigI", []string{"22", "-123456789012345678901234567890", "x", "1.5"}},
	{"BigF", "BigF", []string{"-150.25", "1e400", "x", "0.5"}},
	{"IP", "IP", []string{"127.0.0.1", "::1", "1.2.3", "256.0.0.1", "x", "fe80::1"}},
	{"List", "List", []string{"a", "a,b,c", "a,b", "x y"}},
	{"Re", "Re", []string{"[a-z]+", "a{2}", "(", "a.*b$", "^$"}},
	{"URL", "URL", []string{"http://x.example/?a=b#c", "/p", "http://[::1", "a:b", "%zz"}},
	{"Point", "Point", []string{"1x2", "-1x5", "1", "x"}},
	{"Word", "Word", []string{"w", "a!", "a b", "é"}},
	{"Plain", "Plain", []string{"w", "a!", "a b", "é"}},
	{"Named", "other-name", []string{"x", "y=z"}},
}

// setField is the model: the text is set as of a flag with the type of the field
func setField(dest *target, name, text string) error {
	f := reflect.ValueOf(dest).Elem().FieldByName(name)
	switch v := f.Addr().Interface().(type) {
	case *[]string:
		*v = strings.Split(text, ",")
		return nil
	case **point:
		n := new(point)
		if *v != nil {
			n = *v
		}
		if err := n.Set(text); err != nil {
			return err
		}
		*v = n
		return nil
	case **word:
		n := new(word)
		if err := n.UnmarshalText([]byte(text)); err != nil {
			return err
		}
		*v = n
		return nil
	case *word:
		return v.UnmarshalText([]byte(text))
	default:
		n := reflect.New(f.Type())
		if err := cli.Set(n.Interface(), text); err != nil {
			return err
		}
		f.Set(n.Elem())
		return nil
	}
}

func showTarget(t *target) string {
	var b strings.Builder
	v := reflect.ValueOf(t).Elem()
	for i := range v.NumField() {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && f.IsNil() {
			continue
		}
		switch x := f.Interface().(type) {
		case *big.Float:
			fmt.Fprintf(&b, "%s=%s ", v.Type().Field(i).Name, x.Text('g', 14))
		case *word:
			fmt.Fprintf(&b, "%s=%q ", v.Type().Field(i).Name, x.W)
		case word:
			fmt.Fprintf(&b, "%s=%q ", v.Type().Field(i).Name, x.W)
		case fmt.Stringer:
			fmt.Fprintf(&b, "%s=%s ", v.Type().Field(i).Name, x)
		default:
			if f.IsZero() {
				continue
			}
			fmt.Fprintf(&b, "%s=%#v ", v.Type().Field(i).Name, x)
		}
	}
	return b.String()
}

// TestP25_Structure: fields are set as flags of the same type, the others are kept
func TestP25_Structure(t *testing.T) {
	pbt.Run(t, "two or more fields are set, or a text is not valid", 8000, func(c *pbt.C) {
		got, want := new(target), new(target)
		// fields which have a value from the start
		if rapid.Bool().Draw(c.T, "init") {
			for _, tt := range []*target{got, want} {
				tt.Str, tt.Int, tt.List = "s", 7, []string{"l", "m", "n"}
				tt.Point, tt.Word = &point{1, 1}, &word{"init"}
				tt.Re = regexp.MustCompile("init")
				tt.BigI = big.NewInt(1)
			}
		}
		value := structure.Of(got)
		unused := rapid.IntRange(0, 3).Draw(c.T, "unused") == 0
		if unused {
			value.WithOptions(structure.ErrorUnused)
		}
		disableSplitting := rapid.Bool().Draw(c.T, "disable")
		via := rapid.SampledFrom([]string{"Set", "flag", "arg"}).Draw(c.T, "via")
		c.Label("%s", via)

		var texts []string
		wantErr := false
		total := 0
		for range rapid.IntRange(1, 4).Draw(c.T, "occurrences") {
			n := 1
			if !disableSplitting {
				n = rapid.IntRange(1, 3).Draw(c.T, "n")
			}
			var items []string
			keys := map[string]bool{}
			for range n {
				if rapid.IntRange(0, 19).Draw(c.T, "other") == 0 {
					if keys["nope"] {
						continue
					}
					keys["nope"] = true
					items = append(items, "nope=1")
					if unused {
						wantErr = true
					}
					continue
				}
				f := structFields[rapid.IntRange(0, len(structFields)-1).Draw(c.T, "field")]
				if keys[f.name] {
					continue
				}
				keys[f.name] = true
				text := rapid.SampledFrom(f.text).Draw(c.T, "text")
				if f.name == "Str" && disableSplitting && rapid.Bool().Draw(c.T, "comma") {
					text = rapid.SampledFrom([]string{"a,Int=3", "a,b", ",", "x,nope=1"}).Draw(c.T, "text with comma")
				}
				if setField(new(target), f.name, text) != nil && rapid.IntRange(0, 4).Draw(c.T, "valid") > 0 {
					text = f.text[0]
				}
				key := f.key
				switch rapid.IntRange(0, 5).Draw(c.T, "case") {
				case 0:
					key = strings.ToLower(key)
				case 1:
					key = strings.ToUpper(key)
				}
				items = append(items, key+"="+text)
				if !wantErr {
					if err := setField(want, f.name, text); err != nil {
						wantErr = true
					}
				}
			}
			if len(items) == 0 {
				continue
			}
			total += len(items)
			texts = append(texts, strings.Join(items, ","))
			if wantErr {
				break
			}
		}
		if total > 1 || wantErr {
			c.NonTrivial()
		}
		c.Showf("%s disable splitting %v unused %v: %q", via, disableSplitting, unused, texts)
		if len(texts) == 0 {
			return
		}
		var err error
		var fromContext any
		switch via {
		case "Set":
			if disableSplitting {
				value.DisableSplitting()
			}
			err = cli.Set(value, texts...)
			fromContext = got
			if v := (cli.LookupValues{"v": value}).Value("v"); v != any(got) {
				c.Failf("the lookup gives %v", v)
			}
		default:
			app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func(ctx *cli.Context) {
				fromContext = ctx.Value("v")
			}}
			var opts cli.Option
			if disableSplitting {
				opts = cli.DisableSplitting
			}
			args := []string{"app"}
			if via == "flag" {
				app.Flags = []*cli.Flag{{Name: "v", Value: value, Options: opts}}
				for _, s := range texts {
					args = append(args, "-v", s)
				}
			} else {
				app.Args = []*cli.Arg{{Name: "v", Value: value, Options: opts, NArg: cli.TakeUntilNextFlag}}
				args = append(args, texts...)
			}
			err = app.RunContext(context.Background(), args)
		}
		if wantErr {
			c.Label("error")
			if err == nil {
				c.Failf("no error; %s", showTarget(got))
			}
			return
		}
		if err != nil {
			c.Failf("error: %v", err)
		}
		if fromContext != any(got) {
			c.Failf("the context gives %v", fromContext)
		}
		if g, w := showTarget(got), showTarget(want); g != w {
			c.Failf("got      %s\nexpected %s", g, w)
		}
	})
}
