package text

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/value"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// run parses the arguments with one flag of the given value
func run(f *cli.Flag, fsys fstest.MapFS, args ...string) error {
	var out bytes.Buffer
	app := &cli.App{
		Name:   "app",
		Flags:  []*cli.Flag{f},
		Stdout: &out,
		Stderr: &out,
		Action: func() {},
	}
	if fsys != nil {
		app.FS = fsys
	}
	return app.RunContext(nil2(), append([]string{"app"}, args...))
}

var intGen = rapid.OneOf(rapid.Int(), rapid.IntRange(-40, 300), rapid.SampledFrom([]int{0, 1, -1, 7, 8, 15, 16, 255, 256, 1<<31 - 1, 1 << 31, 1<<63 - 1, -1 << 63}))

// numberText is the text of a number in the base, or something close to one
func numberText(c *pbt.C, base int, prefix, digits string) string {
	var b strings.Builder
	b.WriteString(rapid.SampledFrom([]string{"", "", "", "-", "+", " "}).Draw(c.T, "sign"))
	b.WriteString(rapid.SampledFrom([]string{"", "", prefix, prefix, "0b", strings.ToUpper(prefix), prefix + prefix}).Draw(c.T, "prefix"))
	b.WriteString(rapid.SampledFrom([]string{"", "", "", "-", "0"}).Draw(c.T, "inner"))
	for i, n := 0, rapid.IntRange(0, 18).Draw(c.T, "n"); i < n; i++ {
		b.WriteString(string(rapid.SampledFrom([]rune(digits)).Draw(c.T, "digit")))
	}
	b.WriteString(rapid.SampledFrom([]string{"", "", "", "", "", "g", "9", "_", " ", "."}).Draw(c.T, "tail"))
	return b.String()
}

// TestP20_Radix: hexadecimal and octal numbers
func TestP20_Radix(t *testing.T) {
	pbt.Run(t, "a number is read back from its text, or a text is rejected", 8000, func(c *pbt.C) {
		hex := rapid.Bool().Draw(c.T, "hex")
		base, prefix, digits := 8, "0o", "01234567"
		if hex {
			base, prefix, digits = 16, "0x", "0123456789abcdefABCDEF"
		}
		var text string
		roundtrip := rapid.Bool().Draw(c.T, "roundtrip")
		n := intGen.Draw(c.T, "n")
		if roundtrip {
			if hex {
				text = value.Hex(n).String()
			} else {
				text = value.Octal(n).String()
			}
		} else {
			text = numberText(c, base, prefix, digits)
		}
		c.Showf("base %d: %q", base, text)

		want, wantErr := strconv.ParseInt(strings.TrimPrefix(text, prefix), base, 64)
		if roundtrip {
			if !strings.HasPrefix(text, prefix) {
				c.Failf("no prefix in the text of %d: %q", n, text)
			}
			want, wantErr = int64(n), nil
		}
		var got int64
		var err error
		if hex {
			v := new(value.Hex)
			err = run(&cli.Flag{Name: "v", Value: v}, nil, "--v="+text)
			got = int64(*v)
		} else {
			v := new(value.Octal)
			err = run(&cli.Flag{Name: "v", Value: v}, nil, "--v="+text)
			got = int64(*v)
		}
		if roundtrip && n != 0 || !roundtrip && (wantErr != nil || strings.HasPrefix(text, prefix)) {
			c.NonTrivial()
		}
		if (err != nil) != (wantErr != nil) {
			c.Failf("error %v, expected %v", err, wantErr)
		}
		if err == nil && got != want {
			c.Failf("got %d, expected %d", got, want)
		}
		if err != nil {
			c.Label("rejected")
			if text != "" && !strings.Contains(err.Error(), text) {
				c.Failf("the error does not name the text: %v", err)
			}
		} else {
			c.Label("accepted")
		}
	})
}

var byteUnits = map[string]*big.Int{}

func init() {
	for i, u := range []string{"k", "M", "G", "T", "P", "E", "Z", "Y", "R", "Q"} {
		e := big.NewInt(int64(i + 1))
		byteUnits[u] = new(big.Int).Exp(big.NewInt(1000), e, nil)
		byteUnits[u+"i"] = new(big.Int).Exp(big.NewInt(1024), e, nil)
	}
	byteUnits["K"] = byteUnits["k"]
	byteUnits["Ki"] = byteUnits["ki"]
}

// TestP20_ByteLength: lengths in bytes
func TestP20_ByteLength(t *testing.T) {
	units := []string{"k", "K", "ki", "Ki", "M", "Mi", "G", "Gi", "T", "Ti", "P", "Pi", "E", "Ei", "Z", "Zi", "Y", "Yi", "R", "Ri", "Q", "Qi"}
	pbt.Run(t, "a length has a unit or is malformed", 20000, func(c *pbt.C) {
		var num string
		fraction := false
		switch rapid.IntRange(0, 4).Draw(c.T, "numkind") {
		case 0, 1:
			num = strconv.Itoa(rapid.IntRange(0, 5000).Draw(c.T, "int"))
		case 2:
			num = strconv.FormatInt(rapid.Int64Range(0, 1<<53).Draw(c.T, "int"), 10)
		default:
			num = fmt.Sprintf("%d.%d", rapid.IntRange(0, 2000).Draw(c.T, "whole"), rapid.IntRange(0, 999).Draw(c.T, "frac"))
			fraction = true
		}
		unit := ""
		if rapid.IntRange(0, 6).Draw(c.T, "unit?") > 0 {
			unit = rapid.SampledFrom(units).Draw(c.T, "unit")
		}
		suffix := "B"
		if unit == "" && rapid.Bool().Draw(c.T, "plain") {
			suffix = ""
		}
		good := true
		text := num + rapid.SampledFrom([]string{"", "", " ", "  "}).Draw(c.T, "space")
		if suffix == "" {
			text = num
		}
		text += unit + suffix
		text = rapid.SampledFrom([]string{"", "", "", " "}).Draw(c.T, "lead") + text + rapid.SampledFrom([]string{"", "", "", " "}).Draw(c.T, "trail")
		if rapid.IntRange(0, 3).Draw(c.T, "mangle") == 3 {
			good = false
			i := rapid.IntRange(0, len(text)).Draw(c.T, "at")
			bad := rapid.SampledFrom([]string{"x", "e3", "-", "..", "B", "k", "1 ", "_", "0x", "i"}).Draw(c.T, "bad")
			text = text[:i] + bad + text[i:]
		}
		c.Showf("%q", text)
		got, err := value.ParseByteLength(text)
		var v value.ByteLength
		if uerr := v.UnmarshalText([]byte(text)); (uerr != nil) != (err != nil) || uerr == nil && int(v) != got {
			c.Failf("UnmarshalText gives %d, %v; ParseByteLength gives %d, %v", v, uerr, got, err)
		}

		// the reference: what follows the grammar has its exact value
		want, ok := referenceByteLength(text)
		if ok && want.Cmp(big.NewRat(1<<62, 1)) > 0 {
			c.Label("out of range") // what happens then is not claimed
			return
		}
		if good && !fraction && !ok && unit == "" {
			c.Failf("the reference is wrong about %q", text)
		}
		if !ok {
			c.NonTrivial()
			c.Label("malformed")
			if err == nil {
				c.Failf("accepted as %d", got)
			}
			return
		}
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		if unit != "" {
			c.NonTrivial()
			c.Label("unit")
		}
		diff := new(big.Rat).Sub(want, new(big.Rat).SetInt64(int64(got)))
		tol := big.NewRat(1, 1)
		if t := new(big.Rat).Mul(want, big.NewRat(1, 1<<51)); t.Cmp(tol) > 0 {
			tol = t // floating point
		}
		if want.IsInt() && want.Cmp(big.NewRat(1<<53, 1)) <= 0 && !fraction {
			tol = new(big.Rat)
		}
		if diff.Abs(diff).Cmp(tol) > 0 {
			c.Failf("got %d, expected %s", got, want.FloatString(2))
		}
	})
}

// referenceByteLength reads number, spaces, unit, and B; or an integer alone
func referenceByteLength(s string) (*big.Rat, bool) {
	s = strings.TrimSpace(s)
	body, hasB := strings.CutSuffix(s, "B")
	if !hasB {
		n, err := strconv.Atoi(s)
		return new(big.Rat).SetInt64(int64(n)), err == nil
	}
	end := 0
	for end < len(body) && (body[end] >= '0' && body[end] <= '9' || body[end] == '.') {
		end++
	}
	num, unit := body[:end], strings.TrimLeft(body[end:], " ")
	if num == "" || num == "." || strings.Count(num, ".") > 1 {
		return nil, false
	}
	if unit == "" {
		n, err := strconv.Atoi(num)
		return new(big.Rat).SetInt64(int64(n)), err == nil
	}
	m, ok := byteUnits[unit]
	if !ok {
		return nil, false
	}
	r, ok := new(big.Rat).SetString(num)
	if !ok {
		return nil, false
	}
	r.Mul(r, new(big.Rat).SetInt(m))
	return r, true
}

type doc struct {
	Name  string            `json:"name"`
	N     int               `json:"n"`
	Tags  []string          `json:"tags"`
	Extra map[string]string `json:"extra"`
	Sub   *doc              `json:"sub"`
}

var docGen = rapid.Custom(func(t *rapid.T) *doc { return drawDoc(t, 2) })

func drawDoc(t *rapid.T, depth int) *doc {
	d := &doc{
		Name: rapid.StringN(0, 6, -1).Draw(t, "name"),
		N:    rapid.Int().Draw(t, "n"),
		Tags: rapid.SliceOfN(rapid.StringN(0, 4, -1), 0, 3).Draw(t, "tags"),
	}
	if rapid.Bool().Draw(t, "extra") {
		d.Extra = rapid.MapOfN(rapid.StringN(1, 3, -1), rapid.StringN(0, 3, -1), 0, 2).Draw(t, "map")
	}
	if depth > 0 && rapid.Bool().Draw(t, "sub") {
		d.Sub = drawDoc(t, depth-1)
	}
	return d
}

// TestP20_JSON: a JSON value is read from a file, and only from one
func TestP20_JSON(t *testing.T) {
	pbt.Run(t, "a document is decoded", 1500, func(c *pbt.C) {
		d := docGen.Draw(c.T, "doc")
		data, _ := json.MarshalIndent(d, "", strings.Repeat(" ", rapid.IntRange(0, 2).Draw(c.T, "indent")))
		valid := true
		if rapid.IntRange(0, 4).Draw(c.T, "cut") == 4 {
			data = data[:rapid.IntRange(0, len(data)-1).Draw(c.T, "len")]
			valid = json.Valid(data)
		}
		at := rapid.Bool().Draw(c.T, "at-file")
		direct := rapid.IntRange(0, 5).Draw(c.T, "direct") == 5
		c.Showf("%s (@file %v, given directly %v)", data, at, direct)
		opt, arg := cli.FileReference, "doc.json"
		if at {
			opt, arg = cli.AllowFileReference, "@doc.json"
		}
		if direct {
			opt, arg = cli.None, string(data)
		}
		var got doc
		v := value.JSON(&got)
		err := run(&cli.Flag{Name: "v", Value: v, Options: opt}, fstest.MapFS{"doc.json": {Data: data}}, "--v", arg)
		if direct {
			if err == nil {
				c.Failf("a struct can not be set from the command line, but no error is given")
			}
			if !reflect.DeepEqual(got, doc{}) {
				c.Failf("set to %+v", got)
			}
			return
		}
		if !valid {
			c.Label("invalid")
			if err == nil {
				c.Failf("accepted as %+v", got)
			}
			return
		}
		if err != nil {
			c.Failf("error: %v", err)
		}
		c.NonTrivial()
		var want doc
		if err := json.Unmarshal(data, &want); err != nil {
			c.Failf("reference: %v", err)
		}
		if !reflect.DeepEqual(got, want) {
			c.Failf("got %+v, expected %+v", got, want)
		}
		if g := v.Get(); g != any(&got) {
			c.Failf("Get gives %v", g)
		}
	})
}

// TestP20_JSONScalar: a JSON value of a type that can be set is set from the command line as well, like the type itself
func TestP20_JSONScalar(t *testing.T) {
	types := []any{false, "", []string(nil), []byte(nil), map[string]string(nil), []*cli.NameValue(nil), 0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0),
		float32(0), 0.0, time.Duration(0), (*url.URL)(nil), net.IP(nil), (*regexp.Regexp)(nil), (*big.Int)(nil), (*big.Float)(nil), value.Hex(0), value.Octal(0), value.ByteLength(0), cli.NameValue{},
		struct{ A int }{}, []int(nil), map[string]int(nil), any(nil)}
	texts := []string{"", "true", "0", "7", "-1", "200", "70000", "1.5", "1h", "a,b", "a=b,c=d", "a=b", "http://h/p", "127.0.0.1", "a+", "[", "0x1F", "0o17", "1kB", "ff00", `"text"`, `["a","b"]`, `{"a":"b"}`, `{"A":3}`, "null", "[1,2]"}
	pbt.Run(t, "a JSON value of every type, given a text on the command line or from a file, compared with Set of the type and package json; non-trivial: it is set", 4000, func(c *pbt.C) {
		i := rapid.IntRange(0, len(types)-1).Draw(c.T, "type")
		typ := reflect.TypeOf(types[i])
		if typ == nil {
			typ = reflect.TypeOf((*any)(nil)).Elem()
		}
		text := rapid.SampledFrom(texts).Draw(c.T, "text")
		file := rapid.Bool().Draw(c.T, "file")
		c.Showf("%v %q, in a file %v", typ, text, file)
		got, want := reflect.New(typ), reflect.New(typ)
		v := value.JSON(got.Interface())
		var err, wantErr error
		if file {
			err = run(&cli.Flag{Name: "v", Value: v, Options: cli.FileReference}, fstest.MapFS{"f": {Data: []byte(text)}}, "--v", "f")
			wantErr = json.Unmarshal([]byte(text), want.Interface())
			if text == "" || strings.Contains(text, ",") || !json.Valid([]byte(text)) && wantErr != nil {
				// what comes after a value is not claimed
				if wantErr != nil && err == nil && text != "" && text[0] != '0' && text[0] != '1' && text[0] != '7' {
					c.Failf("accepted as %v", got.Elem())
				}
				if wantErr != nil {
					return
				}
			}
		} else {
			err = run(&cli.Flag{Name: "v", Value: v}, nil, "--v", text)
			switch typ.Kind() {
			case reflect.Struct:
				if typ != reflect.TypeOf(cli.NameValue{}) {
					wantErr = fmt.Errorf("not from the command line")
				}
			case reflect.Interface:
				wantErr = fmt.Errorf("not from the command line")
			case reflect.Slice:
				if typ.Elem().Kind() == reflect.Int {
					wantErr = fmt.Errorf("not from the command line")
				}
			case reflect.Map:
				if typ.Elem().Kind() == reflect.Int {
					wantErr = fmt.Errorf("not from the command line")
				}
			}
			supported := wantErr == nil
			if supported {
				wantErr = cli.Set(want.Interface(), text)
			} else if s := v.String(); s != "" {
				c.Failf("the text is %q", s)
			}
			if supported && wantErr == nil {
				if s, q := v.String(), cli.Quote(want.Interface()); s != q {
					c.Failf("the text is %q, that of the type is %q", s, q)
				}
			}
		}
		if (err != nil) != (wantErr != nil) {
			c.Failf("error %v, want %v", err, wantErr)
		}
		if err != nil {
			return
		}
		c.NonTrivial()
		c.Label("%v", file)
		if g := v.Get(); g != got.Interface() {
			c.Failf("Get gives %v", g)
		}
		if a, b := fmt.Sprintf("%#v", got.Elem()), fmt.Sprintf("%#v", want.Elem()); a != b && !reflect.DeepEqual(got.Interface(), want.Interface()) && fmt.Sprint(got.Elem()) != fmt.Sprint(want.Elem()) {
			c.Failf("set to %s, want %s", a, b)
		}
	})
}
