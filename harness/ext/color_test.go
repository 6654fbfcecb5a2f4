package ext

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// pty is a terminal; nil if there are none
func pty() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NONBLOCK|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil
	}
	var zero, n int32
	conn, err := m.SyscallConn()
	if err != nil {
		return nil, nil
	}
	ok := true
	conn.Control(func(fd uintptr) {
		_, _, e1 := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero)))
		_, _, e2 := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
		ok = e1 == 0 && e2 == 0
	})
	if !ok {
		m.Close()
		return nil, nil
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil
	}
	return m, s
}

// cell is a character with its attributes, as a terminal shows it
type cell struct {
	r      rune
	fg, bg int
	style  string
}

// screen shows the text like a terminal; end is the state afterwards
func screen(s string) (res []cell, end cell, err error) {
	styles := map[int]bool{}
	cur := cell{fg: 39, bg: 49}
	for len(s) > 0 {
		if rest, ok := strings.CutPrefix(s, "\x1b["); ok {
			code, after, ok := strings.Cut(rest, "m")
			if !ok {
				return nil, cur, fmt.Errorf("control sequence %q", s)
			}
			s = after
			for _, c := range strings.Split(code, ";") {
				n := 0
				if c != "" {
					if n, err = strconv.Atoi(c); err != nil {
						return nil, cur, fmt.Errorf("control sequence %q", code)
					}
				}
				switch {
				case n == 0:
					clear(styles)
					cur.fg, cur.bg = 39, 49
				case n >= 1 && n <= 9:
					styles[n] = true
				case n >= 21 && n <= 29:
					delete(styles, n-20)
				case n >= 30 && n <= 39, n >= 90 && n <= 97:
					cur.fg = n
				case n >= 40 && n <= 49, n >= 100 && n <= 107:
					cur.bg = n
				default:
					return nil, cur, fmt.Errorf("control sequence %q", code)
				}
			}
			var l []int
			for n := range styles {
				l = append(l, n)
			}
			slices.Sort(l)
			cur.style = fmt.Sprint(l)
			if len(l) == 0 {
				cur.style = ""
			}
			continue
		}
		r := []rune(s)[0]
		s = s[len(string(r)):]
		c := cur
		c.r = r
		res = append(res, c)
	}
	return res, cur, nil
}

var colorCodes = map[string]int{"Default": 39, "Black": 30, "Red": 31, "Green": 32, "Yellow": 33, "Blue": 34, "Magenta": 35, "Cyan": 36, "Gray": 37,
	"DarkGray": 90, "BrightRed": 91, "BrightGreen": 92, "BrightYellow": 93, "BrightBlue": 94, "BrightMagenta": 95, "BrightCyan": 96, "White": 97}

var styleCodes = map[string]int{"Bold": 1, "Faint": 2, "Italic": 3, "Underline": 4, "Blink": 5, "Reverse": 7, "Conceal": 8, "Strikethrough": 9}

var styleValues = map[string]cli.Style{"Bold": cli.Bold, "Faint": cli.Faint, "Italic": cli.Italic, "Underline": cli.Underline, "Blink": cli.Blink,
	"Reverse": cli.Reverse, "Conceal": cli.Conceal, "Strikethrough": cli.Strikethrough}

var emojis = map[string]color.Emoji{"Tada": color.Tada, "Fire": color.Fire, "Sparkles": color.Sparkles, "Exclamation": color.Exclamation, "Bulb": color.Bulb,
	"X": color.X, "HeavyCheckMark": color.HeavyCheckMark, "Warning": color.Warning, "Play": color.Play}

// cpart is a part of a template, with how it is shown with color
type cpart struct {
	tpl  string
	want []cell
	skip string // what is only shown with color
}

func keysOf[V any](m map[string]V) (res []string) {
	for k := range m {
		res = append(res, k)
	}
	slices.Sort(res)
	return
}

func drawPart(t *rapid.T) cpart {
	text := rapid.SampledFrom([]string{"x", "two words", "", "日本", "12", " pad ", "a;b[m"}).Draw(t, "text")
	attr := cell{fg: 39, bg: 49}
	var styles []int
	apply := func(name string, bg bool) {
		if bg {
			attr.bg = colorCodes[name] + 10
		} else if n, ok := colorCodes[name]; ok {
			attr.fg = n
		} else {
			if n := styleCodes[name]; !slices.Contains(styles, n) {
				styles = append(styles, n)
			}
		}
	}
	tpl := strconv.Quote(text)
	kinds := []string{"func", "Color", "Background", "Style", "none", "open", "emoji", "first"}
	kind := rapid.SampledFrom(kinds).Draw(t, "part")
	colorName := func() string { return rapid.SampledFrom(keysOf(colorCodes)).Draw(t, "color") }
	p := cpart{}
	switch kind {
	case "none":
	case "emoji":
		n := rapid.SampledFrom(keysOf(emojis)).Draw(t, "emoji")
		for _, r := range string(emojis[n]) {
			p.want = append(p.want, cell{r: r, fg: 39, bg: 49})
		}
		p.skip = string(emojis[n])
		p.tpl = fmt.Sprintf("{{ Emoji %q }}", n)
		return p
	case "first":
		// the first of a list
		p.tpl = fmt.Sprintf("{{ .Items | BoldFirst | Join %[1]q }}{{ .Items | Join %[1]q }}{{ .None | BoldFirst | Join %[1]q }}", ",")
		p.want = []cell{{'p', 39, 49, "[1]"}, {',', 39, 49, ""}, {'q', 39, 49, ""}, {'p', 39, 49, ""}, {',', 39, 49, ""}, {'q', 39, 49, ""}}
		return p
	case "open":
		// a function with no text starts the style, Reset ends it
		if text == "" {
			text, tpl = "y", `"y"`
		}
		if rapid.Bool().Draw(t, "color") {
			n := colorName()
			if n == "Default" {
				n = "Red"
			}
			apply(n, false)
			p.tpl = fmt.Sprintf("{{ %s }}%s{{ %s }}", rapid.SampledFrom([]string{n, fmt.Sprintf("Color %q", n)}).Draw(t, "form"), text,
				rapid.SampledFrom([]string{"ResetColor", "Reset"}).Draw(t, "reset"))
		} else {
			n := rapid.SampledFrom(keysOf(styleCodes)).Draw(t, "style")
			apply(n, false)
			p.tpl = fmt.Sprintf("{{ %s }}%s{{ Reset }}", rapid.SampledFrom([]string{n, fmt.Sprintf("Style %q", n)}).Draw(t, "form"), text)
		}
	default:
		// a chain, which applies to all of the text
		seen := map[string]bool{}
		for range rapid.IntRange(1, 3).Draw(t, "chain") {
			if seen[kind] {
				break
			}
			seen[kind] = true
			fn, names := "", []string{}
			switch kind {
			case "func":
				n := rapid.SampledFrom(append(keysOf(colorCodes), keysOf(styleCodes)...)).Draw(t, "name")
				if n == "Default" {
					n = "Bold"
				}
				if _, ok := colorCodes[n]; ok {
					if seen["Color"] {
						n = "Italic"
					}
					seen["Color"] = true
				}
				fn, names = n, []string{n}
			case "Color":
				n := colorName()
				fn, names = fmt.Sprintf("Color %q", n), []string{n}
			case "Background":
				n := colorName()
				fn = fmt.Sprintf("Background %q", n)
				apply(n, true)
			case "Style":
				for range rapid.IntRange(0, 3).Draw(t, "styles") {
					names = append(names, rapid.SampledFrom(keysOf(styleCodes)).Draw(t, "style"))
				}
				fn = fmt.Sprintf("Style %q", strings.Join(names, rapid.SampledFrom([]string{" ", "  "}).Draw(t, "sep")))
			}
			for _, n := range names {
				apply(n, false)
			}
			if rapid.Bool().Draw(t, "pipe") {
				tpl = tpl + " | " + fn
			} else {
				tpl = fn + " (" + tpl + ")"
			}
			kind = rapid.SampledFrom(kinds[:4]).Draw(t, "kind")
		}
	}
	slices.Sort(styles)
	if len(styles) > 0 {
		attr.style = fmt.Sprint(styles)
	}
	for _, r := range text {
		c := attr
		c.r = r
		p.want = append(p.want, c)
	}
	if p.tpl == "" {
		p.tpl = "{{ " + tpl + " }}"
	}
	return p
}

// a Writer which is not one of cli's
type otherWriter struct{ cli.Writer }

// TestP31_Color: styles are written exactly when color is enabled, as the flags and actions say
func TestP31_Color(t *testing.T) {
	master, slave := pty()
	if slave != nil {
		defer master.Close()
		defer slave.Close()
	}
	defer os.Unsetenv("NO_COLOR")
	defer os.Setenv("TERM", os.Getenv("TERM"))
	pbt.Run(t, "color is changed by the command line or an action, or detected", 5000, func(c *pbt.C) {
		parts := make([]cpart, rapid.IntRange(1, 4).Draw(c.T, "parts"))
		tpl := ""
		for i := range parts {
			parts[i] = drawPart(c.T)
			tpl += parts[i].tpl + "/"
		}
		stdout := rapid.SampledFrom([]string{"tty", "tty", "buffer", "buffer", "cli.NewBuffer", "cli.NewWriter", "other", "file"}).Draw(c.T, "stdout")
		if stdout == "tty" && slave == nil {
			stdout = "buffer"
		}
		term := rapid.SampledFrom([]string{"xterm", "xterm", "xterm", "dumb"}).Draw(c.T, "term")
		noColor := rapid.IntRange(0, 3).Draw(c.T, "noColor") == 0
		os.Setenv("TERM", term)
		os.Unsetenv("NO_COLOR")
		if noColor {
			os.Setenv("NO_COLOR", rapid.SampledFrom([]string{"1", ""}).Draw(c.T, "NO_COLOR"))
		}
		auto := stdout == "tty" && term != "dumb" && !noColor
		enabled := auto
		set := func(m color.Mode) {
			switch m {
			case color.Auto:
				enabled = auto
			default:
				enabled = m == color.Always
			}
		}
		mode := rapid.SampledFrom([]color.Mode{color.Auto, color.Always, color.Never})
		action := func(m color.Mode) cli.Action {
			switch rapid.IntRange(0, 2).Draw(c.T, "form") {
			case 0:
				return color.SetMode(m)
			case 1:
				if m == color.Auto {
					return cli.ActionOf(func(c *cli.Context) { c.AutodetectColor() })
				}
				return cli.ActionOf(func(c *cli.Context) { c.SetColor(m == color.Always) })
			default:
				if m == color.Auto {
					return cli.AutodetectColor()
				}
				return cli.SetColor(m == color.Always)
			}
		}
		changed := false
		maybe := func(label string) cli.Action {
			if rapid.IntRange(0, 2).Draw(c.T, label) != 0 {
				return nil
			}
			m := mode.Draw(c.T, "mode")
			set(m)
			changed = true
			c.Showf("%s: %v", label, m)
			return action(m)
		}
		c.Showf("stdout %s TERM=%s NO_COLOR %v\n%s", stdout, term, noColor, tpl)
		uses := maybe("uses")
		before := maybe("before")
		features := rapid.SampledFrom([]color.Feature{0, color.AllFeatures, color.FlagFeature | color.TemplateFuncs, color.FlagFeature | color.NoFlagFeature | color.TemplateFuncs,
			color.ModeFeature | color.TemplateFuncs, color.NoFlagFeature | color.TemplateFuncs, color.TemplateFuncs, color.ModeFeature | color.NoFlagFeature | color.TemplateFuncs}).Draw(c.T, "features")
		all := features <= 0
		hasFlag := all || features&(color.FlagFeature|color.ModeFeature) != 0
		hasMode := all || features&color.ModeFeature != 0
		hasNo := all || features&color.NoFlagFeature != 0
		tokens := []string{"app"}
		fails := false
		if rapid.Bool().Draw(c.T, "flag") {
			tok := rapid.SampledFrom([]string{"--tint", "--tint=false", "--tint=true", "--as=always", "--as=never", "--as=auto", "--as=maybe", "--color", "--no-color", "--color=", "--color=ON", "--color=off", "--color=true", "--color=False", "--color=AUTO", "--color=always",
				"--color=Never", "--color=maybe"}).Draw(c.T, "token")
			tokens = append(tokens, tok)
			changed = true
			name, value, has := strings.Cut(tok, "=")
			value = strings.ToLower(value)
			switch {
			case name == "--tint":
				set(map[bool]color.Mode{true: color.Always, false: color.Never}[value != "false"])
			case name == "--as":
				switch value {
				case "maybe":
					fails = true
				default:
					set(map[string]color.Mode{"always": color.Always, "never": color.Never, "auto": color.Auto}[value])
				}
			case name == "--no-color":
				fails = !hasNo
				set(color.Never)
			case !hasFlag:
				fails = true
			case hasMode:
				switch value {
				case "on", "true", "always":
					set(color.Always)
				case "off", "false", "never":
					set(color.Never)
				case "auto":
					set(color.Auto)
				case "":
					set(color.Always)
					if has {
						// the text is empty, or there is none
						tokens[1] = "--color"
					}
				default:
					fails = true
				}
			case !has:
				set(color.Always)
			default:
				switch value {
				case "true":
					set(color.Always)
				case "false":
					set(color.Never)
				default:
					fails = true
				}
				if value == "on" || value == "off" || value == "" {
					tokens[1] = "--color=x"
					fails = true
				}
			}
		}
		c.Showf("features %b %q", features, tokens)

		const mark = "<end>"
		var actions []any
		var states []bool
		var got, bufs []bool
		for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "steps"); i < n; i++ {
			if i > 0 {
				if a := maybe("action"); a != nil {
					actions = append(actions, a)
				}
			}
			states = append(states, enabled)
			actions = append(actions, cli.ActionOf(func(c *cli.Context) {
				got = append(got, c.Stdout.ColorCapable())
				bufs = append(bufs, c.NewBuffer().ColorCapable())
			}), cli.ExecuteTemplate("t", func(*cli.Context) any { return map[string]any{"Items": []string{"p", "q"}, "None": []string{}} }))
		}
		style := rapid.SampledFrom(keysOf(styleValues)).Draw(c.T, "style")
		actions = append(actions, cli.ActionOf(func(c *cli.Context) {
			c.Stdout.Bold("B", 1)
			c.Stdout.Underline("U")
			c.Stdout.Styled(styleValues[style], "S")
			c.Stdout.SetBackground(cli.Red)
			c.Stdout.SetForeground(cli.Blue)
			c.Stdout.WriteString("F")
			c.Stdout.Reset()
			io.WriteString(c.Stdout, mark)
		}))
		if changed || auto {
			c.NonTrivial()
		}
		app := &cli.App{Name: "app", Uses: cli.Pipeline(color.Options{Features: features}, uses), Before: cli.Pipeline(before, cli.RegisterTemplate("t", tpl)),
			Action: cli.Pipeline(actions...), Stderr: new(bytes.Buffer), Stdin: new(bytes.Buffer),
			Flags: []*cli.Flag{{Name: "tint", Value: new(bool), Uses: color.SetMode()}, {Name: "as", Uses: color.SetMode()}}}
		buf := new(bytes.Buffer)
		read := buf.String
		switch stdout {
		case "tty":
			app.Stdout = slave
			read = func() string {
				var b []byte
				p := make([]byte, 4096)
				master.SetReadDeadline(time.Now().Add(5 * time.Second))
				for !bytes.Contains(b, []byte(mark)) {
					n, err := master.Read(p)
					b = append(b, p[:n]...)
					if err != nil {
						break
					}
				}
				return strings.ReplaceAll(string(b), "\r\n", "\n")
			}
		case "file":
			f, err := os.CreateTemp("", "verif")
			if err != nil {
				panic(err)
			}
			defer f.Close()
			os.Remove(f.Name())
			app.Stdout = f
			read = func() string {
				b := make([]byte, 10000)
				n, _ := f.ReadAt(b, 0)
				return string(b[:n])
			}
		case "cli.NewBuffer":
			b := cli.NewBuffer()
			app.Stdout = b
			b.SetColorCapable(false)
			read = b.String
		case "cli.NewWriter":
			app.Stdout = cli.NewWriter(buf)
		case "other":
			app.Stdout = otherWriter{cli.NewWriter(buf)}
		default:
			app.Stdout = buf
		}
		err := app.RunContext(context.Background(), tokens)
		if fails {
			if err == nil {
				c.Failf("no error")
			}
			return
		}
		if err != nil {
			c.Failf("error %v", err)
		}
		out := read()
		if !slices.Equal(got, states) {
			c.Failf("ColorCapable is %v, want %v", got, states)
		}
		if !slices.Equal(bufs, states) {
			c.Failf("ColorCapable of buffers is %v, want %v", bufs, states)
		}
		var want []cell
		text := func(s string, fg, bg int, style string) {
			if !states[len(states)-1] {
				fg, bg, style = 39, 49, ""
			}
			for _, r := range s {
				want = append(want, cell{r, fg, bg, style})
			}
		}
		for _, on := range states {
			for _, p := range parts {
				for _, x := range p.want {
					if on {
						want = append(want, x)
					} else if p.skip == "" {
						want = append(want, cell{r: x.r, fg: 39, bg: 49})
					}
				}
				want = append(want, cell{r: '/', fg: 39, bg: 49})
			}
		}
		text("B1", 39, 49, "[1]")
		text("U", 39, 49, "[4]")
		text("S", 39, 49, fmt.Sprintf("[%d]", styleCodes[style]))
		text("F", 34, 41, "")
		text(mark, 39, 49, "")
		cells, _, err := screen(out)
		if err != nil {
			c.Failf("the output is %q: %v", out, err)
		}
		if !slices.Equal(cells, want) {
			i := 0
			for i < len(cells) && i < len(want) && cells[i] == want[i] {
				i++
			}
			c.Failf("the output is %q, it shows\n%v\nwant\n%v\n(from %d)", out, cells, want, i)
		}
		if !slices.Contains(states, true) && strings.Contains(out, "\x1b") {
			c.Failf("the output is %q, with control sequences", out)
		}
		c.Label("%s, color %v", stdout, states[0])
	})
}

// TestP31_Mode: the text of a mode sets the same mode, in any case
func TestP31_Mode(t *testing.T) {
	pbt.Run(t, "a mode, or nearly", 1000, func(c *pbt.C) {
		words := map[string]color.Mode{"auto": color.Auto, "always": color.Always, "true": color.Always, "on": color.Always, "never": color.Never, "false": color.Never, "off": color.Never}
		s := rapid.SampledFrom(keysOf(words)).Draw(c.T, "word")
		want, ok := words[s], true
		b := []byte(s)
		for i := range b {
			if rapid.Bool().Draw(c.T, "upper") {
				b[i] -= 32
			}
		}
		s = string(b)
		if rapid.IntRange(0, 3).Draw(c.T, "edit") == 0 {
			s += rapid.SampledFrom([]string{" ", "x", "s"}).Draw(c.T, "suffix")
			ok = false
		}
		c.Showf("%q", s)
		c.NonTrivial()
		m := rapid.SampledFrom([]color.Mode{color.Auto, color.Always, color.Never}).Draw(c.T, "mode")
		old := m
		err := m.Set(s)
		if (err == nil) != ok {
			c.Failf("error %v", err)
		}
		if ok && m != want || !ok && m != old {
			c.Failf("the mode is %v, want %v", m, want)
		}
		var n color.Mode = old
		if err := n.Set(m.String()); err != nil || n != m {
			c.Failf("the text of mode %v sets %v, %v", m, n, err)
		}
	})
}

// TestP31_Names: names that are no color, style or emoji are errors, and what has no text has no style
func TestP31_Names(t *testing.T) {
	pbt.Run(t, "a name is not valid, or the text is empty", 2000, func(c *pbt.C) {
		fn := rapid.SampledFrom([]string{"Color", "Background", "Style", "Emoji"}).Draw(c.T, "func")
		known := map[string][]string{"Color": keysOf(colorCodes), "Background": keysOf(colorCodes), "Style": keysOf(styleCodes), "Emoji": keysOf(emojis)}[fn]
		valid := true
		var names []string
		n := 1
		if fn == "Style" {
			n = rapid.IntRange(0, 4).Draw(c.T, "names")
		}
		for range n {
			name := rapid.SampledFrom(known).Draw(c.T, "name")
			switch rapid.IntRange(0, 7).Draw(c.T, "edit") {
			case 1:
				name = strings.ToLower(name)
				valid = false
			case 2:
				name += "s"
				valid = false
			case 3:
				name = rapid.SampledFrom([]string{"Nope", "Style", "Emoji", "BoldFirst", "Reset", "Background", "1"}).Draw(c.T, "other")
				valid = false
			case 4:
				if name[0] != 'D' {
					name = map[string]string{"Color": "Bold", "Background": "Italic", "Style": "Red", "Emoji": "Red"}[fn]
					valid = false
				}
			}
			names = append(names, name)
		}
		on := rapid.Bool().Draw(c.T, "on")
		texts := []string{}
		for range rapid.IntRange(1, 3).Draw(c.T, "texts") {
			texts = append(texts, rapid.SampledFrom([]string{"", "", "x", "y z"}).Draw(c.T, "text"))
		}
		tpl := fmt.Sprintf("{{ %s %q", fn, strings.Join(names, " "))
		for _, s := range texts {
			if fn != "Emoji" {
				tpl += fmt.Sprintf(" %q", s)
			}
		}
		tpl += " }}"
		c.Showf("%s, color %v", tpl, on)
		text := strings.Join(texts, "")
		if !valid || text == "" {
			c.NonTrivial()
		}
		buf := new(bytes.Buffer)
		app := &cli.App{Name: "app", Stdout: buf, Stderr: new(bytes.Buffer), Uses: color.Options{}, Before: cli.Pipeline(cli.SetColor(on), cli.RegisterTemplate("t", tpl)),
			Action: cli.ExecuteTemplate("t", nil)}
		err := app.RunContext(context.Background(), []string{"app"})
		if fn == "Emoji" && !on {
			if err != nil || buf.Len() > 0 {
				c.Failf("error %v, output %q", err, buf)
			}
			return
		}
		if (err == nil) != valid {
			c.Failf("error %v, output %q", err, buf)
		}
		if !valid {
			return
		}
		if fn == "Emoji" {
			text = string(emojis[names[0]])
		}
		cells, _, err := screen(buf.String())
		got := ""
		for _, x := range cells {
			got += string(x.r)
		}
		if err != nil || got != text || text == "" && buf.Len() > 0 {
			c.Failf("the output is %q, the text %q (%v)", buf, text, err)
		}
	})
}

// TestP31_Completion: the modes are offered for the flag
func TestP31_Completion(t *testing.T) {
	pbt.Run(t, "a part of a mode", 300, func(c *pbt.C) {
		part := rapid.SampledFrom([]string{"", "a", "al", "au", "n", "never", "x", "auto"}).Draw(c.T, "part")
		sep := rapid.Bool().Draw(c.T, "features")
		f := color.Feature(0)
		if sep {
			f = color.FlagFeature | color.ModeFeature
		}
		c.Showf("%q %v", part, sep)
		c.NonTrivial()
		var got []string
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Uses: color.Options{Features: f}, Action: func(c *cli.Context) {
			for _, it := range c.Complete([]string{"app"}, "--color="+part) {
				got = append(got, it.Value)
			}
		}}
		if err := app.RunContext(context.Background(), []string{"app"}); err != nil {
			c.Failf("error %v", err)
		}
		var want []string
		for _, m := range []string{"auto", "always", "never"} {
			if strings.HasPrefix(m, part) {
				want = append(want, "--color="+m)
			}
		}
		slices.Sort(got)
		slices.Sort(want)
		if !slices.Equal(got, want) {
			c.Failf("offers %q, want %q", got, want)
		}
	})
}
