package ext

import (
	"bytes"
	"context"
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/table"
	"github.com/mattn/go-runewidth"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// ttable is a table in a template
type ttable struct {
	format           string // "", Unformatted, Porcelain, custom or a name which is not known
	custom           *table.Format
	wrap             bool
	headers, footers []string
	rows             [][]string
}

func (t *ttable) String() string {
	return fmt.Sprintf("%s %+v headers %q footers %q rows %q", t.format, t.custom, t.headers, t.footers, t.rows)
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func twidth(s string) int { return runewidth.StringWidth(ansi.ReplaceAllString(s, "")) }

// effective is the format that is used
func (t *ttable) effective() table.Format {
	switch t.format {
	case "custom":
		return *t.custom
	case "Unformatted":
		return table.Format{AutoWrapText: true, TablePadding: " "}
	}
	return table.Format{AutoWrapText: true, Border: true, HeaderLine: true, RowLine: true,
		CenterSeparator: "┼", ColumnSeparator: "│", RowSeparator: "─",
		TopLeftSeparator: "┌", TopCenterSeparator: "┬", TopRightSeparator: "┐",
		CenterLeftSeparator: "├", CenterRightSeparator: "┤",
		BottomLeftSeparator: "└", BottomCenterSeparator: "┴", BottomRightSeparator: "┘"}
}

func (t *ttable) columns() int {
	n := max(len(t.headers), len(t.footers))
	for _, r := range t.rows {
		n = max(n, len(r))
	}
	return n
}

func padded(r []string, n int) []string {
	return append(slices.Clone(r), make([]string, n-len(r))...)
}

// tline is a line of the table: a rule or cells
type tline struct {
	rule  string // top, center, bottom
	kind  string // header, row, footer
	cells []string
}

// lines is the model of the table, cells on one line
func (t *ttable) lines() (res []tline) {
	f := t.effective()
	n := t.columns()
	add := func(rule string) { res = append(res, tline{rule: rule}) }
	if f.Border {
		add("top")
	}
	if len(t.headers) > 0 {
		res = append(res, tline{kind: "header", cells: padded(t.headers, n)})
		if f.HeaderLine {
			add("center")
		}
	}
	for _, r := range t.rows {
		res = append(res, tline{kind: "row", cells: padded(r, n)})
		if f.RowLine {
			add("center")
		}
	}
	if f.Border && !f.RowLine {
		add("center")
	}
	if len(t.footers) > 0 {
		if !f.Border {
			add("center")
		}
		res = append(res, tline{kind: "footer", cells: padded(t.footers, n)})
		add("center")
	}
	if f.Border {
		res[len(res)-1].rule = "bottom"
	}
	return
}

func (t *ttable) widths() []int {
	res := make([]int, t.columns())
	for _, l := range append([][]string{t.headers, t.footers}, t.rows...) {
		for i, c := range l {
			res[i] = max(res[i], twidth(c))
		}
	}
	return res
}

func (t *ttable) rule(kind string) string {
	f := t.effective()
	if !f.Border {
		f.TopCenterSeparator, f.BottomCenterSeparator = f.CenterSeparator, f.CenterSeparator
	}
	l, m, r := f.CenterLeftSeparator, f.CenterSeparator, f.CenterRightSeparator
	switch kind {
	case "top":
		l, m, r = f.TopLeftSeparator, f.TopCenterSeparator, f.TopRightSeparator
	case "bottom":
		l, m, r = f.BottomLeftSeparator, f.BottomCenterSeparator, f.BottomRightSeparator
	}
	if !f.Border {
		l, r = f.RowSeparator, f.RowSeparator
	}
	var parts []string
	for _, w := range t.widths() {
		parts = append(parts, strings.Repeat(f.RowSeparator, w+2))
	}
	return l + strings.Join(parts, m) + r
}

// checkBox checks the lines of a table with separators, each cell on one line
func (t *ttable) checkBox(got []string) error {
	want := t.lines()
	if len(got) != len(want) {
		return fmt.Errorf("%d lines, want %d", len(got), len(want))
	}
	f := t.effective()
	widths := t.widths()
	for i, w := range want {
		if w.rule != "" {
			if r := t.rule(w.rule); strings.TrimRight(got[i], " ") != strings.TrimRight(r, " ") {
				return fmt.Errorf("line %d is %q, want %q", i, got[i], r)
			}
			continue
		}
		line := got[i]
		if f.Border {
			var ok bool
			if line, ok = strings.CutPrefix(line, f.ColumnSeparator); !ok {
				return fmt.Errorf("line %d is %q, it does not start with %q", i, got[i], f.ColumnSeparator)
			}
			if line, ok = strings.CutSuffix(line, f.ColumnSeparator); !ok && w.kind != "footer" {
				return fmt.Errorf("line %d is %q, it does not end with %q", i, got[i], f.ColumnSeparator)
			}
		} else {
			line = strings.TrimPrefix(line, " ")
			if w.kind != "footer" {
				line = strings.TrimSuffix(line, " ")
			}
		}
		cells := strings.Split(line, f.ColumnSeparator)
		if w.kind == "footer" {
			// the separators of empty cells are left off
			if plain(strings.ReplaceAll(line, f.ColumnSeparator, " ")) != plain(strings.Join(w.cells, " ")) {
				return fmt.Errorf("line %d is %q, want the footers %q", i, got[i], w.cells)
			}
			continue
		}
		if len(cells) != len(w.cells) {
			return fmt.Errorf("line %d is %q, it has %d cells, want %q", i, got[i], len(cells), w.cells)
		}
		align := f.Alignment
		if w.kind == "header" {
			align = f.HeaderAlignment
		}
		for j, c := range cells {
			if plain(c) != plain(w.cells[j]) {
				return fmt.Errorf("line %d is %q, cell %d is %q, want %q", i, got[i], j, c, w.cells[j])
			}
			if twidth(c) != widths[j]+2 {
				return fmt.Errorf("line %d is %q, cell %d is %q, %d wide, want %d", i, got[i], j, c, twidth(c), widths[j]+2)
			}
			if w.cells[j] == "" {
				continue
			}
			left := twidth(c) - twidth(strings.TrimLeft(c, " "))
			right := twidth(c) - twidth(strings.TrimRight(c, " "))
			ok := true
			switch align {
			case table.AlignLeft:
				ok = left == 1
			case table.AlignRight:
				ok = right == 1
			case table.AlignCenter:
				ok = left-right >= -1 && left-right <= 1
			}
			if !ok {
				return fmt.Errorf("line %d is %q, cell %d is not aligned", i, got[i], j)
			}
		}
	}
	return nil
}

func plain(s string) string { return strings.Join(strings.Fields(s), " ") }

// checkWrapped checks the cells of a table with separators and rules between rows, by the words in them
func (t *ttable) checkWrapped(got []string) error {
	f := t.effective()
	var want, have [][]string
	n := t.columns()
	for _, l := range t.lines() {
		if l.rule == "" {
			want = append(want, padded(l.cells, n))
		}
	}
	start := true
	for i, g := range got {
		if strings.HasPrefix(g, f.TopLeftSeparator) || strings.HasPrefix(g, f.CenterLeftSeparator) || strings.HasPrefix(g, f.BottomLeftSeparator) {
			start = true
			continue
		}
		cells := strings.Split(strings.TrimSuffix(strings.TrimPrefix(g, f.ColumnSeparator), f.ColumnSeparator), f.ColumnSeparator)
		if len(cells) != n {
			return fmt.Errorf("line %d is %q, it has %d cells, want %d", i, g, len(cells), n)
		}
		if start {
			have = append(have, make([]string, n))
		}
		start = false
		for j, c := range cells {
			if w := twidth(plain(c)); w > f.ColWidth && len(strings.Fields(c)) > 1 {
				return fmt.Errorf("line %d is %q, cell %d is %d wide, over %d", i, g, j, w, f.ColWidth)
			}
			have[len(have)-1][j] = plain(have[len(have)-1][j] + " " + c)
		}
	}
	for i := range want {
		for j := range want[i] {
			want[i][j] = plain(want[i][j])
		}
	}
	if fmt.Sprintf("%q", have) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("the cells are %q, want %q", have, want)
	}
	return nil
}

// checkUnformatted checks that cells are at the columns
func (t *ttable) checkUnformatted(got []string) error {
	var want []string
	widths := t.widths()
	var rows [][]string
	for _, l := range t.lines() {
		if l.rule == "" && strings.Join(l.cells, "") != "" {
			if l.kind == "row" {
				rows = append(rows, l.cells)
			}
			want = append(want, l.kind+plain(strings.Join(l.cells, " ")))
		}
	}
	var i int
	for _, g := range got {
		if plain(g) == "" {
			continue
		}
		if i >= len(want) {
			return fmt.Errorf("more lines: %q", g)
		}
		kind := ""
		for _, k := range []string{"header", "row", "footer"} {
			if strings.HasPrefix(want[i], k) {
				kind = k
			}
		}
		if text := want[i][len(kind):]; plain(g) != text {
			return fmt.Errorf("the line %q, want %q", g, text)
		}
		i++
		if kind != "row" {
			continue
		}
		// each cell is within its column
		at := 0
		row := rows[0]
		rows = rows[1:]
		rest := ansi.ReplaceAllString(g, "")
		for j, w := range widths {
			from, to := at+2, at+w+2
			var b strings.Builder
			for rest != "" && at < to {
				r := []rune(rest)[0]
				if r != ' ' && at < from {
					return fmt.Errorf("the line %q, column %d is not at %d", g, j, from)
				}
				b.WriteRune(r)
				rest = rest[len(string(r)):]
				at += runewidth.RuneWidth(r)
			}
			if c := ansi.ReplaceAllString(padded(row, len(widths))[j], ""); strings.TrimSpace(b.String()) != c {
				return fmt.Errorf("the line %q, column %d is %q, want %q", g, j, b.String(), c)
			}
			at = to
		}
	}
	if i != len(want) {
		return fmt.Errorf("%d lines with text, want %q", i, want)
	}
	return nil
}

// checkLoose checks the cells only
func (t *ttable) checkLoose(got []string) error {
	f := t.effective()
	var want, have []string
	for _, l := range t.lines() {
		if s := plain(strings.Join(l.cells, " ")); l.rule == "" && s != "" {
			want = append(want, s)
		}
	}
	for _, g := range got {
		if strings.Contains(g, strings.Repeat(f.RowSeparator, 3)) {
			continue
		}
		if s := plain(strings.ReplaceAll(g, f.ColumnSeparator, " ")); s != "" {
			have = append(have, s)
		}
	}
	if !slices.Equal(want, have) {
		return fmt.Errorf("the lines have %q, want %q", have, want)
	}
	return nil
}

func (t *ttable) checkPorcelain(got []string) error {
	var want []string
	if t.headers != nil {
		want = append(want, strings.Join(t.headers, "\t"))
	}
	for _, r := range t.rows {
		want = append(want, strings.Join(r, "\t"))
	}
	if t.footers != nil {
		want = append(want, strings.Join(t.footers, "\t"))
	}
	if !slices.Equal(got, want) {
		return fmt.Errorf("the lines are %q, want %q", got, want)
	}
	return nil
}

func drawTable(t *rapid.T) *ttable {
	x := &ttable{format: rapid.SampledFrom([]string{"", "Default", "Unformatted", "Porcelain", "custom", "custom"}).Draw(t, "format")}
	if x.format == "custom" {
		b := func(l string) bool { return rapid.Bool().Draw(t, l) }
		s := func(l string) string { return rapid.SampledFrom([]string{"+", "*", "#", ".", "┼", "═"}).Draw(t, l) }
		x.custom = &table.Format{
			AutoWrapText: b("autoWrap"), Border: b("border"), HeaderLine: b("headerLine"), RowLine: b("rowLine"),
			Alignment:       rapid.SampledFrom([]table.Alignment{table.AlignDefault, table.AlignCenter, table.AlignRight, table.AlignLeft}).Draw(t, "align"),
			HeaderAlignment: rapid.SampledFrom([]table.Alignment{table.AlignDefault, table.AlignCenter, table.AlignRight, table.AlignLeft}).Draw(t, "headerAlign"),
			CenterSeparator: s("center"), ColumnSeparator: rapid.SampledFrom([]string{"|", "│", "!"}).Draw(t, "column"),
			RowSeparator:     rapid.SampledFrom([]string{"-", "─", "~"}).Draw(t, "row"),
			TopLeftSeparator: s("tl"), TopCenterSeparator: s("tc"), TopRightSeparator: s("tr"),
			CenterLeftSeparator: s("cl"), CenterRightSeparator: s("cr"),
			BottomLeftSeparator: s("bl"), BottomCenterSeparator: s("bc"), BottomRightSeparator: s("br"),
		}
		if b("wrap") {
			x.wrap = true
			x.custom.AutoWrapText, x.custom.Border, x.custom.HeaderLine, x.custom.RowLine = true, true, true, true
			x.custom.ColWidth = rapid.IntRange(5, 12).Draw(t, "colWidth")
		}
	}
	word := rapid.SampledFrom([]string{"a", "Bee", "two words", "12", "-3", "1.5", "50%", "日本", "é", "a+b", "\x1b[1mbold\x1b[0m", "true", "", "", "x_y", "{{.}}", "A-B", "long words in a row"})
	if x.format == "Unformatted" {
		word = rapid.SampledFrom([]string{"a", "Bee", "two words", "12", "-3", "1.5", "50%", "日本", "é", "a+b", "\x1b[1mbold\x1b[0m", "", "x_y"})
	}
	cols := rapid.IntRange(1, 4).Draw(t, "columns")
	ragged := rapid.Bool().Draw(t, "ragged")
	cells := func(l string, mn int) []string {
		n := cols
		if ragged {
			n = rapid.IntRange(mn, cols).Draw(t, "cells")
		}
		res := make([]string, n)
		for i := range res {
			res[i] = word.Draw(t, l)
		}
		return res
	}
	if rapid.Bool().Draw(t, "hasHeaders") {
		x.headers = cells("header", 1)
	}
	if rapid.IntRange(0, 2).Draw(t, "hasFooters") == 0 {
		x.footers = cells("footer", 1)
		for i := range x.footers {
			if x.footers[i] == "" {
				x.footers[i] = "foot"
			}
		}
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "rows"); i < n; i++ {
		x.rows = append(x.rows, cells("cell", 0))
	}
	return x
}

// TestP30_Table: a table shows the cells that the template makes, in rows and columns
func TestP30_Table(t *testing.T) {
	pbt.Run(t, "several rows with different numbers of cells, headers or footers, or several tables", 2500, func(c *pbt.C) {
		var tables []*ttable
		formats := map[string]any{}
		var text strings.Builder
		lit := func(s string) string {
			if _, err := strconv.ParseFloat(s, 64); err == nil || s == "true" {
				if rapid.Bool().Draw(c.T, "literal") {
					return s
				}
			}
			return strconv.Quote(s)
		}
		quoted := func(s []string) string {
			var b strings.Builder
			for _, s := range s {
				b.WriteString(" " + strconv.Quote(s))
			}
			return b.String()
		}
		for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(c.T, "tables"); i < n; i++ {
			x := drawTable(c.T)
			tables = append(tables, x)
			c.Showf("%s", x)
			c.Label("%s", x.format)
			fmt.Fprintf(&text, "[%d]\n", i)
			key := fmt.Sprintf("t%d", i)
			data := map[string]any{"f": x.custom, "h": x.headers, "g": x.footers, "r": x.rows}
			formats[key] = data
			switch x.format {
			case "":
				text.WriteString("{{ Table }}")
			case "custom":
				fmt.Fprintf(&text, "{{ Table .%s.f }}", key)
			default:
				fmt.Fprintf(&text, "{{ Table %q }}", x.format)
			}
			fromData := rapid.Bool().Draw(c.T, "fromData")
			headers := func() {
				switch {
				case x.headers == nil:
				case fromData && x.format != "Porcelain":
					fmt.Fprintf(&text, "{{ range .%s.h }}{{ Headers . }}{{ end }}", key)
				default:
					fmt.Fprintf(&text, "{{ Headers%s }}", quoted(x.headers))
				}
			}
			footers := func() {
				switch {
				case x.footers == nil:
				case fromData && x.format != "Porcelain":
					fmt.Fprintf(&text, "{{ range .%s.g }}{{ Footers . }}{{ end }}", key)
				default:
					fmt.Fprintf(&text, "{{ Footers%s }}", quoted(x.footers))
				}
			}
			// except in the porcelain format, they can be anywhere
			late := x.format != "Porcelain" && rapid.Bool().Draw(c.T, "late")
			if late {
				footers()
			} else {
				headers()
			}
			if fromData {
				fmt.Fprintf(&text, "{{ range .%s.r }}{{ Row }}{{ range . }}{{ Cell . }}{{ end }}{{ end }}", key)
			} else {
				for _, r := range x.rows {
					text.WriteString("{{ Row }}")
					for _, s := range r {
						fmt.Fprintf(&text, "{{ %s }}", rapid.SampledFrom([]string{"Cell " + lit(s), lit(s) + " | Cell"}).Draw(c.T, "form"))
					}
				}
			}
			if late {
				headers()
			} else {
				footers()
			}
			text.WriteString("{{ EndTable }}")
			if len(x.rows) > 1 && (x.headers != nil || x.footers != nil) || n > 1 {
				c.NonTrivial()
			}
		}
		text.WriteString("[end]\n")
		var before []table.Format
		for _, x := range tables {
			if x.custom != nil {
				before = append(before, *x.custom)
			}
		}
		var out bytes.Buffer
		app := &cli.App{
			Name:   "app",
			Uses:   rapid.SampledFrom([]cli.Action{table.Options{}, table.Options{Features: table.TemplateFuncs}, table.RegisterTemplateFuncs()}).Draw(c.T, "uses"),
			Before: cli.RegisterTemplate("t", text.String()),
			Action: cli.ExecuteTemplate("t", func(*cli.Context) any { return formats }),
			Stdout: &out, Stderr: new(bytes.Buffer), Stdin: new(bytes.Buffer),
		}
		twice := rapid.IntRange(0, 3).Draw(c.T, "twice") == 0
		if twice {
			app.Action = cli.Pipeline(app.Action, app.Action)
		}
		if err := app.RunContext(context.Background(), []string{"app"}); err != nil {
			c.Failf("error %v", err)
		}
		for i, x := range tables {
			if x.custom != nil {
				if *x.custom != before[0] {
					c.Failf("the format of table %d was changed", i)
				}
				before = before[1:]
			}
		}
		got := out.String()
		if twice {
			if got[:len(got)/2] != got[len(got)/2:] {
				c.Failf("the second output differs from the first\n%s", got)
			}
			got = got[:len(got)/2]
		}
		for i, x := range tables {
			head, end := fmt.Sprintf("[%d]\n", i), "[end]\n"
			if i+1 < len(tables) {
				end = fmt.Sprintf("[%d]\n", i+1)
			}
			rest, ok := strings.CutPrefix(got, head)
			if !ok {
				c.Failf("table %d begins with\n%s", i, got)
			}
			j := strings.Index(rest, end)
			if j < 0 {
				c.Failf("%q not found after table %d", end, i)
			}
			lines := strings.Split(strings.TrimSuffix(rest[:j], "\n"), "\n")
			got = rest[j:]
			var err error
			switch {
			case x.format == "Porcelain":
				err = x.checkPorcelain(lines)
			case x.columns() == 0:
			case x.format == "Unformatted":
				err = x.checkUnformatted(lines)
			case x.footers != nil && len(x.footers) < x.columns():
				if !x.wrap {
					err = x.checkLoose(lines)
				}
			case x.wrap:
				err = x.checkWrapped(lines)
			default:
				err = x.checkBox(lines)
			}
			if err != nil {
				c.Failf("table %d:\n%s\n%v", i, rest[:j], err)
			}
		}
	})
}
