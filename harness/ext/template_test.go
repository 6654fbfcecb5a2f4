package ext

import (
	"bytes"
	"cmp"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/format"
	"io"
	"io/fs"
	"maps"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"testing"
	tt "text/template"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/template"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// rootedFS keeps everything inside of a directory, counts the files that are
// open and notes what changes
type rootedFS struct {
	root    string
	open    map[string]int
	changes []string
}

func (r *rootedFS) path(name string) (string, error) {
	p := filepath.Clean(name)
	if filepath.IsAbs(p) || p == ".." || strings.HasPrefix(p, "../") {
		return "", &fs.PathError{Op: "access", Path: name, Err: errors.New("outside of the directory")}
	}
	return filepath.Join(r.root, p), nil
}

func (r *rootedFS) file(name string, f *os.File, err error) (fs.File, error) {
	if err != nil {
		return nil, err
	}
	r.open[name]++
	return &rootedFile{f, func() { r.open[name]-- }}, nil
}

type rootedFile struct {
	*os.File
	closed func()
}

func (f *rootedFile) Close() error {
	f.closed()
	return f.File.Close()
}

func (r *rootedFS) change(op, name string, fn func(string) error) error {
	p, err := r.path(name)
	if err != nil {
		return err
	}
	r.changes = append(r.changes, op+" "+name)
	return fn(p)
}

func (r *rootedFS) Open(name string) (fs.File, error) {
	p, err := r.path(name)
	if err != nil {
		return nil, err
	}
	f, err := os.Open(p)
	return r.file(name, f, err)
}
func (r *rootedFS) OpenContext(_ context.Context, name string) (fs.File, error) { return r.Open(name) }
func (r *rootedFS) OpenFile(name string, flag int, perm fs.FileMode) (fs.File, error) {
	p, err := r.path(name)
	if err != nil {
		return nil, err
	}
	if flag != os.O_RDONLY {
		r.changes = append(r.changes, "OpenFile "+name)
	}
	f, err := os.OpenFile(p, flag, perm)
	return r.file(name, f, err)
}
func (r *rootedFS) Create(name string) (fs.File, error) {
	return r.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func (r *rootedFS) Stat(name string) (fs.FileInfo, error) {
	p, err := r.path(name)
	if err != nil {
		return nil, err
	}
	return os.Stat(p)
}
func (r *rootedFS) Chmod(name string, m fs.FileMode) error {
	return r.change("Chmod", name, func(p string) error { return os.Chmod(p, m) })
}
func (r *rootedFS) Chown(name string, u, g int) error {
	return r.change("Chown", name, func(p string) error { return os.Chown(p, u, g) })
}
func (r *rootedFS) Chtimes(name string, a, m time.Time) error {
	return r.change("Chtimes", name, func(p string) error { return os.Chtimes(p, a, m) })
}
func (r *rootedFS) Mkdir(name string, m fs.FileMode) error {
	return r.change("Mkdir", name, func(p string) error { return os.Mkdir(p, m) })
}
func (r *rootedFS) MkdirAll(name string, m fs.FileMode) error {
	return r.change("MkdirAll", name, func(p string) error { return os.MkdirAll(p, m) })
}
func (r *rootedFS) Remove(name string) error {
	return r.change("Remove", name, func(p string) error { return os.Remove(p) })
}
func (r *rootedFS) RemoveAll(name string) error {
	return r.change("RemoveAll", name, func(p string) error { return os.RemoveAll(p) })
}
func (r *rootedFS) Rename(o, n string) error {
	return r.change("Rename", o, func(p string) error {
		q, err := r.path(n)
		if err != nil {
			return err
		}
		return os.Rename(p, q)
	})
}

// tree is the state of the files in the model
type tfile struct {
	data string
	mode fs.FileMode
}

func (r *rootedFS) tree() map[string]tfile {
	res := map[string]tfile{}
	_ = filepath.WalkDir(r.root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(r.root, p)
		if rel == "." {
			return nil
		}
		info, _ := d.Info()
		if d.IsDir() {
			res[rel+"/"] = tfile{"", 0}
			return nil
		}
		data, _ := os.ReadFile(p)
		res[rel] = tfile{string(data), info.Mode().Perm()}
		return nil
	})
	return res
}

type tmodel struct {
	files   map[string]tfile // directories end in a slash
	vars    map[string]any
	lines   []string
	dry     bool
	failed  bool
	custom  []string // what the custom generators see
	gotName []string
	nfiles  int
	touched map[string]bool
}

func (m *tmodel) expand(name string) string {
	for k, v := range m.vars {
		name = strings.ReplaceAll(name, "{{ ."+k+" }}", fmt.Sprint(v))
	}
	return name
}

func (m *tmodel) ensure(p string) {
	for d := path.Dir(p); d != "."; d = path.Dir(d) {
		m.files[d+"/"] = tfile{}
	}
}

var longAgo = time.Unix(1000000000, 0)

var errGenerate = errors.New("generator fails")

// tgen is a generator with its model
type tgen struct {
	gen  template.Generator
	text string
	run  func(m *tmodel, dir string)
}

type topGen struct {
	gen  template.FileGenerator
	text string
	// run changes the file; false if it fails
	run func(m *tmodel, name string) bool
}

func write(m *tmodel, name, data string) {
	f, ok := m.files[name]
	if !ok {
		f.mode = 0o644
	}
	f.data = data
	m.files[name] = f
	m.touched[name] = true
}

func genOp(t *rapid.T, actual *tmodel) topGen {
	contents := func(data string) func(m *tmodel, name string) bool {
		return func(m *tmodel, name string) bool {
			if !m.dry {
				write(m, name, data)
			}
			return true
		}
	}
	s := rapid.SampledFrom([]string{"", "text", "package   m\ntype C    struct {  }", "existing", "é\n\n", "{{ .V }}"}).Draw(t, "contents")
	switch k := rapid.IntRange(0, 13).Draw(t, "op"); k {
	case 0, 1:
		return topGen{template.Contents(s), fmt.Sprintf("Contents(%q)", s), contents(s)}
	case 2:
		return topGen{template.Contents([]byte(s)), fmt.Sprintf("Contents([]byte(%q))", s), contents(s)}
	case 3:
		return topGen{template.Contents(strings.NewReader(s)), fmt.Sprintf("Contents(reader %q)", s), contents(s)}
	case 4:
		v := map[string]any{"s": s, "n": 1.5}
		data, _ := json.MarshalIndent(v, "", "    ")
		return topGen{template.Contents(v), fmt.Sprintf("Contents(%v)", v), contents(string(data))}
	case 5:
		return topGen{template.Touch(), "Touch", func(m *tmodel, name string) bool {
			if _, ok := m.files[name]; !ok && !m.dry {
				m.files[name] = tfile{"", 0o644}
			}
			if !m.dry {
				m.touched[name] = true
			}
			return true
		}}
	case 6, 7:
		mode := rapid.SampledFrom([]fs.FileMode{0o600, 0o755, 0o640, 0o700, 0o666, 0o777}).Draw(t, "mode")
		g := template.Mode(mode)
		if rapid.Bool().Draw(t, "file mode") {
			g = template.FileMode(mode)
		}
		if rapid.Bool().Draw(t, "const") {
			g, mode = template.ReadOnly, 0o600
			if rapid.Bool().Draw(t, "x") {
				g, mode = template.Executable, 0o755
			}
		}
		return topGen{g, fmt.Sprintf("Mode(%v)", mode), func(m *tmodel, name string) bool {
			if m.dry {
				return true
			}
			f, ok := m.files[name]
			if ok {
				f.mode = mode
				m.files[name] = f
			}
			return ok
		}}
	case 8, 9, 10:
		// the template with data
		n := rapid.IntRange(0, 2).Draw(t, "data")
		names := []string{"X", "Y"}
		var data []any
		text := "{{ .V }}/{{ .W }}"
		vals := map[string]string{}
		for i := range n {
			v := rapid.SampledFrom([]string{"1", "two", ""}).Draw(t, "datum")
			vals[names[i]] = v
			data = append(data, names[i], v)
			text += " {{ ." + names[i] + " }}"
		}
		if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
			return topGen{template.Template(tt.Must(tt.New("t").Parse("{{ .V.Nope.No }}"))), "Template that fails", func(m *tmodel, name string) bool { return false }}
		}
		return topGen{template.Template(tt.Must(tt.New("t").Parse(text)), data...), fmt.Sprintf("Template(%q, %q)", text, data), func(m *tmodel, name string) bool {
			for k, v := range vals {
				m.vars[k] = v
			}
			if !m.dry {
				write(m, name, m.expand(text))
			}
			return true
		}}
	case 11:
		return topGen{template.Gofmt(), "Gofmt", func(m *tmodel, name string) bool {
			if m.dry {
				return true
			}
			f, ok := m.files[name]
			if !ok {
				return false
			}
			data, err := format.Source([]byte(f.data))
			if err == nil {
				write(m, name, string(data))
			}
			return err == nil
		}}
	case 12:
		var nilFunc template.FileGeneratorFunc
		return topGen{nilFunc, "nil func", func(m *tmodel, name string) bool { return true }}
	default:
		fails := rapid.IntRange(0, 3).Draw(t, "fails") == 0
		return topGen{template.FileGeneratorFunc(func(_ context.Context, oc *template.OutputContext, name string) error {
			actual.gotName = append(actual.gotName, name)
			if fails {
				return errGenerate
			}
			return nil
		}), fmt.Sprintf("custom(fails %v)", fails), func(m *tmodel, name string) bool {
			m.custom = append(m.custom, name)
			return !fails
		}}
	}
}

func genGens(t *rapid.T, actual *tmodel, depth int) []tgen {
	var res []tgen
	for range rapid.IntRange(1, 4).Draw(t, "generators") {
		k := rapid.IntRange(0, 9).Draw(t, "generator")
		if depth == 0 && k < 3 {
			k = 9
		}
		switch k {
		case 0, 1, 2:
			sub := genGens(t, actual, depth-1)
			var gens []template.Generator
			var texts []string
			for _, g := range sub {
				gens = append(gens, g.gen)
				texts = append(texts, g.text)
			}
			name := rapid.SampledFrom([]string{"d", "e", "d/e", "f/"}).Draw(t, "dir")
			if rapid.IntRange(0, 4).Draw(t, "sequence") == 0 {
				res = append(res, tgen{template.Sequence(gens), "Sequence(" + strings.Join(texts, ", ") + ")", func(m *tmodel, dir string) {
					for _, g := range sub {
						if !m.failed {
							g.run(m, dir)
						}
					}
				}})
				continue
			}
			res = append(res, tgen{template.Dir(name, gens...), "Dir(" + name + ", " + strings.Join(texts, ", ") + ")", func(m *tmodel, dir string) {
				for _, g := range sub {
					if !m.failed {
						g.run(m, path.Join(dir, name))
					}
				}
			}})
		case 3:
			v := rapid.SampledFrom([]string{"one", "two"}).Draw(t, "var")
			key := rapid.SampledFrom([]string{"V", "W"}).Draw(t, "key")
			g := template.Generator(template.Vars{key: v})
			if rapid.Bool().Draw(t, "data") {
				g = template.Data(key, v)
			}
			res = append(res, tgen{g, key + "=" + v, func(m *tmodel, dir string) { m.vars[key] = v }})
		case 4:
			res = append(res, tgen{nil, "nil", func(m *tmodel, dir string) {}})
		default:
			name := rapid.SampledFrom([]string{"a.txt", "b.go", "x/y.txt", "{{ .V }}.txt", "{{ .W }}/f.txt", "d/a.txt", "./a.txt"}).Draw(t, "name")
			var ops []topGen
			var gens []template.FileGenerator
			var texts []string
			for range rapid.IntRange(0, 3).Draw(t, "ops") {
				o := genOp(t, actual)
				ops = append(ops, o)
				gens = append(gens, o.gen)
				texts = append(texts, o.text)
			}
			res = append(res, tgen{template.File(name, gens...), "File(" + name + ", " + strings.Join(texts, ", ") + ")", func(m *tmodel, dir string) {
				p := path.Join(dir, m.expand(name))
				m.nfiles++
				if len(ops) == 0 {
					m.lines = append(m.lines, "   identical  "+p)
					return
				}
				before, existed := m.files[p]
				if !m.dry {
					m.ensure(p)
				}
				for _, o := range ops {
					if !o.run(m, p) {
						m.failed = true
						return
					}
				}
				switch after := m.files[p]; {
				case !existed:
					m.lines = append(m.lines, "      create  "+p)
				case before.data == after.data || m.dry:
					m.lines = append(m.lines, "   identical  "+p)
				default:
					m.lines = append(m.lines, "   overwrite  "+p)
				}
			}})
		}
	}
	return res
}

// TestP27_Template: the files that a template makes are those of its generators, in its directory
func TestP27_Template(t *testing.T) {
	defer syscall.Umask(syscall.Umask(0o22))
	old := os.Getenv("TERM")
	os.Setenv("TERM", "dumb")
	defer os.Setenv("TERM", old)
	pbt.Run(t, "a file in a directory is changed, a generator fails, or it is a dry run", 3000, func(c *pbt.C) {
		root := t.TempDir()
		defer os.RemoveAll(root)
		fsys := &rootedFS{root: root, open: map[string]int{}}
		m := &tmodel{files: map[string]tfile{}, touched: map[string]bool{}, vars: map[string]any{"V": "v0", "W": "w0"}}
		workDir := rapid.SampledFrom([]string{"", ".", "proj", "p/q"}).Draw(c.T, "workdir")
		base := path.Clean(workDir)
		for _, f := range []string{"a.txt", "b.go", "d/a.txt", "v0.txt", "w0/f.txt"} {
			if rapid.IntRange(0, 2).Draw(c.T, "exists") > 0 {
				continue
			}
			data := rapid.SampledFrom([]string{"existing", "package   m\ntype C    struct {  }", "package m\n"}).Draw(c.T, "initial")
			p := path.Join(base, f)
			m.ensure(p)
			m.files[p] = tfile{data, 0o644}
			full := filepath.Join(root, p)
			_ = os.MkdirAll(filepath.Dir(full), 0o755)
			if err := os.WriteFile(full, []byte(data), 0o644); err != nil {
				t.Fatal(err)
			}
			_ = os.Chmod(full, 0o644)
			_ = os.Chtimes(full, longAgo, longAgo)
		}
		how := rapid.SampledFrom([]string{"", "", "field", "flag"}).Draw(c.T, "dry")
		inUses := how == "flag" || rapid.Bool().Draw(c.T, "uses")
		m.dry = how != ""
		initial := maps.Clone(m.files)

		gens := genGens(c.T, m, 2)
		roots := []template.Generator{template.Vars{"V": "v0", "W": "w0"}}
		var texts []string
		for _, g := range gens {
			roots = append(roots, g.gen)
			texts = append(texts, g.text)
		}
		c.Showf("in %q dry %q uses %v files %q: %s", workDir, how, inUses, slices.Sorted(maps.Keys(initial)), strings.Join(texts, "; "))
		r := template.New(roots...)
		r.WorkingDirectory = workDir
		r.DryRun = how == "field"

		var stdout bytes.Buffer
		app := &cli.App{Name: "app", FS: fsys, Stdout: &stdout, Stderr: io.Discard}
		colored := rapid.IntRange(0, 4).Draw(c.T, "color") == 1
		if colored {
			app.Before = cli.SetColor(true)
			c.Label("color")
		}
		tokens := []string{"app"}
		if inUses {
			app.Uses = r
			if how == "flag" {
				tokens = append(tokens, "--dry-run")
			}
			if rapid.IntRange(0, 3).Draw(c.T, "overwrite") == 1 {
				tokens = append(tokens, "--overwrite")
			}
		} else {
			app.Action = r
		}
		err := app.RunContext(context.Background(), tokens)
		for _, g := range gens {
			if !m.failed {
				g.run(m, base)
			}
		}
		if m.dry || m.failed || slices.ContainsFunc(slices.Collect(maps.Keys(m.files)), func(p string) bool {
			return strings.Contains(p, "/") && !strings.HasSuffix(p, "/") && m.files[p] != initial[p]
		}) {
			c.NonTrivial()
		}
		if (err != nil) != m.failed {
			c.Failf("error: %v, expected %v\n%s", err, m.failed, &stdout)
		}
		if m.failed {
			c.Label("fails")
		}
		if m.dry {
			c.Label("dry run")
			if len(fsys.changes) > 0 {
				c.Failf("the dry run changes files: %q", fsys.changes)
			}
		}
		got, want := fsys.tree(), m.files
		for p := range want {
			if g, ok := got[p]; !ok || g != want[p] {
				c.Failf("%s is %q %v (%v), expected %q %v", p, g.data, g.mode, ok, want[p].data, want[p].mode)
			}
		}
		for p := range initial {
			if strings.HasSuffix(p, "/") {
				continue
			}
			if i, err := os.Stat(filepath.Join(root, p)); err == nil && i.ModTime().Equal(longAgo) == m.touched[p] {
				c.Failf("the time of %s is %v, touched %v", p, i.ModTime(), m.touched[p])
			}
		}
		for p := range got {
			if _, ok := want[p]; !ok {
				c.Failf("%s is there; %q", p, fsys.changes)
			}
		}
		for p, n := range fsys.open {
			if n != 0 {
				c.Failf("%s is opened and not closed %d times", p, n)
			}
		}
		if !slices.Equal(m.gotName, m.custom) {
			c.Failf("the names are %q, expected %q", m.gotName, m.custom)
		}
		text := stdout.String()
		if colored {
			// only the word that says what is done with the file has a color
			text = regexp.MustCompile("(?m)^( *)\x1b\\[[0-9;]+m([a-z]+)\x1b\\[0?m  ").ReplaceAllString(text, "$1$2  ")
		}
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		if stdout.Len() == 0 {
			lines = nil
		}
		if m.dry {
			for i := range m.lines {
				m.lines[i] += " (dry-run)"
			}
			for i := range lines {
				lines[i] = strings.Replace(lines[i], "overwrite", "identical", 1)
			}
		}
		if !slices.Equal(lines, m.lines) {
			c.Failf("messages\n%s\nexpected\n%s", strings.Join(lines, "\n"), strings.Join(m.lines, "\n"))
		}
	})
}

// chownFS notes who would own the file
type chownFS struct {
	*rootedFS
	owners map[string][2]int
}

func (f *chownFS) Chown(name string, u, g int) error {
	if _, err := f.Stat(name); err != nil {
		return err
	}
	f.owners[path.Clean(name)] = [2]int{u, g}
	return nil
}

// TestP27_Context: what a generator does with the files is done with those of its directory
func TestP27_Context(t *testing.T) {
	defer syscall.Umask(syscall.Umask(0o22))
	pbt.Run(t, "three or more changes, of which one in another directory", 2500, func(c *pbt.C) {
		mk := func() *chownFS {
			return &chownFS{&rootedFS{root: t.TempDir(), open: map[string]int{}}, map[string][2]int{}}
		}
		got, want := mk(), mk()
		defer os.RemoveAll(got.root)
		defer os.RemoveAll(want.root)
		workDir := rapid.SampledFrom([]string{"", ".", "proj", "p/q"}).Draw(c.T, "workdir")
		for _, f := range []*chownFS{got, want} {
			dir := filepath.Join(f.root, workDir, "d")
			if err := os.MkdirAll(dir, 0o755); err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(filepath.Join(dir, "a"), []byte("existing"), 0o644); err != nil {
				t.Fatal(err)
			}
		}
		names := []string{"a", "b", "d/a", "d/b", "x/y/z", "{{ .V }}", "{{ .V }}/a", "{{ .N", "{{ .V.W }}", "d", "d/../a"}
		name := func(l string) string { return rapid.SampledFrom(names).Draw(c.T, l) }
		vars := map[string]any{"V": "v0"}
		dirs := []string{path.Clean(workDir)}
		resolve := func(n string) string {
			n = strings.ReplaceAll(n, "{{ .V }}", vars["V"].(string))
			return path.Join(path.Join(dirs...), n)
		}
		ensured := func(n string) string {
			p := resolve(n)
			_ = want.MkdirAll(path.Dir(p), 0o755)
			return p
		}
		readAll := func(f fs.File, err error) string {
			if err != nil {
				return "error"
			}
			defer f.Close()
			data, err := io.ReadAll(f)
			if err != nil {
				return "error"
			}
			return string(data)
		}
		write := func(f fs.File, err error) string {
			if err != nil {
				return "error"
			}
			_, err = f.(io.Writer).Write([]byte("data"))
			return fmt.Sprint(err, f.Close())
		}
		fails := func(err error) string { return fmt.Sprint(err != nil) }
		at := func(k int) time.Time { return time.Unix(1000000000+int64(k)*1000, 0) }
		var texts []string
		changed, elsewhere := 0, false
		var problem string
		gen := func(oc *template.OutputContext) {
			for range rapid.IntRange(1, 8).Draw(c.T, "ops") {
				n, m := name("name"), name("other name")
				k := rapid.IntRange(0, 7).Draw(c.T, "k")
				mode := rapid.SampledFrom([]fs.FileMode{0o755, 0o700, 0o711}).Draw(c.T, "mode")
				op := rapid.SampledFrom([]string{"push", "pop", "var", "stat", "open", "opencontext", "exists", "file", "chmod", "chown", "create", "create", "mkdir", "mkdirall", "openfile", "remove", "removeall", "chtimes", "rename", "rename"}).Draw(c.T, "op")
				if (op == "remove" || op == "removeall" || op == "rename") && resolve(n) == "." {
					continue
				}
				text := op + " " + n
				var g, w string
				switch op {
				case "push":
					g = fails(oc.PushDir("d"))
					dirs = append(dirs, "d")
					w = "false"
				case "pop":
					if len(dirs) == 1 {
						continue
					}
					g = fails(oc.PopDir())
					dirs = dirs[:len(dirs)-1]
					w = "false"
				case "var":
					v := fmt.Sprintf("v%d", k)
					oc.SetData("V", v)
					vars["V"] = v
				case "stat":
					i, err := oc.Stat(n)
					j, err2 := want.Stat(resolve(n))
					g, w = fails(err), fails(err2)
					if err == nil && err2 == nil {
						g, w = fmt.Sprint(i.Name(), i.Mode(), i.IsDir()), fmt.Sprint(j.Name(), j.Mode(), j.IsDir())
					}
				case "open":
					g, w = readAll(oc.Open(n)), readAll(want.Open(resolve(n)))
				case "opencontext":
					g, w = readAll(oc.OpenContext(context.Background(), n)), readAll(want.Open(resolve(n)))
				case "exists":
					_, err := want.Stat(resolve(n))
					if errors.Is(err, syscall.ENOTDIR) {
						continue
					}
					g, w = fmt.Sprint(oc.Exists(n)), fmt.Sprint(err == nil)
				case "file":
					g, w = oc.File(n), resolve(n)
				case "chmod":
					g, w = fails(oc.Chmod(n, mode)), fails(want.Chmod(ensured(n), mode))
				case "chown":
					g, w = fails(oc.Chown(n, 10+k, 20+k)), fails(want.Chown(ensured(n), 10+k, 20+k))
				case "create":
					g, w = write(oc.Create(n)), write(want.Create(ensured(n)))
				case "mkdir":
					g, w = fails(oc.Mkdir(n, mode)), fails(want.Mkdir(ensured(n), mode))
				case "mkdirall":
					g, w = fails(oc.MkdirAll(n, mode)), fails(want.MkdirAll(resolve(n), mode))
				case "openfile":
					flag := rapid.SampledFrom([]int{os.O_WRONLY, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE}).Draw(c.T, "flag")
					g, w = write(oc.OpenFile(n, flag, 0o600)), write(want.OpenFile(resolve(n), flag, 0o600))
				case "remove":
					g, w = fails(oc.Remove(n)), fails(want.Remove(resolve(n)))
				case "removeall":
					g, w = fails(oc.RemoveAll(n)), fails(want.RemoveAll(resolve(n)))
				case "chtimes":
					g, w = fails(oc.Chtimes(n, at(k), at(k+1))), fails(want.Chtimes(ensured(n), at(k), at(k+1)))
				case "rename":
					text += " " + m
					p, q := ensured(n), ensured(m)
					g, w = fails(oc.Rename(n, m)), fails(want.Rename(p, q))
				}
				texts = append(texts, text)
				changed++
				if len(dirs) > 1 {
					elsewhere = true
				}
				if g == w && oc.WorkDir() != path.Join(dirs...) {
					g, w = oc.WorkDir(), path.Join(dirs...)
				}
				if g != w {
					problem = fmt.Sprintf("%s gives %q, expected %q", text, g, w)
					return
				}
			}
			for len(dirs) > 1 {
				if err := oc.PopDir(); err != nil {
					problem = fmt.Sprintf("the last pop of %v: %v", dirs, err)
				}
				dirs = dirs[:len(dirs)-1]
			}
			if err := oc.PopDir(); err == nil {
				problem = "the directory of the template is popped"
			}
		}
		r := template.New(template.Vars{"V": "v0"}, genFunc(gen))
		r.WorkingDirectory = workDir
		app := &cli.App{Name: "app", FS: got, Stdout: io.Discard, Stderr: io.Discard, Action: r}
		err := app.RunContext(context.Background(), []string{"app"})
		c.Showf("in %q: %s", workDir, strings.Join(texts, "; "))
		if changed > 2 && elsewhere {
			c.NonTrivial()
		}
		if err != nil || problem != "" {
			c.Failf("%s (%v)", problem, err)
		}
		dump := func(f *chownFS) string {
			var b strings.Builder
			_ = filepath.WalkDir(f.root, func(p string, d fs.DirEntry, err error) error {
				rel, _ := filepath.Rel(f.root, p)
				info, err := d.Info()
				if err != nil {
					return nil
				}
				when := ""
				if sec := info.ModTime().Unix(); sec < 1000100000 {
					st := info.Sys().(*syscall.Stat_t)
					when = fmt.Sprint(sec)
					if !d.IsDir() {
						// reading a directory or a file can change when it was read last
						when += fmt.Sprint(" ", st.Atim.Sec < 1000100000 && st.Atim.Sec < sec)
					}
				}
				data := ""
				if !d.IsDir() {
					b, _ := os.ReadFile(p)
					data = string(b)
				}
				fmt.Fprintf(&b, "%s %v %s %q\n", rel, info.Mode(), when, data)
				return nil
			})
			return b.String()
		}
		if g, w := dump(got), dump(want); g != w {
			c.Failf("the files are\n%sexpected\n%s", g, w)
		}
		if !maps.Equal(got.owners, want.owners) {
			c.Failf("the owners are %v, expected %v", got.owners, want.owners)
		}
		for p, n := range got.open {
			if n != 0 {
				c.Failf("%s is opened and not closed %d times", p, n)
			}
		}
	})
}

type genFunc func(*template.OutputContext)

func (f genFunc) Generate(_ context.Context, oc *template.OutputContext) error {
	f(oc)
	return nil
}

var errFault = errors.New("the disk is broken")

// faultFS fails at the n-th operation that changes or reads something
type faultFS struct {
	*rootedFS
	at, n int
	only  string
	op    string
	did   []string
}

func (f *faultFS) fault(op string) error {
	if f.only != "" && f.only != op {
		return nil
	}
	f.n++
	f.did = append(f.did, op)
	if f.n == f.at {
		f.op = op
		return errFault
	}
	return nil
}

type faultFile struct {
	fs.File
	f *faultFS
}

func (f *faultFile) Write(p []byte) (int, error) {
	if err := f.f.fault("write"); err != nil {
		return 0, err
	}
	return f.File.(io.Writer).Write(p)
}

func (f *faultFile) Close() error {
	err := f.f.fault("close")
	if e := f.File.Close(); err == nil {
		err = e
	}
	return err
}

func (f *faultFS) Create(name string) (fs.File, error) {
	if err := f.fault("create"); err != nil {
		return nil, err
	}
	file, err := f.rootedFS.Create(name)
	if err != nil {
		return nil, err
	}
	return &faultFile{file, f}, nil
}

func (f *faultFS) Chmod(name string, m fs.FileMode) error {
	if err := f.fault("chmod"); err != nil {
		return err
	}
	return f.rootedFS.Chmod(name, m)
}

func (f *faultFS) Chtimes(name string, a, m time.Time) error {
	if err := f.fault("chtimes"); err != nil {
		return err
	}
	return f.rootedFS.Chtimes(name, a, m)
}

func (f *faultFS) MkdirAll(name string, m fs.FileMode) error {
	if err := f.fault("mkdirall"); err != nil {
		return err
	}
	return f.rootedFS.MkdirAll(name, m)
}

type faultReader struct{ data string }

func (r *faultReader) Read(p []byte) (int, error) {
	if r.data == "" {
		return 0, errFault
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

// TestP27_Faults: what cannot be written is an error, after which nothing else is generated
func TestP27_Faults(t *testing.T) {
	defer syscall.Umask(syscall.Umask(0o22))
	old := os.Getenv("TERM")
	os.Setenv("TERM", "dumb")
	defer os.Setenv("TERM", old)
	pbt.Run(t, "an operation of the file system or a reader fails", 2500, func(c *pbt.C) {
		root := t.TempDir()
		defer os.RemoveAll(root)
		fsys := &faultFS{rootedFS: &rootedFS{root: root, open: map[string]int{}}}
		fsys.at = rapid.IntRange(0, 8).Draw(c.T, "at")
		fsys.only = rapid.SampledFrom([]string{"", "", "create", "write", "close", "chmod", "chtimes", "mkdirall"}).Draw(c.T, "only")
		for _, f := range []string{"a", "d/b"} {
			if rapid.Bool().Draw(c.T, "exists") {
				_ = os.MkdirAll(filepath.Join(root, path.Dir(f)), 0o755)
				_ = os.WriteFile(filepath.Join(root, f), []byte("package m\n"), 0o644)
			}
		}
		var texts []string
		var gens []template.Generator
		bad, reads := false, -1
		steps := 0
		note := func(name string, g template.FileGenerator) template.FileGenerator {
			return template.FileGeneratorFunc(func(ctx context.Context, oc *template.OutputContext, n string) error {
				if fsys.op != "" || reads >= 0 {
					c.Failf("%s of %s is generated after the fault at %s", name, n, fsys.op)
				}
				steps++
				if name == "bad reader" {
					reads = steps
				}
				return g.GenerateFile(ctx, oc, n)
			})
		}
		for range rapid.IntRange(1, 4).Draw(c.T, "files") {
			name := rapid.SampledFrom([]string{"a", "b", "x/y/z", "b"}).Draw(c.T, "name")
			var ops []template.FileGenerator
			text := name
			for range rapid.IntRange(1, 3).Draw(c.T, "ops") {
				o := rapid.SampledFrom([]string{"contents", "template", "touch", "mode", "file mode", "gofmt", "reader", "bad reader"}).Draw(c.T, "op")
				if o == "bad reader" && (bad || rapid.Bool().Draw(c.T, "not")) {
					o = "contents"
				}
				text += " " + o
				switch o {
				case "contents":
					ops = append(ops, note(o, template.Contents("package m\n")))
				case "template":
					ops = append(ops, note(o, template.Template(tt.Must(tt.New("t").Parse("package m\n")))))
				case "touch":
					ops = append(ops, note(o, template.Touch()))
				case "mode", "file mode", "gofmt":
					g := map[string]template.FileGenerator{"mode": template.Mode(0o755), "file mode": template.ReadOnly, "gofmt": template.Gofmt()}[o]
					ops = append(ops, note("contents", template.Contents("package m\n")), note(o, g))
				case "reader":
					ops = append(ops, note(o, template.Contents(strings.NewReader("package m\n"))))
				case "bad reader":
					bad = true
					ops = append(ops, note(o, template.Contents(&faultReader{rapid.SampledFrom([]string{"", "pack"}).Draw(c.T, "data")})))
				}
			}
			g := template.File(name, ops...)
			if rapid.Bool().Draw(c.T, "dir") {
				text = "d:" + text
				g = template.Dir("d", g)
			}
			texts = append(texts, text)
			gens = append(gens, g)
		}
		app := &cli.App{Name: "app", FS: fsys, Stdout: io.Discard, Stderr: io.Discard, Action: template.New(gens...)}
		err := app.RunContext(context.Background(), []string{"app"})
		c.Showf("fault at the operation %d %s: %s (%q)", fsys.at, fsys.only, strings.Join(texts, "; "), fsys.did)
		failed := fsys.op != "" || reads >= 0
		if failed {
			c.NonTrivial()
			c.Label("%s", cmp.Or(fsys.op, "reader"))
		}
		if failed != errors.Is(err, errFault) || !failed && err != nil {
			c.Failf("error %v; fault at %s %d", err, fsys.op, reads)
		}
		for p, n := range fsys.open {
			if n != 0 {
				c.Failf("%s is opened and not closed %d times", p, n)
			}
		}
	})
}
