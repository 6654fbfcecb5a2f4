package tool

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Carbonfrost/joe-cli/verifjoe"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// newApp is the command line of joe new app and what it asks for
type newApp struct {
	name, help, comment, version string
	color, table, http, license  bool

	force bool
	args  []string
}

var (
	dirName = rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 3).Draw(t, "kind") == 3 {
			return rapid.SampledFrom([]string{"a b", "é-ü", "{{x", "{{.App}}", "a=b", `q"uote`, "back\\slash", "Ünï_1", "x.go", "_x", "%d", "a\nb", "a,b", "'"}).Draw(t, "odd")
		}
		return rapid.StringMatching(`[a-z][a-z0-9_.-]{0,8}`).Draw(t, "name")
	})
	anyText = rapid.OneOf(
		rapid.SampledFrom([]string{"", "Does things", `say "hi"`, "back\\slash", "`tick`", "{{ .App.Name }}", "%s %d", "a\nb", "tab\t", "é☃", "\x7f", "*/", "//", "a,b=c", " "}),
		rapid.StringMatching("[ -~]{0,12}"),
	)
)

func genNewApp(t *rapid.T, dir string, globals ...string) *newApp {
	a := &newApp{}
	var groups [][]string
	text := func(target *string, gen *rapid.Generator[string], names ...string) {
		*target = gen.Draw(t, names[0])
		flag := rapid.SampledFrom(names).Draw(t, "flag")
		if len(flag) > 1 {
			if rapid.Bool().Draw(t, "inline") && *target != "" {
				groups = append(groups, []string{"--" + flag + "=" + *target})
			} else {
				groups = append(groups, []string{"--" + flag, *target})
			}
		} else {
			groups = append(groups, []string{"-" + flag, *target})
		}
	}
	noDash := func(g *rapid.Generator[string]) *rapid.Generator[string] {
		return g.Filter(func(s string) bool { return !strings.HasPrefix(s, "-") })
	}
	if rapid.IntRange(0, 5).Draw(t, "name?") == 5 {
		a.name = filepath.Base(dir)
	} else {
		text(&a.name, dirName, "name", "n")
	}
	if rapid.Bool().Draw(t, "help?") {
		text(&a.help, noDash(anyText), "help-text")
	}
	if rapid.Bool().Draw(t, "comment?") {
		text(&a.comment, noDash(anyText), "comment", "c")
	}
	if rapid.Bool().Draw(t, "version?") {
		text(&a.version, noDash(anyText), "app-version", "V")
	}
	for _, f := range []struct {
		name string
		p    *bool
	}{{"color", &a.color}, {"table", &a.table}, {"http", &a.http}, {"license", &a.license}} {
		if *f.p = rapid.Bool().Draw(t, f.name); *f.p {
			groups = append(groups, []string{"--" + f.name})
		}
	}
	groups = rapid.Permutation(groups).Draw(t, "order")
	a.force = rapid.IntRange(0, 4).Draw(t, "force") == 4
	a.args = append(a.args, "joe")
	a.args = append(a.args, globals...)
	if a.force {
		a.args = append(a.args, "--force")
	}
	a.args = append(a.args, "new", "app")
	for _, g := range groups {
		a.args = append(a.args, g...)
	}
	return a
}

// tree is what a directory contains
func tree(c *pbt.C, dir string) map[string]string {
	res := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			res[rel+"/"] = ""
			return nil
		}
		data, err := os.ReadFile(p)
		res[rel] = string(data)
		return err
	})
	if err != nil {
		c.Fatalf("cannot read %s: %v", dir, err)
	}
	return res
}

// fakeGo puts a program named go in the PATH that only notes how it is called,
// changes go.mod when it is told to, and fails when it is told to
func fakeGo(t *testing.T, root string) {
	bin := filepath.Join(root, "bin")
	if err := os.Mkdir(bin, 0755); err != nil {
		t.Fatal(err)
	}
	script := "#!/bin/sh\nfor a; do printf '%s\\n' \"$a\"; done >>\"" + root + "/go.log\"\nprintf 'end\\n' >>\"" + root + "/go.log\"\n" +
		"[ -e \"" + root + "/change\" ] && printf '\\n' >>go.mod\n[ ! -e \"" + root + "/fail\" ]\n"
	if err := os.WriteFile(filepath.Join(bin, "go"), []byte(script), 0755); err != nil {
		t.Fatal(err)
	}
	t.Setenv("PATH", bin)
}

// workDir makes an empty directory for one case
func workDir(c *pbt.C, root string) string {
	for _, f := range []string{"go.log", "fail", "change"} {
		_ = os.Remove(filepath.Join(root, f))
	}
	dir, err := os.MkdirTemp(root, "case")
	if err != nil {
		c.Fatalf("cannot make a directory: %v", err)
	}
	c.Cleanup(func() {
		_ = os.Chdir(root)
		_ = os.RemoveAll(dir)
	})
	if err := os.Chdir(dir); err != nil {
		c.Fatalf("cannot enter the directory: %v", err)
	}
	return dir
}

func joe(args []string) (string, error) {
	app := verifjoe.NewApp()
	var out bytes.Buffer
	app.Stdout = &out
	app.Stderr = &out
	err := app.RunContext(context.Background(), args)
	return out.String(), err
}

// reports takes the output apart: what happened, and to which file
func reports(c *pbt.C, out string, a *newApp, dry bool) [][2]string {
	var res [][2]string
	if a != nil {
		// names may contain anything, even a new line
		out = strings.ReplaceAll(out, "cmd/"+a.name+"/", "cmd/NAME/")
	}
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if line == "" {
			continue
		}
		what, file, ok := strings.Cut(strings.TrimSpace(line), "  ")
		if !ok {
			c.Failf("a line of the output is not a report: %q in %q", line, out)
		}
		file, isDry := strings.CutSuffix(file, " (dry-run)")
		if isDry != dry {
			c.Failf("the output does not tell dry runs apart: %q (dry run: %v)", line, dry)
		}
		res = append(res, [2]string{what, file})
	}
	return res
}

func goCalls(root string) []string {
	data, _ := os.ReadFile(filepath.Join(root, "go.log"))
	return strings.Split(string(data), "end\n")
}

// checkProgram compares the text of the generated main.go with what was asked for
func checkProgram(c *pbt.C, a *newApp, src string) {
	formatted, err := format.Source([]byte(src))
	if err != nil {
		c.Failf("the generated program does not parse: %v\n%s", err, src)
	}
	if string(formatted) != src {
		c.Failf("the generated program is not formatted:\n%s", src)
	}
	set := token.NewFileSet()
	file, err := parser.ParseFile(set, "main.go", src, parser.ParseComments)
	if err != nil {
		c.Failf("the generated program does not parse: %v\n%s", err, src)
	}
	if file.Name.Name != "main" {
		c.Failf("the generated program is package %s", file.Name.Name)
	}
	var imports []string
	for _, i := range file.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		imports = append(imports, p)
	}
	want := []string{"os", "github.com/Carbonfrost/joe-cli"}
	var uses []string
	if a.color {
		want = append(want, "github.com/Carbonfrost/joe-cli/extensions/color")
		uses = append(uses, "color.Options")
	}
	if a.table {
		want = append(want, "github.com/Carbonfrost/joe-cli/extensions/table")
		uses = append(uses, "table.Options")
	}
	if a.license {
		want = append(want, "embed")
		uses = append(uses, "cli.PrintLicense")
	}
	slices.Sort(imports)
	slices.Sort(want)
	if !slices.Equal(imports, want) {
		c.Failf("the generated program imports %q, want %q", imports, want)
	}
	fields := map[string]string{}
	used := map[string]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				used[x.Name+"."+n.Sel.Name] = true
			}
		case *ast.KeyValueExpr:
			if k, ok := n.Key.(*ast.Ident); ok {
				if lit, ok := n.Value.(*ast.BasicLit); ok && lit.Kind == token.STRING {
					fields[k.Name], _ = strconv.Unquote(lit.Value)
				}
			}
		}
		return true
	})
	wantFields := map[string]string{"Name": a.name, "HelpText": a.help, "Comment": a.comment, "Version": a.version}
	if !maps.Equal(fields, wantFields) {
		c.Failf("the generated program has the texts %q, want %q", fields, wantFields)
	}
	for _, u := range []string{"color.Options", "table.Options", "cli.PrintLicense"} {
		if used[u] != slices.Contains(uses, u) {
			c.Failf("the generated program uses %s: %v, want %v\n%s", u, used[u], slices.Contains(uses, u), src)
		}
	}
	if a.license && !strings.Contains(src, "//go:embed license.txt\nvar license string\n") {
		c.Failf("the generated program does not embed its license:\n%s", src)
	}
}

// TestP39_NewApp generates programs and checks their text, the files, the
// reports and the modules that are added.
func TestP39_NewApp(t *testing.T) {
	root := pbt.Unprivileged(t)
	fakeGo(t, root)
	pbt.Run(t, "at least one feature or text other than the name was asked for", 250, func(c *pbt.C) {
		dir := workDir(c, root)
		a := genNewApp(c.T, dir)
		existing := rapid.IntRange(0, 3).Draw(c.T, "existing")
		c.Showf("%q (existing: %d)", a.args, existing)
		if len(a.args) > 5 {
			c.NonTrivial()
		}
		main, license := filepath.Join("cmd", a.name, "main.go"), filepath.Join("cmd", a.name, "license.txt")
		before := map[string]string{"./": "", "go.mod": "module x\n", "keep.txt": "keep"}
		if existing == 1 {
			before["cmd/"] = ""
			before["cmd/"+a.name+"/"] = ""
			before[main] = "package other\n\nvar  x int\n// much longer than what replaces it: " + strings.Repeat("x", 2000)
			before["cmd/"+a.name+"/other.txt"] = "other"
		}
		for _, k := range slices.Sorted(maps.Keys(before)) {
			if strings.HasSuffix(k, "/") {
				_ = os.MkdirAll(k, 0755)
			}
		}
		for k, v := range before {
			if !strings.HasSuffix(k, "/") {
				_ = os.WriteFile(k, []byte(v), 0644)
			}
		}
		changeMod := rapid.IntRange(0, 3).Draw(c.T, "change") == 3
		if changeMod {
			_ = os.WriteFile(filepath.Join(root, "change"), nil, 0644)
			before["go.mod"] += "\n"
		}

		out, err := joe(a.args)
		if err != nil {
			c.Failf("joe new app fails: %v\noutput: %q\ntree: %q", err, out, tree(c, dir))
		}
		after := tree(c, dir)
		checkProgram(c, a, after[main])

		want := maps.Clone(before)
		want["cmd/"], want["cmd/"+a.name+"/"] = "", ""
		want[main] = after[main]
		wantReports := [][2]string{{"identical", "go.mod"}, {"identical", "go.sum"}, {"create", "cmd/NAME/main.go"}}
		if changeMod {
			wantReports[0][0] = "overwrite"
		}
		if existing == 1 {
			wantReports[2][0] = "overwrite"
		}
		if a.license {
			want[license] = "No license is available with this build."
			wantReports = append(wantReports, [2]string{"create", "cmd/NAME/license.txt"})
		}
		if !maps.Equal(after, want) {
			c.Failf("the files are %q, want %q", after, want)
		}
		if got := reports(c, out, a, false); !slices.Equal(got, wantReports) {
			c.Failf("the reports are %q, want %q", got, wantReports)
		}
		calls := []string{"get\n", ""}
		if a.http {
			calls[0] += "github.com/Carbonfrost/joe-cli-http\n"
		}
		if got := goCalls(root); !slices.Equal(got, calls) {
			c.Failf("go is called with %q, want %q", got, calls)
		}

		// again
		_ = os.Remove(filepath.Join(root, "change"))
		out, err = joe(a.args)
		if err != nil {
			c.Failf("joe new app fails the second time: %v", err)
		}
		if again := tree(c, dir); !maps.Equal(after, again) {
			c.Failf("the second time changes the files: %q, want %q", again, after)
		}
		for _, r := range reports(c, out, a, false) {
			if r[0] != "identical" {
				c.Failf("the second time reports %q", r)
			}
		}
		c.Label("license:%v", a.license)
		c.Label("existing:%v", existing == 1)
	})
}

// TestP39_DryRun runs the same without writing anything.
func TestP39_DryRun(t *testing.T) {
	root := pbt.Unprivileged(t)
	fakeGo(t, root)
	pbt.Run(t, "a directory to generate into exists, or a feature was asked for", 250, func(c *pbt.C) {
		dir := workDir(c, root)
		a := genNewApp(c.T, dir, "--dry-run")
		mod := rapid.SampledFrom([]string{"", "module x\n", "module x\n\nrequire github.com/Carbonfrost/joe-cli-http v1.0.0\n"}).Draw(c.T, "mod")
		if mod != "" {
			_ = os.WriteFile("go.mod", []byte(mod), 0644)
		}
		existing := rapid.Bool().Draw(c.T, "existing")
		if existing {
			_ = os.MkdirAll("cmd/"+a.name, 0755)
			_ = os.WriteFile("cmd/"+a.name+"/main.go", []byte("package  x"), 0644)
		}
		c.Showf("%q (existing %v, go.mod %q)", a.args, existing, mod)
		if existing || len(a.args) > 6 {
			c.NonTrivial()
		}
		before := tree(c, dir)
		out, err := joe(a.args)
		if err != nil {
			c.Failf("the dry run fails: %v\noutput: %q", err, out)
		}
		if after := tree(c, dir); !maps.Equal(before, after) {
			c.Failf("the dry run changes the files: %q, want %q", after, before)
		}
		if got := goCalls(root); len(got) > 1 {
			c.Failf("the dry run runs go %q", got)
		}
		var want [][2]string
		if a.http && !strings.Contains(mod, "joe-cli-http") {
			want = append(want, [2]string{"overwrite", "go.mod"}, [2]string{"overwrite", "go.sum"})
		}
		if existing {
			want = append(want, [2]string{"identical", "cmd/NAME/main.go"})
		} else {
			want = append(want, [2]string{"create", "cmd/NAME/main.go"})
		}
		if a.license {
			want = append(want, [2]string{"create", "cmd/NAME/license.txt"})
		}
		got := reports(c, out, a, true)
		// whether a file that exists would change is not known
		for i := range got {
			if existing && got[i][1] == "cmd/NAME/main.go" && got[i][0] == "overwrite" {
				got[i][0] = "identical"
			}
		}
		if !slices.Equal(got, want) {
			c.Failf("the reports of the dry run are %q, want %q", got, want)
		}
	})
}

// TestP39_Failure is about what stops the tool.
func TestP39_Failure(t *testing.T) {
	root := pbt.Unprivileged(t)
	fakeGo(t, root)
	pbt.Run(t, "every case: something fails", 100, func(c *pbt.C) {
		dir := workDir(c, root)
		a := genNewApp(c.T, dir)
		kind := rapid.SampledFrom([]string{"go", "file", "directory", "init"}).Draw(c.T, "kind")
		c.Showf("%s %q", kind, a.args)
		c.NonTrivial()
		c.Label("%s", kind)
		switch kind {
		case "go", "init":
			_ = os.WriteFile(filepath.Join(root, "fail"), nil, 0644)
		case "file":
			_ = os.WriteFile("cmd", []byte("file"), 0644)
		case "directory":
			_ = os.MkdirAll("cmd/"+a.name+"/main.go/x", 0755)
		}
		args := a.args
		if kind == "init" {
			args = []string{"joe", "init"}
		}
		before := tree(c, dir)
		out, err := joe(args)
		if err == nil {
			c.Failf("no error although it cannot work: %q", out)
		}
		if after := tree(c, dir); !maps.Equal(before, after) {
			c.Failf("the files are changed although it fails: %q, want %q", after, before)
		}
		if kind == "go" || kind == "init" {
			if got := reports(c, out, a, false); !slices.Equal(got, [][2]string{{"error", "go.mod"}}) {
				c.Failf("the failure of go is reported as %q", got)
			}
		}
	})
}

// TestP39_Compiles builds the generated programs and runs them.
func TestP39_Compiles(t *testing.T) {
	harness := os.Getenv("VERIF_HARNESS")
	if harness == "" {
		wd, err := os.Getwd()
		if err != nil {
			t.Fatal(err)
		}
		harness = filepath.Dir(wd)
	}
	path := os.Getenv("PATH")
	goTool, err := exec.LookPath("go")
	if err != nil {
		t.Fatal(err)
	}
	root := pbt.Unprivileged(t)
	fakeGo(t, root)
	pbt.Run(t, "a feature or text other than the name was asked for", 6, func(c *pbt.C) {
		cwd := workDir(c, root)
		a := genNewApp(c.T, cwd)
		c.Showf("%q", a.args)
		if len(a.args) > 5 {
			c.NonTrivial()
		}
		text, err := joe(a.args)
		if err != nil {
			c.Failf("joe new app fails: %v\noutput: %q", err, text)
		}
		// the go tool does not take directories of any name
		dir := filepath.Join(cwd, "src")
		if err := os.Rename(filepath.Join(cwd, "cmd", a.name), dir); err != nil {
			c.Failf("there is no program: %v", err)
		}
		src, err := os.ReadFile(filepath.Join(dir, "main.go"))
		if err != nil {
			c.Failf("there is no program: %v", err)
		}
		bin := filepath.Join(cwd, "program")
		build := exec.Command(goTool, "build", "-o", bin, filepath.Join(dir, "main.go"))
		build.Dir = harness
		build.Env = append(os.Environ(), "PATH="+path)
		pbt.Privileged(func() {
			if text, err := build.CombinedOutput(); err != nil {
				c.Failf("the generated program does not compile: %v\n%s\n%s", err, text, src)
			}
		})
		run := func(args ...string) string {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, bin, args...)
			cmd.Dir = cwd
			cmd.Env = []string{"PATH=/usr/bin:/bin", "TERM=dumb"}
			text, err := cmd.CombinedOutput()
			if err != nil {
				c.Failf("the generated program fails with %q: %v\n%s", args, err, text)
			}
			return string(text)
		}
		if got := run(); got != "Hello, world!" {
			c.Failf("the generated program prints %q", got)
		}
		if a.version == "" {
			a.version = "0.0.0"
		}
		if got, want := run("--version"), fmt.Sprintf("%s, version %s\n", a.name, a.version); got != want {
			c.Failf("the generated program prints the version %q, want %q", got, want)
		}
		if got := strings.Fields(run("--help")); len(got) < 2 || got[0] != "usage:" || got[1] != strings.Fields(a.name)[0] {
			c.Failf("the generated program prints the help %q", got)
		}
		if a.license {
			if got := run("--license"); strings.TrimSpace(got) != "No license is available with this build." {
				c.Failf("the generated program prints the license %q", got)
			}
		}
	})
}
