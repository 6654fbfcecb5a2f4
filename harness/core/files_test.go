package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// noStatFS is a file system with nothing but Open
type noStatFS struct{ f fs.FS }

func (n noStatFS) Open(name string) (fs.File, error) { return n.f.Open(name) }

func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrNotExist):
		return "not exist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded), errors.Is(err, os.ErrDeadlineExceeded):
		return "deadline"
	}
	return "error"
}

func readAll(f fs.File, err error) string {
	if err != nil {
		return errClass(err)
	}
	defer f.Close()
	if info, err := f.Stat(); err != nil || info.IsDir() {
		return fmt.Sprintf("directory %v", err)
	}
	data, err := io.ReadAll(f)
	return fmt.Sprintf("%q %s", data, errClass(err))
}

func writeTo(f fs.File, err error, data string) string {
	if err != nil {
		return errClass(err)
	}
	n, err := f.(io.Writer).Write([]byte(data))
	return fmt.Sprintf("%d %s %s", n, errClass(err), errClass(f.Close()))
}

func info(i fs.FileInfo, err error) string {
	if err != nil {
		return errClass(err)
	}
	if i.IsDir() {
		return i.Name() + " " + i.Mode().String()
	}
	return fmt.Sprintf("%s %d %v %v", i.Name(), i.Size(), i.Mode(), i.ModTime().Year())
}

func treeOf(dir string) string {
	var b strings.Builder
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", rel, err)
			return nil
		}
		i, _ := d.Info()
		if d.IsDir() {
			if rel != "." {
				fmt.Fprintf(&b, "%s/ %v\n", rel, i.Mode())
			}
			return nil
		}
		data, _ := os.ReadFile(p)
		fmt.Fprintf(&b, "%s %v %v %q\n", rel, i.Mode(), i.ModTime().Year(), data)
		return nil
	})
	return b.String()
}

// TestP28_FS: the operations on files are those of the operating system, in the directory of the file system
func TestP28_FS(t *testing.T) {
	defer syscall.Umask(syscall.Umask(0o22))
	parent := pbt.Unprivileged(t)
	count := 0
	pbt.Run(t, "random sequences of operations on files of every kind of file system, compared with package os on a copy; non-trivial: two or more operations succeed", 2500, func(c *pbt.C) {
		count++
		root := filepath.Join(parent, fmt.Sprint(count))
		dirs := [2]string{filepath.Join(root, "a"), filepath.Join(root, "b")}
		defer os.RemoveAll(root)
		for _, d := range dirs {
			for _, f := range []string{"c.txt", "d/c.txt", "d/e/f"} {
				if err := os.MkdirAll(filepath.Dir(filepath.Join(d, f)), 0o755); err != nil {
					t.Fatal(err)
				}
				if err := os.WriteFile(filepath.Join(d, f), []byte("data of "+f), 0o644); err != nil {
					t.Fatal(err)
				}
			}
		}
		kind := rapid.SampledFrom([]string{"dir", "abs", "new", "sys", "sub", "readonly", "open only", "app"}).Draw(c.T, "kind")
		readOnly := false
		prefix := ""
		var fsys fs.FS
		switch kind {
		case "dir":
			fsys = cli.DirFS(dirs[0])
		case "abs":
			fsys = cli.DirFS(root)
			prefix = dirs[0] + "/"
		case "new":
			fsys = cli.NewFS(cli.DirFS(dirs[0]))
		case "sys", "app":
			fsys = cli.NewSysFS(cli.DirFS(dirs[0]), strings.NewReader("in"), io.Discard)
		case "sub":
			s, err := fs.Sub(cli.DirFS(root), "a")
			if err != nil {
				c.Failf("Sub: %v", err)
			}
			fsys = s
		case "readonly":
			fsys, readOnly = os.DirFS(dirs[0]), true
			if rapid.Bool().Draw(c.T, "wrap") {
				fsys = cli.NewFS(fsys)
			}
		case "open only":
			fsys, readOnly = noStatFS{os.DirFS(dirs[0])}, true
		}
		c.Label("%s", kind)
		names := []string{"c.txt", "d", "d/c.txt", "d/e", "d/e/f", "new", "new/x", "g"}
		var steps []string
		succeeded := 0
		file := func(name string) *cli.File {
			f := &cli.File{Name: prefix + name, FS: fsys}
			if kind == "app" {
				f = new(cli.File)
				app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, FS: fsys, Args: []*cli.Arg{{Name: "f", Value: f, NArg: 1}}, Action: func() {}}
				if err := app.RunContext(context.Background(), []string{"app", name}); err != nil {
					c.Failf("app: %v", err)
				}
			}
			return f
		}
		for range rapid.IntRange(1, 6).Draw(c.T, "steps") {
			name := rapid.SampledFrom(names).Draw(c.T, "name")
			op := rapid.SampledFrom([]string{"open", "context", "openfile", "create", "chmod", "chown", "chtimes", "rename", "remove", "removeall", "mkdir", "mkdirall", "stat", "exists", "walk", "name"}).Draw(c.T, "op")
			f, p := file(name), filepath.Join(dirs[1], name)
			var got, want string
			mutates := true
			step := op + " " + name
			switch op {
			case "open":
				mutates = false
				a, aerr := f.Open()
				got = readAll(a, aerr)
				b, berr := os.Open(p)
				want = readAll(b, berr)
			case "context":
				mutates = false
				how := rapid.SampledFrom([]string{"live", "canceled", "late"}).Draw(c.T, "ctx")
				step += " " + how
				ctx, cancel := context.WithCancel(context.Background())
				if how == "late" {
					ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(time.Hour))
				}
				a, aerr := f.OpenContext(ctx)
				if how == "canceled" {
					cancel()
				}
				b, berr := os.Open(p)
				want = readAll(b, berr)
				if how == "canceled" && strings.HasPrefix(want, `"`) && !readOnly {
					want = `"" canceled`
				}
				got = readAll(a, aerr)
				cancel()
			case "openfile":
				flag := rapid.SampledFrom([]int{os.O_WRONLY, os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_APPEND, os.O_WRONLY | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_TRUNC}).Draw(c.T, "flag")
				perm := rapid.SampledFrom([]fs.FileMode{0o600, 0o644}).Draw(c.T, "perm")
				step += fmt.Sprintf(" %x %v", flag, perm)
				a, aerr := f.OpenFile(flag, perm)
				got = writeTo(a, aerr, "written")
				if !readOnly {
					b, berr := os.OpenFile(p, flag, perm)
					want = writeTo(b, berr, "written")
				}
			case "create":
				a, aerr := f.Create()
				got = writeTo(a, aerr, "created")
				if !readOnly {
					b, berr := os.Create(p)
					want = writeTo(b, berr, "created")
				}
			case "chmod":
				mode := rapid.SampledFrom([]fs.FileMode{0o744, 0o755, 0o700}).Draw(c.T, "mode")
				got = errClass(f.Chmod(mode))
				if !readOnly {
					want = errClass(os.Chmod(p, mode))
				}
			case "chown":
				got = errClass(f.Chown(os.Getuid(), os.Getgid()))
				if !readOnly {
					want = errClass(os.Chown(p, os.Getuid(), os.Getgid()))
				}
			case "chtimes":
				tm := time.Date(rapid.SampledFrom([]int{1999, 2010}).Draw(c.T, "year"), 5, 5, 0, 0, 0, 0, time.UTC)
				got = errClass(f.Chtimes(tm.AddDate(1, 0, 0), tm))
				if !readOnly {
					want = errClass(os.Chtimes(p, tm.AddDate(1, 0, 0), tm))
				}
			case "rename":
				to := rapid.SampledFrom(names).Draw(c.T, "to")
				step += " " + to
				got = errClass(f.Rename(prefix + to))
				if !readOnly {
					want = errClass(os.Rename(p, filepath.Join(dirs[1], to)))
				}
			case "remove":
				got = errClass(f.Remove())
				if !readOnly {
					want = errClass(os.Remove(p))
				}
			case "removeall":
				got = errClass(f.RemoveAll())
				if !readOnly {
					want = errClass(os.RemoveAll(p))
				}
			case "mkdir":
				got = errClass(f.Mkdir(0o750))
				if !readOnly {
					want = errClass(os.Mkdir(p, 0o750))
				}
			case "mkdirall":
				got = errClass(f.MkdirAll(0o700))
				if !readOnly {
					want = errClass(os.MkdirAll(p, 0o700))
				}
			case "stat":
				mutates = false
				got, want = info(f.Stat()), info(os.Stat(p))
			case "exists":
				mutates = false
				_, err := os.Stat(p)
				got, want = fmt.Sprint(f.Exists()), fmt.Sprint(err == nil)
				if errors.Is(err, syscall.ENOTDIR) { // whether a path below a file exists isn't claimed
					want = got
				}
			case "walk":
				mutates = false
				skip := rapid.SampledFrom([]string{"", "d/e", "c.txt"}).Draw(c.T, "skip")
				var a, b []string
				walk := func(res *[]string, base string) fs.WalkDirFunc {
					return func(p string, d fs.DirEntry, err error) error {
						p = strings.TrimPrefix(p, base)
						*res = append(*res, fmt.Sprintf("%s %s %v", p, errClass(err), d != nil && d.IsDir()))
						if p == skip {
							return fs.SkipDir
						}
						return nil
					}
				}
				aerr := f.Walk(walk(&a, prefix))
				berr := filepath.WalkDir(p, walk(&b, dirs[1]+"/"))
				got, want = fmt.Sprint(a, errClass(aerr)), fmt.Sprint(b, errClass(berr))
			case "name":
				mutates = false
				got = f.Ext() + " " + f.Dir() + " " + f.String()
				want = path.Ext(name) + " " + path.Dir(prefix+name) + " " + prefix + name
			}
			steps = append(steps, step+": "+got)
			if readOnly && mutates {
				want = "error"
			}
			if !strings.Contains(want, "error") && want != "not exist" && want != "exist" {
				succeeded++
			}
			if got != want {
				c.Showf("%s %q", kind, steps)
				c.Failf("%s: %s, expected %s", step, got, want)
			}
		}
		if succeeded > 1 {
			c.NonTrivial()
		}
		c.Showf("%s %q", kind, steps)
		if a, b := treeOf(dirs[0]), treeOf(dirs[1]); a != b {
			c.Failf("the files are\n%s\nexpected\n%s", a, b)
		}
	})
}

// a file system with one operation and one with all of them
type (
	recFS struct {
		fs.FS
		calls *[]string
	}
	recCreate      recFS
	recOpenFile    recFS
	recOpenContext recFS
	recChmod       recFS
	recChown       recFS
	recChtimes     recFS
	recRename      recFS
	recRemove      recFS
	recRemoveAll   recFS
	recMkdir       recFS
	recMkdirAll    recFS
	recStat        recFS
	recAll         struct {
		recCreate
		recOpenFile
		recOpenContext
		recChmod
		recChown
		recChtimes
		recRename
		recRemove
		recRemoveAll
		recMkdir
		recMkdirAll
		recStat
		f fs.FS
	}
)

func (r recAll) Open(name string) (fs.File, error) { return r.f.Open(name) }

var errRec = errors.New("refused by the recorder")

func rec(calls *[]string, f string, a ...any) error {
	*calls = append(*calls, fmt.Sprintf(f, a...))
	if strings.Contains((*calls)[len(*calls)-1], "refused") {
		return errRec
	}
	return nil
}

type fakeFile struct {
	fs.File
	name string
}

func (r recCreate) Create(n string) (fs.File, error) {
	return fakeFile{name: n}, rec(r.calls, "create %s", n)
}
func (r recOpenFile) OpenFile(n string, flag int, perm fs.FileMode) (fs.File, error) {
	return fakeFile{name: n}, rec(r.calls, "openfile %s %x %o", n, flag, perm)
}
func (r recOpenContext) OpenContext(c context.Context, n string) (fs.File, error) {
	return fakeFile{name: n}, rec(r.calls, "opencontext %s %v", n, c.Value(recCreate{}))
}
func (r recChmod) Chmod(n string, m fs.FileMode) error { return rec(r.calls, "chmod %s %o", n, m) }
func (r recChown) Chown(n string, u, g int) error      { return rec(r.calls, "chown %s %d %d", n, u, g) }
func (r recChtimes) Chtimes(n string, a, m time.Time) error {
	return rec(r.calls, "chtimes %s %d %d", n, a.Unix(), m.Unix())
}
func (r recRename) Rename(o, n string) error           { return rec(r.calls, "rename %s %s", o, n) }
func (r recRemove) Remove(n string) error              { return rec(r.calls, "remove %s", n) }
func (r recRemoveAll) RemoveAll(n string) error        { return rec(r.calls, "removeall %s", n) }
func (r recMkdir) Mkdir(n string, m fs.FileMode) error { return rec(r.calls, "mkdir %s %o", n, m) }
func (r recMkdirAll) MkdirAll(n string, m fs.FileMode) error {
	return rec(r.calls, "mkdirall %s %o", n, m)
}
func (r recStat) Stat(n string) (fs.FileInfo, error) { return nil, rec(r.calls, "stat %s", n) }

// TestP28_Delegate: an operation is that of the file system, or not supported
func TestP28_Delegate(t *testing.T) {
	kinds := []string{"create", "openfile", "opencontext", "chmod", "chown", "chtimes", "rename", "remove", "removeall", "mkdir", "mkdirall", "stat"}
	pbt.Run(t, "operations on files of file systems with one of the optional operations, all of them or none, given to the file, to NewFS or to the app; non-trivial: one of the operations is supported and one is not", 3000, func(c *pbt.C) {
		var calls []string
		m := fstest.MapFS{"name": {Data: []byte("data")}, "refused": {Data: []byte("data")}}
		r := recFS{m, &calls}
		kind := rapid.SampledFrom(append([]string{"all", "none"}, kinds...)).Draw(c.T, "kind")
		var fsys fs.FS
		switch kind {
		case "all":
			fsys = recAll{recCreate(r), recOpenFile(r), recOpenContext(r), recChmod(r), recChown(r), recChtimes(r), recRename(r), recRemove(r), recRemoveAll(r), recMkdir(r), recMkdirAll(r), recStat(r), m}
		case "none":
			fsys = m
		case "create":
			fsys = recCreate(r)
		case "openfile":
			fsys = recOpenFile(r)
		case "opencontext":
			fsys = recOpenContext(r)
		case "chmod":
			fsys = recChmod(r)
		case "chown":
			fsys = recChown(r)
		case "chtimes":
			fsys = recChtimes(r)
		case "rename":
			fsys = recRename(r)
		case "remove":
			fsys = recRemove(r)
		case "removeall":
			fsys = recRemoveAll(r)
		case "mkdir":
			fsys = recMkdir(r)
		case "mkdirall":
			fsys = recMkdirAll(r)
		case "stat":
			fsys = recStat(r)
		}
		has := func(op string) bool { return kind == "all" || kind == op }
		via := rapid.SampledFrom([]string{"file", "NewFS", "twice", "app"}).Draw(c.T, "via")
		switch via {
		case "NewFS":
			fsys = cli.NewFS(fsys)
		case "twice":
			fsys = cli.NewFS(cli.NewFS(fsys))
		}
		c.Showf("%s via %s", kind, via)
		yes, no := false, false
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "n"); i < n; i++ {
			name := rapid.SampledFrom([]string{"name", "name", "refused", "other"}).Draw(c.T, "name")
			op := rapid.SampledFrom(kinds).Draw(c.T, "op")
			f := &cli.File{Name: name, FS: fsys}
			if via == "app" {
				f = new(cli.File)
				app := newApp("app")
				app.FS, app.Args = fsys, []*cli.Arg{{Name: "f", Value: f, NArg: 1}}
				if err := run(app, name); err != nil {
					c.Failf("app: %v", err)
				}
			}
			num := rapid.IntRange(1, 0o777).Draw(c.T, "num")
			calls = nil
			var err error
			want, supported := "", has(op)
			var file fs.File
			switch op {
			case "create":
				file, err = f.Create()
				want = "create " + name
				if !supported && kind == "openfile" {
					supported = true
					want = fmt.Sprintf("openfile %s %x 666", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC)
				}
			case "openfile":
				file, err = f.OpenFile(num, fs.FileMode(num))
				want = fmt.Sprintf("openfile %s %x %o", name, num, num)
			case "opencontext":
				file, err = f.OpenContext(context.WithValue(context.Background(), recCreate{}, "v"))
				want = fmt.Sprintf("opencontext %s v", name)
			case "chmod":
				err = f.Chmod(fs.FileMode(num))
				want = fmt.Sprintf("chmod %s %o", name, num)
			case "chown":
				err = f.Chown(num, num+1)
				want = fmt.Sprintf("chown %s %d %d", name, num, num+1)
			case "chtimes":
				err = f.Chtimes(time.Unix(int64(num), 0), time.Unix(int64(num+1), 0))
				want = fmt.Sprintf("chtimes %s %d %d", name, num, num+1)
			case "rename":
				err = f.Rename("to")
				want = fmt.Sprintf("rename %s to", name)
			case "remove":
				err = f.Remove()
				want = "remove " + name
			case "removeall":
				err = f.RemoveAll()
				want = "removeall " + name
			case "mkdir":
				err = f.Mkdir(fs.FileMode(num))
				want = fmt.Sprintf("mkdir %s %o", name, num)
			case "mkdirall":
				err = f.MkdirAll(fs.FileMode(num))
				want = fmt.Sprintf("mkdirall %s %o", name, num)
			case "stat":
				_, err = f.Stat()
				want = "stat " + name
			}
			c.Showf("%s %s %o: %v %q", op, name, num, err, calls)
			if supported {
				yes = true
				if len(calls) != 1 || calls[0] != want || (err != nil) != (name == "refused") || err != nil && !errors.Is(err, errRec) {
					c.Failf("%s: calls %q, error %v, want %q", op, calls, err, want)
				}
				if ff, ok := file.(fakeFile); file != nil && (!ok || ff.name != name) {
					c.Failf("%s: the file is %v", op, file)
				}
				continue
			}
			no = true
			if len(calls) > 0 {
				c.Failf("%s: calls %q", op, calls)
			}
			switch op {
			case "opencontext", "stat": // which every file system can do
				if (err == nil) != (name != "other") {
					c.Failf("%s %s: error %v", op, name, err)
				}
			default:
				var pe *fs.PathError
				if !errors.As(err, &pe) || pe.Path != name || file != nil {
					c.Failf("%s %s: error %v, file %v", op, name, err, file)
				}
			}
		}
		if yes && no {
			c.NonTrivial()
		}
	})
}

// TestP28_Context: reading a file which was opened with a context stops when the context ends
func TestP28_Context(t *testing.T) {
	parent := pbt.Unprivileged(t)
	n := 0
	pbt.Run(t, "a file or a pipe opened with a context, read and written in steps, and a context that is canceled or whose deadline passes at some step; non-trivial: some data is read before the end", 300, func(c *pbt.C) {
		n++
		name := filepath.Join(parent, fmt.Sprint("ctx", n))
		defer os.Remove(name)
		pipe := rapid.Bool().Draw(c.T, "pipe")
		data := strings.Repeat("0123456789", rapid.IntRange(1, 5).Draw(c.T, "size"))
		if pipe {
			if err := syscall.Mkfifo(name, 0o600); err != nil {
				t.Fatal(err)
			}
			w, err := os.OpenFile(name, os.O_RDWR, 0)
			if err != nil {
				t.Fatal(err)
			}
			defer w.Close()
			w.WriteString(data)
		} else if err := os.WriteFile(name, []byte(data), 0o600); err != nil {
			t.Fatal(err)
		}
		steps := rapid.IntRange(0, len(data)/10).Draw(c.T, "steps")
		how := rapid.SampledFrom([]string{"cancel", "deadline"}).Draw(c.T, "how")
		if how == "deadline" && !pipe {
			how = "cancel"
		}
		c.Showf("pipe %v, %d bytes, %s after %d steps", pipe, len(data), how, steps)
		ctx, cancel := context.WithCancel(context.Background())
		if how == "deadline" {
			ctx, cancel = context.WithTimeout(context.Background(), 20*time.Millisecond)
		}
		defer cancel()
		dir := cli.DirFS(parent)
		f, err := (&cli.File{Name: filepath.Base(name), FS: dir}).OpenContext(ctx)
		if err != nil {
			c.Failf("open: %v", err)
		}
		defer f.Close()
		buf := make([]byte, 10)
		if how == "deadline" {
			// all there is can be read, and then nothing comes
			done := make(chan error, 1)
			go func() {
				_, err := io.ReadAll(f)
				done <- err
			}()
			select {
			case err := <-done:
				if !errors.Is(err, context.DeadlineExceeded) && !errors.Is(err, os.ErrDeadlineExceeded) {
					c.Failf("reading ends with %v", err)
				}
				c.NonTrivial()
			case <-time.After(30 * time.Second):
				c.Failf("reading goes on after the deadline")
			}
			return
		}
		for i := 0; i < steps; i++ {
			c.NonTrivial()
			k, err := f.Read(buf)
			if k != 10 || err != nil || string(buf) != "0123456789" {
				c.Failf("step %d: %q %v", i, buf[:k], err)
			}
		}
		if w, ok := f.(io.Writer); ok {
			if _, err := w.Write([]byte("x")); err == nil {
				c.Failf("a file opened for reading can be written")
			}
		}
		if pipe && steps == len(data)/10 {
			// the context ends while reading waits for data, which then comes
			w, err := os.OpenFile(name, os.O_WRONLY, 0)
			if err != nil {
				t.Fatal(err)
			}
			defer w.Close()
			done := make(chan error, 1)
			go func() {
				_, err := f.Read(buf)
				done <- err
			}()
			time.Sleep(time.Millisecond)
			cancel()
			w.WriteString(data)
			if err := <-done; !errors.Is(err, context.Canceled) {
				c.Failf("the end while reading: %v", err)
			}
		}
		cancel()
		if k, err := f.Read(buf); k != 0 || !errors.Is(err, context.Canceled) {
			c.Failf("after the end: %q %v", buf[:k], err)
		}
		if w, ok := f.(io.Writer); ok {
			if k, err := w.Write([]byte("x")); k != 0 || !errors.Is(err, context.Canceled) {
				c.Failf("writing after the end: %d %v", k, err)
			}
		}
	})
}

// TestP28_Dash: the file named by a dash reads the input and writes the output of the app
func TestP28_Dash(t *testing.T) {
	stdinName := filepath.Join(pbt.Unprivileged(t), "stdin")
	pbt.Run(t, "a file or file set named by a dash in an app with its own input and output, and random operations on it; non-trivial: it is read and written", 3000, func(c *pbt.C) {
		in := rapid.SampledFrom([]string{"", "one\ntwo\n", "é", strings.Repeat("x", 10000)}).Draw(c.T, "in")
		reader := rapid.SampledFrom([]string{"buffer", "strings", "only reader", "file"}).Draw(c.T, "reader")
		kind := rapid.SampledFrom([]string{"arg", "flag", "set", "recursive set"}).Draw(c.T, "kind")
		ops := rapid.SliceOfN(rapid.SampledFrom([]string{"read", "readfile", "create", "write", "append", "stat", "exists", "openwrite", "print", "string", "readonly open", "seek", "readat", "readwrite"}), 1, 5).Draw(c.T, "ops")
		c.Showf("%s of %q (%s): %q", kind, in, reader, ops)
		c.Label("%s", kind)
		var stdin io.Reader
		switch reader {
		case "buffer":
			stdin = bytes.NewBufferString(in)
		case "strings":
			stdin = strings.NewReader(in)
		case "file":
			if err := os.WriteFile(stdinName, []byte(in), 0o600); err != nil {
				t.Fatal(err)
			}
			f, err := os.Open(stdinName)
			if err != nil {
				t.Fatal(err)
			}
			defer f.Close()
			stdin = f
		default:
			stdin = struct{ io.Reader }{strings.NewReader(in)}
		}
		var out bytes.Buffer
		wantOut := ""
		rest := in
		reads, writes := 0, 0
		var problem string
		fail := func(f string, a ...any) error { problem = fmt.Sprintf(f, a...); return nil }
		visit := func(ctx *cli.Context, f *cli.File) error {
			if f.Name != "-" {
				return fail("the name is %q", f.Name)
			}
			for i, op := range ops {
				text := fmt.Sprintf("%s%d;", op, i)
				put := func(w fs.File, err error) {
					writes++
					if err != nil {
						fail("%s: %v", op, err)
						return
					}
					if _, err := w.(io.Writer).Write([]byte(text)); err != nil {
						fail("%s: %v", op, err)
					}
					wantOut += text
				}
				switch op {
				case "read":
					reads++
					r, err := f.Open()
					if err != nil {
						return fail("open: %v", err)
					}
					data, err := io.ReadAll(r)
					if err != nil || string(data) != rest {
						return fail("reads %q %v, expected %q", data, err, rest)
					}
					rest = ""
				case "readfile":
					if reader == "file" { // which is closed then
						continue
					}
					reads++
					data, err := fs.ReadFile(f.FS, "-")
					if err != nil || string(data) != rest {
						return fail("ReadFile gives %q %v, expected %q", data, err, rest)
					}
					rest = ""
				case "create":
					put(f.Create())
				case "write":
					put(f.OpenFile(os.O_WRONLY, 0o644))
				case "append":
					put(f.OpenFile(os.O_RDWR|os.O_APPEND, 0o644))
				case "openwrite":
					put(f.Open())
				case "string":
					w, err := f.Create()
					if err != nil {
						return fail("create: %v", err)
					}
					writes++
					n, err := w.(io.StringWriter).WriteString(text)
					if n != len(text) || err != nil {
						return fail("WriteString gives %d %v", n, err)
					}
					wantOut += text
				case "readonly open":
					reads++
					r, err := f.OpenFile(os.O_RDONLY, 0)
					if err != nil {
						return fail("open: %v", err)
					}
					data, err := io.ReadAll(r)
					if err != nil || string(data) != rest {
						return fail("reads %q %v, expected %q", data, err, rest)
					}
					rest = ""
				case "readwrite":
					if _, err := f.OpenFile(os.O_RDWR, 0); err == nil {
						return fail("opened for reading and writing")
					}
				case "seek":
					if reader != "strings" && reader != "file" {
						continue
					}
					r, err := f.Open()
					if err != nil {
						return fail("open: %v", err)
					}
					off := int64(len(in) / 2)
					n, err := r.(io.Seeker).Seek(off, io.SeekStart)
					if err != nil || n != off {
						return fail("Seek(%d) gives %d %v", off, n, err)
					}
					rest = in[off:]
				case "readat":
					if reader != "strings" && reader != "file" {
						continue
					}
					r, err := f.Open()
					if err != nil {
						return fail("open: %v", err)
					}
					off := len(in) / 3
					buf := make([]byte, 4)
					n, _ := r.(io.ReaderAt).ReadAt(buf, int64(off))
					if want := in[off:min(len(in), off+4)]; string(buf[:n]) != want {
						return fail("ReadAt(%d) gives %q, want %q", off, buf[:n], want)
					}
				case "print":
					fmt.Fprint(ctx.Stdout, text)
					wantOut += text
				case "stat":
					if i, err := f.Stat(); err == nil && (i == nil || i.IsDir()) {
						return fail("Stat gives %v", i)
					} else if reader == "file" && (err != nil || i.Size() != int64(len(in)) || i.Name() != "stdin") {
						return fail("Stat gives %v, %v", i, err)
					}
				case "exists":
					if !f.Exists() {
						return fail("it does not exist")
					}
				}
			}
			return nil
		}
		app := &cli.App{Name: "app", Stdin: stdin, Stdout: &out, Stderr: io.Discard}
		visited := 0
		app.Action = func(ctx *cli.Context) error {
			if kind == "arg" || kind == "flag" {
				visited++
				return visit(ctx, ctx.File("f"))
			}
			if !ctx.FileSet("f").Exists() {
				return fail("the set does not exist")
			}
			return ctx.FileSet("f").Do(func(f *cli.File, err error) error {
				visited++
				if err != nil {
					return err
				}
				return visit(ctx, f)
			})
		}
		args := []string{"app", "-"}
		switch kind {
		case "flag":
			app.Flags = []*cli.Flag{{Name: "f", Value: new(cli.File), Options: cli.MustExist}}
			args = []string{"app", "-f", "-"}
		case "arg":
			app.Args = []*cli.Arg{{Name: "f", Value: new(cli.File), Options: cli.MustExist}}
		default:
			app.Args = []*cli.Arg{{Name: "f", Value: &cli.FileSet{Recursive: kind == "recursive set"}, Options: cli.MustExist}}
		}
		if err := app.RunContext(context.Background(), args); err != nil {
			c.Failf("error: %v", err)
		}
		if problem != "" {
			c.Failf("%s", problem)
		}
		if visited != 1 {
			c.Failf("visited %d times", visited)
		}
		if out.String() != wantOut {
			c.Failf("the output is %q, expected %q", out.String(), wantOut)
		}
		if reads > 0 && writes > 0 {
			c.NonTrivial()
		}
	})
}

// TestP28_FileSet: a file set visits the files named, in order, and those within if it is recursive
func TestP28_FileSet(t *testing.T) {
	pbt.Run(t, "random trees and file sets given as flags, args, lines of a file, with and without recursion, missing files, stops; non-trivial: two or more files are visited", 5000, func(c *pbt.C) {
		tree := fstest.MapFS{}
		var all []string
		for _, f := range []string{"a", "b.txt", "d/a", "d/b", "d/e/c", "d/e/f/x", "g/y", "z"} {
			if rapid.IntRange(0, 3).Draw(c.T, "exists") > 0 {
				tree[f] = &fstest.MapFile{Data: []byte("data of " + f)}
				all = append(all, f)
			}
		}
		isDir := map[string]bool{}
		exists := map[string]bool{}
		for _, f := range all {
			exists[f] = true
			for d := path.Dir(f); d != "."; d = path.Dir(d) {
				isDir[d], exists[d] = true, true
			}
		}
		names := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b.txt", "d", "d/e", "d/a", "g", "z", "nope", "d/nope"}), 0, 4).Draw(c.T, "names")
		recursive := rapid.Bool().Draw(c.T, "recursive")
		form := rapid.SampledFrom([]string{"literal", "arg", "flag", "data", "reference"}).Draw(c.T, "form")
		plain := rapid.Bool().Draw(c.T, "plain fs")
		c.Label("%s", form)
		c.Showf("%s of %q recursive %v plain %v in %q", form, names, recursive, plain, all)

		// expected
		type seen struct {
			name string
			ok   bool
			dir  bool
		}
		var want []seen
		allExist := true
		for _, n := range names {
			if !exists[n] {
				allExist = false
			}
			if !recursive {
				want = append(want, seen{n, true, false})
				continue
			}
			want = append(want, seen{n, exists[n], isDir[n]})
			var within []string
			for f := range exists {
				if strings.HasPrefix(f, n+"/") {
					within = append(within, f)
				}
			}
			slices.SortFunc(within, func(a, b string) int { return slices.Compare(strings.Split(a, "/"), strings.Split(b, "/")) })
			for _, f := range within {
				want = append(want, seen{f, true, isDir[f]})
			}
		}
		if len(want) > 1 {
			c.NonTrivial()
		}
		var fsys fs.FS = tree
		if plain {
			fsys = noStatFS{tree}
		}
		// the set
		set := &cli.FileSet{}
		var fromData strings.Builder
		for i, n := range names {
			fromData.WriteString([]string{"", "# comment\n", "\n  \n", "; x\n", "\t"}[(i+len(names))%5] + n + "\n")
		}
		switch form {
		case "literal":
			set.Files = names
			set.FS, set.Recursive = fsys, recursive
		case "data":
			if err := cli.SetData(set, fromData.String()); err != nil {
				c.Failf("SetData: %v", err)
			}
			set.FS, set.Recursive = fsys, recursive
		default:
			app := &cli.App{Name: "app", FS: fsys, Stdout: io.Discard, Stderr: io.Discard, Action: func(ctx *cli.Context) {
				if ctx.FileSet("files") != set {
					c.Failf("the context gives another set")
				}
			}}
			// the default is replaced
			set.Files = []string{"default"}
			var tokens []string
			switch form {
			case "arg":
				app.Args = []*cli.Arg{{Name: "files", Value: set, Uses: cli.Accessory("-", (*cli.FileSet).RecursiveFlag)}}
				tokens = slices.Clone(names)
			case "flag":
				app.Flags = []*cli.Flag{{Name: "files", Value: set, Uses: cli.Accessory("", (*cli.FileSet).RecursiveFlag)}}
				for _, n := range names {
					tokens = append(tokens, "--files", n)
				}
			case "reference":
				tree["list"] = &fstest.MapFile{Data: []byte(fromData.String())}
				app.Flags = []*cli.Flag{{Name: "files", Value: set, Options: cli.FileReference, Uses: cli.Accessory("-", (*cli.FileSet).RecursiveFlag)}}
				tokens = []string{"--files", "list"}
			}
			if recursive {
				flag := "--files-recursive"
				if form == "flag" {
					flag = "--recursive"
				}
				tokens = append([]string{flag}, tokens...)
			}
			if err := app.RunContext(context.Background(), append([]string{"app"}, tokens...)); err != nil {
				c.Failf("error: %v", err)
			}
			delete(tree, "list")
			if len(names) == 0 && form != "reference" {
				if !slices.Equal(set.Files, []string{"default"}) {
					c.Failf("the default is %q", set.Files)
				}
				return
			}
		}
		if !slices.Equal(set.Files, names) {
			c.Failf("the files are %q", set.Files)
		}
		if set.Recursive != recursive {
			c.Failf("Recursive is %v", set.Recursive)
		}
		if s := set.String(); s != cli.Join(names) {
			c.Failf("String gives %q", s)
		}
		if set.Exists() != allExist {
			c.Failf("Exists is %v", set.Exists())
		}
		check := func(i int, f *cli.File, err error) {
			if i >= len(want) {
				c.Failf("visit %d: %s", i, f.Name)
			}
			w := want[i]
			if f.Name != w.name || (err == nil) != w.ok {
				c.Failf("visit %d: %s %v, expected %v", i, f.Name, err, w)
			}
			if err == nil && exists[f.Name] && !isDir[f.Name] {
				r, err := f.Open()
				if err != nil {
					c.Failf("open %s: %v", f.Name, err)
				}
				if data, _ := io.ReadAll(r); string(data) != "data of "+f.Name {
					c.Failf("%s holds %q", f.Name, data)
				}
			}
			if f.Exists() != exists[f.Name] {
				c.Failf("%s exists: %v", f.Name, f.Exists())
			}
		}
		stop := rapid.IntRange(0, 6).Draw(c.T, "stop")
		n := 0
		for f, err := range set.All() {
			check(n, f, err)
			n++
			if n == stop {
				break
			}
		}
		total := len(want)
		if stop > 0 && stop < total {
			total = stop
		}
		if n != total {
			c.Failf("All visits %d, expected %d of %v", n, total, want)
		}
		n = 0
		boom := errors.New("boom")
		err := set.Do(func(f *cli.File, err error) error {
			check(n, f, err)
			n++
			if n == stop {
				return boom
			}
			return nil
		})
		if n != total || (err == boom) != (stop > 0 && stop <= len(want)) || err != nil && err != boom {
			c.Failf("Do visits %d, error %v", n, err)
		}
		set.Reset()
		if len(set.Files) > 0 {
			c.Failf("Reset keeps %q", set.Files)
		}
	})
}
