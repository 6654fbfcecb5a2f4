// Package pbt is the small layer between the property tests and rapid: it
// counts the generated cases, keeps the distinct non-trivial ones, keeps
// samples, and writes down the minimal failing case so that the runner
// (check.py) can turn it into a replay file.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C is one generated case.
type C struct {
	*rapid.T
	r          *recorder
	desc       strings.Builder
	nontrivial bool
	key        string
	labels     []string
}

type recorder struct {
	mu      sync.Mutex
	failing bool

	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	FailCase    string         `json:"fail_case"`
	Kind        string         `json:"kind"`

	seen map[uint64]bool
}

// Scale is the factor applied to the number of checks.
func Scale() float64 {
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && s > 0 {
		return s
	}
	return 1
}

// Run drives prop with generated cases: checks is the number of them at scale 1
// for one shard.
func Run(t *testing.T, rule string, checks int, prop func(c *C)) {
	t.Helper()
	n := int(float64(checks) * Scale())
	if n < 1 {
		n = 1
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	r := &recorder{Name: t.Name(), Rule: rule, Labels: map[string]int{}, seen: map[uint64]bool{}}
	defer func() {
		r.mu.Lock()
		r.Failed = t.Failed()
		r.mu.Unlock()
		r.write()
	}()

	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, r: r}
		stop := r.watch(c)
		defer func() {
			stop()
			p := recover()
			if p == nil {
				if rt.Failed() {
					r.fail(c)
				} else {
					r.finish(c)
				}
				return
			}
			switch fmt.Sprintf("%T", p) {
			case "rapid.invalidData":
				// the generator gave up on this draw: not a case
			case "rapid.stopTest":
				r.fail(c)
			default:
				c.Showf("FAILED: panic: %v\n%s", p, frames())
				r.fail(c)
			}
			panic(p)
		}()
		prop(c)
	})
}

// frames is the part of the stack that lies in the code under test.
func frames() string {
	var b strings.Builder
	lines := strings.Split(string(debug.Stack()), "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i+1], "\t/repo/") {
			b.WriteString(lines[i] + "\n" + lines[i+1] + "\n")
		}
	}
	return b.String()
}

// Showf adds to the human readable text of the case.
func (c *C) Showf(format string, args ...any) {
	fmt.Fprintf(&c.desc, format, args...)
	c.desc.WriteByte('\n')
}

// NonTrivial marks the case as non-trivial. Its identity is the text of Showf.
func (c *C) NonTrivial() { c.nontrivial = true }

// Label classifies the case.
func (c *C) Label(format string, args ...any) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// Failf reports that the property is broken.
func (c *C) Failf(format string, args ...any) {
	c.T.Helper()
	c.Showf("FAILED: "+format, args...)
	c.T.Fatalf(format, args...)
}

func (r *recorder) finish(c *C) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.failing {
		return
	}
	r.Evaluations++
	for _, l := range c.labels {
		r.Labels[l]++
	}
	if c.nontrivial {
		r.Nontrivial++
		h := fnv.New64a()
		h.Write([]byte(r.Name))
		h.Write([]byte(c.desc.String()))
		k := h.Sum64()
		if !r.seen[k] {
			r.seen[k] = true
			r.Hashes = append(r.Hashes, k)
			n := len(r.Hashes)
			if n == 3 || n == 20 || n == 90 {
				s := c.desc.String()
				if len(s) > 1500 {
					s = s[:1500] + "…"
				}
				r.Samples = append(r.Samples, s)
			}
		}
	}
}

func (r *recorder) fail(c *C) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.failing {
		r.Evaluations++
	}
	r.failing = true
	r.FailCase = c.desc.String()
}

// Unprivileged makes a scratch directory the working directory and, for root,
// continues as a user who can write nowhere but there (and in /tmp): what the
// code under test changes by mistake is nothing real. The privileges come back
// when the results are written.
func Unprivileged(t *testing.T) string {
	t.Helper()
	const nobody = 65534
	dir, err := os.MkdirTemp("/tmp", "verif")
	if err != nil {
		t.Fatal(err)
	}
	t.Chdir(dir)
	t.Cleanup(func() {
		privileged()
		_ = os.RemoveAll(dir)
	})
	if os.Geteuid() == 0 {
		if err := os.Chown(dir, nobody, nobody); err != nil {
			t.Fatal(err)
		}
		if err := syscall.Setreuid(-1, nobody); err != nil {
			t.Fatal(err)
		}
	}
	return dir
}

// Privileged calls fn with the privileges that Unprivileged took away.
func Privileged(fn func()) {
	if os.Getuid() != 0 || os.Geteuid() == 0 {
		fn()
		return
	}
	euid := os.Geteuid()
	privileged()
	defer func() { _ = syscall.Setreuid(-1, euid) }()
	fn()
}

func privileged() {
	if os.Getuid() == 0 && os.Geteuid() != 0 {
		_ = syscall.Setreuid(-1, 0)
	}
}

func (r *recorder) write() {
	privileged()
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	data, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	name := strings.ReplaceAll(r.Name, "/", "_") + ".json"
	if err := os.WriteFile(filepath.Join(dir, name), data, 0o644); err != nil {
		panic(err)
	}
}

const (
	// a case needs milliseconds of processor time
	cpuBudget  = 90 * time.Second
	heapBudget = 4 << 30
)

// watch ends the process when one case has used an amount of processor time or
// of memory that is several orders of magnitude above what any case needs: the
// code under test does not terminate on that input.
func (r *recorder) watch(c *C) func() {
	quit := make(chan struct{})
	go func() {
		start := cpuTime()
		tick := time.NewTicker(2 * time.Second)
		defer tick.Stop()
		for {
			select {
			case <-quit:
				return
			case <-tick.C:
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				kind := ""
				if cpuTime()-start > cpuBudget {
					kind = "does not terminate (one case used more than 90 s of processor time)"
				} else if ms.HeapAlloc > heapBudget {
					kind = "does not terminate (one case allocated more than 4 GB)"
				}
				if kind != "" {
					r.mu.Lock()
					r.failing = true
					r.Evaluations++
					r.FailCase = c.desc.String() + "FAILED: " + kind + "\n"
					r.Failed = true
					r.Kind = "nontermination"
					r.mu.Unlock()
					r.write()
					os.Exit(7)
				}
			}
		}
	}()
	return func() { close(quit) }
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Known reports whether a recorded finding (known_findings.json) still shows;
// the runner prints the KNOWN-FINDING line for it.
func Known(t *testing.T, id string, stillFails bool) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" || !stillFails {
		return
	}
	if err := os.WriteFile(filepath.Join(dir, "known-"+id), nil, 0o644); err != nil {
		t.Fatal(err)
	}
}
