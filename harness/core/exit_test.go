package core

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

var codes = map[cli.ErrorCode]string{
	cli.UnexpectedArgument: "unexpected argument", cli.CommandNotFound: "is not a command", cli.UnknownOption: "unknown option",
	cli.MissingArgument: "missing parameter", cli.InvalidArgument: "parameter not valid", cli.ExpectedArgument: "expected argument",
	cli.UnknownExpr: "unknown expression", cli.ArgsMustPrecedeExprs: "arguments must precede expressions",
	cli.FlagUsedAfterArgs: "flag used after arguments", cli.ExpectedRequiredOption: "is required and must be specified",
}

// TestP11_Exit: Exit has the text of its operands and the code that comes last.
func TestP11_Exit(t *testing.T) {
	pbt.Run(t, "random operands of Exit (texts, numbers, errors, error codes, nil); non-trivial: at least two operands", 4000, func(c *pbt.C) {
		var args []any
		for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "n"); i < n; i++ {
			switch rapid.IntRange(0, 6).Draw(c.T, "what") {
			case 0, 1:
				args = append(args, rapid.SampledFrom([]string{"a", "bc", "", "100%", "%d", "x y"}).Draw(c.T, "text"))
			case 2, 3:
				args = append(args, rapid.IntRange(0, 255).Draw(c.T, "number"))
			case 4:
				args = append(args, errors.New("oh "+rapid.SampledFrom([]string{"no", "%v"}).Draw(c.T, "e")))
			case 5:
				args = append(args, cli.ErrorCode(rapid.IntRange(0, 9).Draw(c.T, "code")))
			case 6:
				args = append(args, rapid.SampledFrom([]any{2.5, true, 'x'}).Draw(c.T, "other"))
			}
		}
		c.Showf("%#v", args)
		if len(args) > 1 {
			c.NonTrivial()
		}
		got := cli.Exit(args...)
		code := 1
		msg := fmt.Sprint(args...)
		if len(args) > 0 {
			switch last := args[len(args)-1].(type) {
			case int:
				code = last
				msg = fmt.Sprint(args[:len(args)-1]...)
			case cli.ErrorCode:
				code = 2
				msg = codes[last]
				if len(args) > 1 {
					msg += ": " + fmt.Sprint(args[:len(args)-1]...)
				}
			}
		}
		if msg == "" {
			msg = fmt.Sprintf("exited with status %d", code)
		}
		if got.ExitCode() != code || got.Error() != msg {
			c.Failf("%q, %d, want %q, %d", got.Error(), got.ExitCode(), msg, code)
		}
		if again := cli.Exit(got); again != got {
			c.Failf("Exit(%v) is %v", got, again)
		}
	})
}

// TestMain also is the process that the next test runs.
func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_HELPER"); s != "" {
		parts := strings.SplitN(s, ",", 3)
		n, _ := strconv.Atoi(parts[1])
		app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "n", Value: new(int)}}, Action: func(*cli.Context) error {
			fmt.Println("ran")
			switch parts[0] {
			case "exit":
				return cli.Exit(parts[2], n)
			case "code":
				return cli.Exit(n)
			case "plain":
				return errors.New(parts[2])
			}
			return nil
		}}
		line := []string{"app"}
		switch parts[0] {
		case "parse":
			line = append(line, "--nope")
		case "help":
			line = append(line, "--help")
		}
		app.Run(line)
		fmt.Println("end")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// TestP11_Process: the exit status and the standard error of the process.
func TestP11_Process(t *testing.T) {
	pbt.Run(t, "processes that run an app which succeeds or fails in 5 ways, through the default exit handler; non-trivial: it fails", 12, func(c *pbt.C) {
		kind := rapid.SampledFrom([]string{"ok", "exit", "exit", "code", "plain", "parse", "help"}).Draw(c.T, "kind")
		n := rapid.IntRange(0, 120).Draw(c.T, "code")
		if rapid.IntRange(0, 3).Draw(c.T, "zero") == 0 {
			n = 0
		}
		msg := rapid.SampledFrom([]string{"a message", "two words, a comma", "100%d"}).Draw(c.T, "message")
		c.Showf("%s %d %q", kind, n, msg)
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_HELPER=%s,%d,%s", kind, n, msg))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		_ = cmd.Run()
		code := cmd.ProcessState.ExitCode()
		want, text := 0, ""
		switch kind {
		case "exit":
			want = n
			if n != 0 {
				text = msg + "\n"
			}
		case "code":
			want = n
			if n != 0 {
				text = fmt.Sprintf("exited with status %d\n", n)
			}
		case "plain":
			want, text = 1, msg+"\n"
		case "parse":
			want, text = 2, "*"
		case "help":
			text = ""
		}
		if want != 0 {
			c.NonTrivial()
		}
		if code != want {
			c.Failf("the process ended with %d, want %d\n%s", code, want, errb.String())
		}
		if text == "*" {
			if errb.Len() < 3 || out.Len() != 0 {
				c.Failf("stderr %q, stdout %q", errb.String(), out.String())
			}
			return
		}
		if kind != "help" && errb.String() != text {
			c.Failf("stderr is %q, want %q", errb.String(), text)
		}
		if kind != "help" && !strings.HasPrefix(out.String(), "ran\n") {
			c.Failf("stdout %q", out.String())
		}
		// the process goes on after Run only when nothing failed
		if ended := strings.HasSuffix(out.String(), "end\n"); ended != (kind == "ok") && kind != "help" {
			c.Failf("stdout %q", out.String())
		}
	})
}
