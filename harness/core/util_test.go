package core

import (
	"bytes"
	"context"
	"sort"

	cli "github.com/Carbonfrost/joe-cli"
	"pgregory.net/rapid"
)

// newApp makes an app that writes nowhere.
func newApp(name string) *cli.App {
	return &cli.App{
		Name:   name,
		Stdin:  bytes.NewReader(nil),
		Stdout: new(bytes.Buffer),
		Stderr: new(bytes.Buffer),
	}
}

func run(app *cli.App, args ...string) error {
	return app.RunContext(context.Background(), append([]string{"app"}, args...))
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

// nest moves the flags, args, options and actions of the app into a
// sub-command, in which they have the same meaning; it may leave them
// where they are. It gives the tokens that lead to the command.
func nest(app *cli.App, depth int) (line []string) {
	if depth == 0 {
		return nil
	}
	cmd := &cli.Command{
		Flags: app.Flags, Args: app.Args, Options: app.Options, Uses: app.Uses,
		Before: app.Before, Action: app.Action, After: app.After, Subcommands: app.Commands,
	}
	app.Flags, app.Args, app.Options, app.Uses, app.Before, app.Action, app.After = nil, nil, 0, nil, nil, nil, nil
	for i := depth; i > 0; i-- {
		cmd.Name = "nested" + string(rune('0'+i))
		line = append([]string{cmd.Name}, line...)
		if i == 1 {
			break
		}
		cmd = &cli.Command{
			Subcommands: []*cli.Command{{Name: "nested-sibling"}, cmd},
			Flags:       []*cli.Flag{{Name: "nested-decoy", Value: new(int)}},
		}
	}
	app.Flags = []*cli.Flag{{Name: "nested-outer", Value: new(bool)}}
	app.Commands = []*cli.Command{cmd, {Name: "nested-other"}}
	if depth%2 == 0 {
		line = append([]string{"--nested-outer"}, line...)
	}
	return line
}

// nesting draws a depth for nest
func nesting(t *rapid.T) int {
	return max(0, rapid.IntRange(0, 5).Draw(t, "nesting")-3)
}
