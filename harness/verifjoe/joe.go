// Package verifjoe gives the tests the app of the joe tool: the path of this
// module is what lets it import the internal package.
package verifjoe

import (
	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/joe"
)

// NewApp is the app of cmd/joe.
func NewApp() *cli.App { return joe.NewApp() }
