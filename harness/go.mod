module verif/harness

go 1.23.0

require (
	github.com/Carbonfrost/joe-cli v0.0.0
	github.com/Carbonfrost/joe-cli/verifjoe v0.0.0
	github.com/mattn/go-runewidth v0.0.16
	pgregory.net/rapid v1.3.0
)

require (
	github.com/juju/ansiterm v1.0.0 // indirect
	github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51 // indirect
	github.com/lunixbochs/vtclean v1.0.0 // indirect
	github.com/mattn/go-colorable v0.1.14 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/mitchellh/go-ps v1.0.0 // indirect
	github.com/mitchellh/mapstructure v1.5.0 // indirect
	github.com/olekukonko/tablewriter v0.0.5 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	golang.org/x/sys v0.31.0 // indirect
	golang.org/x/term v0.30.0 // indirect
)

replace github.com/Carbonfrost/joe-cli => /repo

replace github.com/Carbonfrost/joe-cli/verifjoe => ./verifjoe
