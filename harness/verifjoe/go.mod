module github.com/Carbonfrost/joe-cli/verifjoe

go 1.23.0

require github.com/Carbonfrost/joe-cli v0.0.0
