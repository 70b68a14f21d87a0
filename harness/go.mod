module jinverif

go 1.21

require github.com/ecoshub/jin v0.0.0

replace github.com/ecoshub/jin => /repo
