module verif/harness

go 1.25

require github.com/myyrakle/gost v0.0.0

replace github.com/myyrakle/gost => /repo
