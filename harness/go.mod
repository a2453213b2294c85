module verif/harness

go 1.26

require github.com/shellyln/takenoco v0.0.0

replace github.com/shellyln/takenoco => /repo
