module verif/harness

go 1.23

require github.com/twuillemin/modes v0.0.0

replace github.com/twuillemin/modes => /repo
