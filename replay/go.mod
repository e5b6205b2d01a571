module verif/replay

go 1.23

require github.com/timtadh/data-structures v0.0.0

replace github.com/timtadh/data-structures => /repo
