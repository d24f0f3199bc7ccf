module dgoverif

go 1.13

require github.com/lyraproj/dgo v0.0.0

replace github.com/lyraproj/dgo => /repo
