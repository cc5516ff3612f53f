module vmon

go 1.23

require github.com/alxarch/njson v0.0.0

replace github.com/alxarch/njson => /repo
