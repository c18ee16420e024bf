module verifmc

go 1.22.2

require (
	github.com/lubgr/deflect v0.0.0
	gonum.org/v1/gonum v0.14.0
)

replace github.com/lubgr/deflect => /repo
