module vharness

go 1.25

require (
	github.com/bifurcation/mint v0.0.0
	golang.org/x/crypto v0.0.0-20210513164829-c07d793c2f9a
)

replace github.com/bifurcation/mint => /repo
