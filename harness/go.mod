module verif/harness

go 1.26.0

require (
	github.com/google/codesearch v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/google/codesearch => /repo
