module jverif

go 1.23

require (
	github.com/wI2L/jettison v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/wI2L/jettison => /repo
