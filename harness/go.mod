module verifharness

go 1.23

require (
	github.com/jroimartin/gocui v0.5.0
	pgregory.net/rapid v1.3.0
)
