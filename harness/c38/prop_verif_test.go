package main

import (
	"testing"

	"verifharness/pbt"
)

func TestProp(t *testing.T) {
	pbt.Main(t, "C38", pbt.NewPart("terminal", 400, 8000, vtGen, vtRun))
}
