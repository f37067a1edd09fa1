package main

import (
	"testing"

	"verifharness/pbt"
)

func TestProp(t *testing.T) {
	if vmReady(t) {
		pbt.Main(t, "C37", pbt.NewPart("node", 1500, 20000, vmGen, vmRun))
	}
}
