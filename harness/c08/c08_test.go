// C08: whatever bytes arrive, decoding them gives a frame that can be shown, or an error.
package c08

import (
	"bytes"
	"testing"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"pgregory.net/rapid"
)

type wireCase struct {
	Kind  string
	Bytes []byte
	Prior []byte // Decoded into the same frame before
}

func genWire(t *rapid.T) wireCase {
	c := wireCase{Kind: gen.Pick(t, "kind", gen.Kinds...)}
	c.Bytes = gen.Wire(t, c.Kind)
	if gen.Bool(t, "prior?") {
		c.Prior = gen.Frame(t, c.Kind)
	}
	return c
}

func runWire(x *pbt.Ctx, c wireCase) error {
	f := dec.New(c.Kind)
	if len(c.Prior) > 0 {
		if err := f.Decode(c.Prior); err != nil {
			return pbt.Errf("a well formed %s is refused: %v (%x)", c.Kind, err, c.Prior)
		}
	}
	in := bytes.Clone(c.Bytes)
	err := f.Decode(in)
	if !bytes.Equal(in, c.Bytes) {
		return pbt.Errf("decoding a %s changed the bytes it was given", c.Kind)
	}
	why := dec.Refuse(c.Kind, c.Bytes)
	if err != nil {
		x.Class("%s refused", c.Kind)
		x.NontrivialIf(len(c.Bytes) >= 8)
		if why == "" && c.Kind != "dirent" && c.Kind != "metadata" {
			return pbt.Errf("a complete %s is refused: %v (%x)", c.Kind, err, c.Bytes)
		}
		return nil
	}
	x.Class("%s accepted", c.Kind)
	x.Nontrivial()
	if why != "" {
		return pbt.Errf("a %s with %s is accepted: %x gives %s", c.Kind, why, c.Bytes, dec.Meaning(f))
	}
	f.Print()
	f.ShortPrint()
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C08", pbt.NewPart("wire", 120000, 1500000, genWire, runWire))
}
