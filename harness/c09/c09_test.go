// C09: what was accepted off the network can be sent on without changing its meaning.
package c09

import (
	"bytes"
	"testing"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"pgregory.net/rapid"
)

type wireCase struct {
	Kind  string
	Bytes []byte
}

func genWire(t *rapid.T) wireCase {
	c := wireCase{Kind: gen.Pick(t, "kind", gen.Kinds...)}
	c.Bytes = gen.Wire(t, c.Kind)
	return c
}

func runWire(x *pbt.Ctx, c wireCase) error {
	f := dec.New(c.Kind)
	if f.Decode(bytes.Clone(c.Bytes)) != nil {
		x.Class("%s refused", c.Kind)
		return nil
	}
	x.Class("%s accepted", c.Kind)
	m := dec.Meaning(f)
	buf, err := f.Encode()
	if err != nil {
		path := ""
		switch d := f.(type) {
		case *dirent.DirEnt:
			path = d.Path
		case *metadata.MetaData:
			path = d.Dir.Path
		}
		if len(path) > 1024 {
			x.Class("path over 1024 bytes not sent on")
			return nil
		}
		return pbt.Errf("a %s that was accepted cannot be encoded: %v (%x)", c.Kind, err, c.Bytes)
	}
	x.Nontrivial()
	if !bytes.Equal(buf, c.Bytes) {
		x.Class("%s not canonical", c.Kind)
	}
	if again := dec.Meaning(f); again != m {
		return pbt.Errf("encoding a %s changed it from %s to %s", c.Kind, m, again)
	}
	g := dec.New(c.Kind)
	if err := g.Decode(buf); err != nil {
		return pbt.Errf("%s %x is sent on as %x, which is refused: %v", c.Kind, c.Bytes, buf, err)
	}
	if n := dec.Meaning(g); n != m {
		return pbt.Errf("%s %x is sent on as %x\nmeaning was %s\nis now     %s", c.Kind, c.Bytes, buf, m, n)
	}
	if (c.Kind == "request" || c.Kind == "beacon") && !bytes.Equal(buf, c.Bytes) {
		return pbt.Errf("%s %x is sent on as %x", c.Kind, c.Bytes, buf)
	}
	buf2, err := g.Encode()
	if err != nil || !bytes.Equal(buf, buf2) {
		return pbt.Errf("%s %x is sent on as %x and then as %x, %v", c.Kind, c.Bytes, buf, buf2, err)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C09", pbt.NewPart("wire", 100000, 1200000, genWire, runWire))
}
