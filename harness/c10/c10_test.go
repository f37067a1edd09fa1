// C10: a number the descriptor cannot hold is refused, never cut to fit.
package c10

import (
	"math"
	"testing"
	"time"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

type kase struct {
	Kind   string
	Header uint32
	Desc   string
	Nums   []uint64
	Pathn  int
	Wide   bool // the path is of characters of several bytes
}

func genCase(t *rapid.T) kase {
	c := kase{Kind: gen.Pick(t, "kind", "data", "status", "status", "beacon", "dirent", "metadata"), Header: gen.U32(t, "header")}
	c.Desc = gen.Pick(t, "d", "d16", "d16", "d32", "d32", "d64", "d128")
	n := 1
	if c.Kind == "status" {
		n = 2 + 2*rapid.IntRange(0, 4).Draw(t, "holes")
	}
	for i := 0; i < n; i++ {
		m := uint64(math.MaxUint64)
		if rapid.IntRange(0, 3).Draw(t, "fit") > 0 {
			m = ref.DMax(c.Desc)
		}
		if i >= 2 {
			m = min(m, math.MaxInt64)
		}
		c.Nums = append(c.Nums, gen.U64(t, "num", m))
	}
	if c.Kind == "dirent" || c.Kind == "metadata" {
		c.Pathn = gen.Pick(t, "pathn", 1, 10, 1023, 1024, 1025, 1400)
		c.Wide = gen.Bool(t, "wide")
	}
	return c
}

func run(x *pbt.Ctx, c kase) error {
	var f dec.Thing
	h := ref.Set(c.Header, "version", "v1")
	stamp := time.Unix(1700000000, 42)
	mkdir := func() dirent.DirEnt {
		p := make([]byte, c.Pathn)
		for i := range p {
			p[i] = 'p'
			if c.Wide {
				p[i] = "\u65e5"[i%3]
			}
		}
		d := dirent.DirEnt{Header: ref.SetD(uint16(c.Header), "descriptor", c.Desc), Size: c.Nums[0], Path: string(p)}
		d.Mtime.New("epoch2000_32", stamp)
		d.Ctime.New("epoch2000_32", stamp)
		return d
	}
	switch c.Kind {
	case "data":
		d := &data.Data{Header: ref.Set(ref.Set(h, "frametype", "data"), "descriptor", c.Desc), Session: 9, Offset: c.Nums[0], Payload: []byte("payload")}
		d.Tstamp.New("posix64_32", stamp)
		f = d
	case "status":
		s := &status.Status{Header: ref.Set(ref.Set(h, "frametype", "status"), "descriptor", c.Desc), Session: 9, Progress: c.Nums[0], Inrespto: c.Nums[1]}
		s.Tstamp.New("posix64_32", stamp)
		for i := 2; i < len(c.Nums); i += 2 {
			s.Holes = append(s.Holes, holes.Hole{Start: int(c.Nums[i]), End: int(c.Nums[i+1])})
		}
		f = s
	case "beacon":
		h = ref.Set(ref.Set(h, "frametype", "beacon"), "freespace", "yes")
		f = &beacon.Beacon{Header: ref.Set(h, "freespaced", c.Desc), Freespace: c.Nums[0], Eid: "eid"}
	case "dirent":
		d := mkdir()
		f = &d
	case "metadata":
		h = ref.SetN(ref.Set(h, "frametype", "metadata"), "csumlen", 1)
		f = &metadata.MetaData{Header: h, Session: 9, Checksum: []byte{1, 2, 3, 4}, Dir: mkdir()}
	}
	ok := c.Desc != "d128" && c.Pathn <= 1024
	for _, n := range c.Nums {
		ok = ok && n <= ref.DMax(c.Desc)
	}
	want := dec.Meaning(f)
	buf, err := f.Encode()
	x.Class("%s %s fits=%v", c.Kind, c.Desc, ok)
	x.NontrivialIf(!ok)
	if !ok {
		if err == nil {
			g := dec.New(c.Kind)
			derr := g.Decode(buf)
			return pbt.Errf("%s %s with %v (path of %d bytes) is encoded all the same: %x, read back as %s, %v", c.Kind, c.Desc, c.Nums, c.Pathn, buf, dec.Meaning(g), derr)
		}
		return nil
	}
	if err != nil {
		return pbt.Errf("%s %s with %v, which fits, is refused: %v", c.Kind, c.Desc, c.Nums, err)
	}
	g := dec.New(c.Kind)
	if err := g.Decode(buf); err != nil {
		return pbt.Errf("%s: %x cannot be decoded: %v", c.Kind, buf, err)
	}
	if got := dec.Meaning(g); got != want {
		return pbt.Errf("%s %s: %s was sent, %s arrives", c.Kind, c.Desc, want, got)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C10", pbt.NewPart("encode", 60000, 600000, genCase, run))
}
