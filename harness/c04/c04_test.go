// C04: a beacon advertises what it was given, with a free space field wide enough for it.
package c04

import (
	"bytes"
	"math"
	"os"
	"syscall"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"pgregory.net/rapid"
)

type newCase struct {
	Flags  []gen.KV
	Spaced bool
	Free   uint64
	Eid    pbt.B
}

func opts(k string) []string {
	if k == "freespaced" {
		return []string{"d16", "d32", "d64"}
	}
	return ref.Opts(k)
}

func genNew(t *rapid.T) newCase {
	c := newCase{Flags: gen.Flags(t, "flags", []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"}, opts)}
	if len(c.Flags) == 0 {
		c.Flags = []gen.KV{{K: "freespace", V: "yes"}}
	}
	c.Spaced = gen.Bool(t, "spaced")
	c.Free = gen.U64(t, "free", math.MaxUint64)
	c.Eid = gen.Name(t, "eid", 1200)
	return c
}

func used() *beacon.Beacon {
	b := new(beacon.Beacon)
	if err := b.New("freespace=yes,txwilling=yes", &beacon.Binfo{Freespace: 1 << 50, Eid: "10.0.0.1-99"}); err != nil {
		panic(err)
	}
	return b
}

// freedisk is the space left where we are, in kilobytes.
func freedisk() uint64 {
	var fs syscall.Statfs_t
	d, err := os.Getwd()
	if err == nil {
		err = syscall.Statfs(d, &fs)
	}
	if err != nil {
		panic(err)
	}
	return uint64(fs.Bsize) * fs.Bavail / 1024
}

// fits says whether a number of kilobytes and the width it is given go together: wide enough,
// and no wider than the next size up would be. (A value that just fits may use the next width.)
func fits(free uint64, d string) bool {
	switch d {
	case "d16":
		return free <= 1<<16-1
	case "d32":
		return free >= 1<<16-1 && free <= 1<<32-1
	case "d64":
		return free >= 1<<32-1
	}
	return false
}

func verify(x *pbt.Ctx, b *beacon.Beacon, err error, h uint32, free uint64, eid string, before uint64) error {
	adv := ref.Name(h, "freespace") == "yes"
	x.Class("freespace=%v", adv)
	x.NontrivialIf(len(eid) > 0)
	if err != nil {
		if adv && free == math.MaxUint64 {
			x.Class("largest value refused")
			return nil // The largest value may be kept for d128
		}
		return pbt.Errf("beacon not made: %v", err)
	}
	if b.Eid != eid {
		return pbt.Errf("eid %q, want %q", b.Eid, eid)
	}
	want := uint64(0)
	if adv {
		want = free
		d := ref.Name(b.Header, "freespaced")
		h = ref.Set(h, "freespaced", d)
		x.Class("advertised in %s", d)
		if free == 0 { // Means what the file system has
			x.Class("from the file system")
			want = b.Freespace
			if after := freedisk(); !near(want, before, after) {
				return pbt.Errf("advertises %d kB, the file system had %d and then %d", want, before, after)
			}
		}
		if !fits(want, d) {
			return pbt.Errf("%d kB advertised in %s", want, d)
		}
	}
	if b.Header != h || b.Freespace != want {
		return pbt.Errf("header %#x free %d, want %#x %d", b.Header, b.Freespace, h, want)
	}
	buf, err := b.Encode()
	if err != nil {
		return pbt.Errf("Encode: %v", err)
	}
	if w := ref.Beacon(h, want, eid); !bytes.Equal(buf, w) {
		return pbt.Errf("encoded\n%x\nwant\n%x", buf, w)
	}
	return decodes(buf, h, want, eid)
}

// near allows for what others write to the file system meanwhile.
func near(v, a, b uint64) bool {
	lo, hi := min(a, b), max(a, b)
	const slack = 4 << 20 // 4 GB
	return v+slack >= lo && v <= hi+slack
}

func decodes(buf []byte, h uint32, free uint64, eid string) error {
	for _, d := range []*beacon.Beacon{new(beacon.Beacon), used()} {
		if err := d.Decode(buf); err != nil {
			return pbt.Errf("Decode of an encoded frame: %v (%x)", err, buf)
		}
		if d.Header != h || d.Freespace != free || d.Eid != eid {
			return pbt.Errf("decoded header %#x free %d eid %q, want %#x %d %q", d.Header, d.Freespace, d.Eid, h, free, eid)
		}
		if again, err := d.Encode(); err != nil || !bytes.Equal(again, buf) {
			return pbt.Errf("frame received\n%x\nis sent on as\n%x %v", buf, again, err)
		}
	}
	return nil
}

func runNew(x *pbt.Ctx, c newCase) error {
	h := ref.Head("beacon")
	for _, f := range c.Flags {
		if f.K == "freespaced" { // Asking for a size asks for it to be advertised
			h = ref.Set(h, "freespace", "yes")
		}
		h = ref.Set(h, f.K, f.V)
	}
	old := used()
	old.Header = 0
	for _, b := range []*beacon.Beacon{new(beacon.Beacon), old} {
		before := freedisk()
		err := b.New(gen.FlagStr(c.Flags, c.Spaced), &beacon.Binfo{Freespace: c.Free, Eid: string(c.Eid)})
		if err := verify(x, b, err, h, c.Free, string(c.Eid), before); err != nil {
			return err
		}
	}
	return nil
}

type makeCase struct {
	Header uint32
	Free   uint64
	Eid    pbt.B
}

func genMake(t *rapid.T) makeCase {
	return makeCase{gen.U32(t, "header"), gen.U64(t, "free", math.MaxUint64), gen.Name(t, "eid", 1200)}
}

func runMake(x *pbt.Ctx, c makeCase) error {
	h := ref.Set(ref.Set(c.Header, "version", "v1"), "frametype", "beacon")
	for _, b := range []*beacon.Beacon{new(beacon.Beacon), used()} {
		before := freedisk()
		err := b.Make(c.Header, &beacon.Binfo{Freespace: c.Free, Eid: string(c.Eid)})
		if err := verify(x, b, err, h, c.Free, string(c.Eid), before); err != nil {
			return err
		}
	}
	return nil
}

// wire is a beacon of another implementation, of any width that fits.
func genWire(t *rapid.T) makeCase {
	c := genMake(t)
	c.Header = ref.Set(ref.Set(c.Header, "version", "v1"), "frametype", "beacon")
	d := gen.Pick(t, "d", "d16", "d32", "d64")
	c.Header = ref.Set(c.Header, "freespaced", d)
	c.Free = 0
	if ref.Name(c.Header, "freespace") == "yes" {
		c.Free = gen.U64(t, "free", ref.DMax(d))
	}
	return c
}

func runWire(x *pbt.Ctx, c makeCase) error {
	x.Class("freespace=%s %s", ref.Name(c.Header, "freespace"), ref.Name(c.Header, "freespaced"))
	x.NontrivialIf(c.Free > 0 && len(c.Eid) > 0)
	return decodes(ref.Beacon(c.Header, c.Free, string(c.Eid)), c.Header, c.Free, string(c.Eid))
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C04",
		pbt.NewPart("new", 20000, 200000, genNew, runNew),
		pbt.NewPart("make", 12000, 120000, genMake, runMake),
		pbt.NewPart("wire", 12000, 120000, genWire, runWire))
}
