// C07: a timestamp keeps the instant it was made for, to the precision of its type.
package c07

import (
	"bytes"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/timestamp"
	"pgregory.net/rapid"
)

var types = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

type instant struct {
	Secs  int64
	Nsecs int64
	Zone  int // Seconds east of UTC the time is given in
}

func (i instant) time() time.Time {
	return time.Unix(i.Secs, i.Nsecs).In(time.FixedZone("z", i.Zone))
}

func genInstant(t *rapid.T, l string) instant {
	var s int64
	switch rapid.IntRange(0, 4).Draw(t, l+".kind") {
	case 0: // these days
		s = rapid.Int64Range(1500000000, 2000000000).Draw(t, l)
	case 1: // around the limits of the types
		s = gen.Pick(t, l, int64(0), ref.Epoch2000, 1<<31, 1<<32, 1<<32+ref.Epoch2000) + rapid.Int64Range(-3, 3).Draw(t, l+".d")
	case 2:
		s = rapid.Int64Range(ref.Epoch2000, ref.Epoch2000+1<<32-1).Draw(t, l)
	case 3:
		s = rapid.Int64Range(0, 1<<32-1).Draw(t, l)
	case 4: // far away, years 1 to 9999 and beyond
		s = rapid.Int64Range(-62135596800, 300000000000).Draw(t, l)
	}
	n := gen.Pick(t, l+".ns", int64(0), 1, 499999, 500000, 999999, 1000000, 999999999, -1)
	if n < 0 {
		n = rapid.Int64Range(0, 999999999).Draw(t, l+".nsecs")
	}
	return instant{s, n, gen.Pick(t, l+".zone", 0, 0, 36000, -28800, 45*60)}
}

type newCase struct {
	Type  string
	At    instant
	Prior string // The struct has held this type before, or ""
	Pat   instant
}

func genNew(t *rapid.T) newCase {
	return newCase{gen.Pick(t, "type", types...), genInstant(t, "at"), gen.Pick(t, "prior", append([]string{""}, types...)...), genInstant(t, "prior.at")}
}

func layout(ty string) string {
	if ty == "posix32_32" || ty == "posix64_32" {
		return "Mon Jan _2 15:04:05.000 2006 UTC"
	}
	return "Mon Jan _2 15:04:05 2006 UTC"
}

func runNew(x *pbt.Ctx, c newCase) error {
	at := c.At.time()
	want, ok := ref.Tstamp(c.Type, at)
	x.Class("%s fits=%v", c.Type, ok)
	x.NontrivialIf(c.Type != "localinterp")
	var ts timestamp.Timestamp
	if c.Prior != "" {
		ts.New(c.Prior, c.Pat.time())
	}
	err := ts.New(c.Type, at)
	if !ok {
		if err == nil {
			return pbt.Errf("%s accepts %v, which it cannot hold", c.Type, at.UTC())
		}
		return nil
	}
	if err != nil {
		return pbt.Errf("%s refuses %v: %v", c.Type, at.UTC(), err)
	}
	return reads(ts, c.Type, at, want)
}

// What a peer may have sent before: more nanoseconds than there are in a second
var used = []byte{4, 0, 0, 0, 1, 2, 3, 4, 5, 0xff, 0xff, 0xff, 0xff, 0, 0, 0}

// reads checks everything one can learn from a timestamp, and from one read off its bytes.
func reads(ts timestamp.Timestamp, ty string, at time.Time, want []byte) error {
	buf := ts.Put()
	if !bytes.Equal(buf, want) {
		return pbt.Errf("%s of %v is written %x, want %x", ty, at.UTC(), buf, want)
	}
	var got, old, odd timestamp.Timestamp
	old.New("posix64_32", time.Unix(1700000000, 123456789))
	if err := odd.Get(used); err != nil {
		return pbt.Errf("Get refuses %x: %v", used, err)
	}
	for _, g := range []*timestamp.Timestamp{&got, &old, &odd} {
		if err := g.Get(buf); err != nil {
			return pbt.Errf("%s: Get of its own bytes %x: %v", ty, buf, err)
		}
		if b := g.Put(); !bytes.Equal(b, want) {
			return pbt.Errf("%s: read %x, written again as %x", ty, want, b)
		}
	}
	if ty == "localinterp" {
		if p := got.Print(); p != "localinterp" || ts.Print() != p {
			return pbt.Errf("a local timestamp prints %q and, once read, %q", ts.Print(), p)
		}
		for _, g := range []*timestamp.Timestamp{&ts, &got, &old, &odd} {
			if g.Secs() != 0 {
				return pbt.Errf("a local timestamp has %d seconds, its bytes are %x", g.Secs(), want)
			}
		}
		return nil
	}
	secs := uint64(at.Unix())
	if ty == "epoch2000_32" {
		secs -= ref.Epoch2000
	}
	show := at.UTC().Format(layout(ty))
	for _, g := range []*timestamp.Timestamp{&ts, &got, &old, &odd} {
		if g.Secs() != secs {
			return pbt.Errf("%s of %v has %d seconds, want %d", ty, at.UTC(), g.Secs(), secs)
		}
		if p := g.Print(); p != show {
			return pbt.Errf("%s of %v prints %q, want %q", ty, at.UTC(), p, show)
		}
	}
	return nil
}

// wire: 16 bytes of another implementation, of any type, possibly cut.
type wireCase struct {
	Bytes []byte
}

func genWire(t *rapid.T) wireCase {
	b := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "bytes")
	if rapid.IntRange(0, 3).Draw(t, "known") > 0 {
		b[0] = byte(rapid.IntRange(0, 5).Draw(t, "type"))
	}
	if gen.Bool(t, "cut") {
		b = b[:rapid.IntRange(0, 16).Draw(t, "len")]
	}
	return wireCase{b}
}

func runWire(x *pbt.Ctx, c wireCase) error {
	var ts timestamp.Timestamp
	ts.New("posix64_32", time.Unix(1700000000, 123456789))
	ts.Get(used)
	err := ts.Get(bytes.Clone(c.Bytes))
	if len(c.Bytes) == 0 || ref.TsLen(c.Bytes[0]) == 0 || len(c.Bytes) < ref.TsLen(c.Bytes[0]) {
		x.Class("refused")
		if err == nil {
			return pbt.Errf("Get accepts %x", c.Bytes)
		}
		return nil
	}
	x.Class("type %d", c.Bytes[0])
	x.Nontrivial()
	if err != nil {
		return pbt.Errf("Get refuses %x: %v", c.Bytes, err)
	}
	var fresh timestamp.Timestamp
	if err := fresh.Get(bytes.Clone(c.Bytes)); err != nil || fresh.Print() != ts.Print() || fresh.Secs() != ts.Secs() {
		return pbt.Errf("%x read prints %q and has %d seconds, in a timestamp used before %q and %d (%v)", c.Bytes, fresh.Print(), fresh.Secs(), ts.Print(), ts.Secs(), err)
	}
	if c.Bytes[0] == 0 {
		s := string(bytes.TrimRight(c.Bytes[1:15], "\x00"))
		if ts.Print() != s {
			return pbt.Errf("local timestamp %x prints %q", c.Bytes, ts.Print())
		}
	}
	if got := ts.Put(); !bytes.Equal(got, ref.TsCanon(c.Bytes)) {
		return pbt.Errf("read %x, written again as %x", c.Bytes, got)
	}
	return nil
}

type nowCase struct {
	Type  string
	Prior string
}

func genNow(t *rapid.T) nowCase {
	return nowCase{gen.Pick(t, "type", append([]string{"", "posix", "posix128", "epoch2000", "POSIX32", "yes"}, types...)...), gen.Pick(t, "prior", types...)}
}

func runNow(x *pbt.Ctx, c nowCase) error {
	var ts timestamp.Timestamp
	ts.New(c.Prior, time.Unix(2000000000, 5))
	from := time.Now()
	err := ts.Now(c.Type)
	to := time.Now()
	if _, ok := ref.TTypes[c.Type]; !ok {
		x.Class("unknown type")
		if err == nil {
			return pbt.Errf("Now accepts type %q", c.Type)
		}
		return nil
	}
	x.Class("%s", c.Type)
	x.Nontrivial()
	if err != nil {
		return pbt.Errf("Now(%s): %v", c.Type, err)
	}
	return ref.NowStamp(ts.Put(), c.Type, from, to)
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C07",
		pbt.NewPart("new", 50000, 500000, genNew, runNew),
		pbt.NewPart("wire", 30000, 300000, genWire, runWire),
		pbt.NewPart("now", 2000, 20000, genNow, runNow))
}
