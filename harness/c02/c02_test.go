// C02: a status frame carries progress, in-response-to and every hole, in the documented layout.
package c02

import (
	"bytes"
	"math"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

type body struct {
	Session            uint32
	Progress, Inrespto uint64
	Holes              []uint64 // start, end, start, end...
}

type newCase struct {
	Flags  []gen.KV
	Stamp  string // Type of timestamp given as a flag of its own, or ""
	At     int    // Where it stands among the flags
	Spaced bool
	body
}

func opts(k string) []string {
	if k == "descriptor" {
		return []string{"d16", "d32", "d64"}
	}
	return ref.Opts(k)
}

func genBody(t *rapid.T, d string) body {
	m := ref.DMax(d)
	b := body{Session: gen.U32(t, "session"), Progress: gen.U64(t, "progress", m), Inrespto: gen.U64(t, "inrespto", m)}
	m = min(m, math.MaxInt64)
	var n int
	switch rapid.IntRange(0, 4).Draw(t, "holes.kind") {
	case 0:
	case 1, 2, 3:
		n = rapid.IntRange(1, 6).Draw(t, "holes.n")
	case 4:
		n = gen.Len(t, "holes.many", 400)
	}
	if n > 12 { // many holes out of a few draws
		a, s := gen.U64(t, "holes.first", m/2), gen.U64(t, "holes.step", m/2/uint64(2*n))
		for i := 0; i < 2*n; i++ {
			b.Holes = append(b.Holes, a+uint64(i)*s)
		}
		return b
	}
	for i := 0; i < 2*n; i++ {
		b.Holes = append(b.Holes, gen.U64(t, "hole", m))
	}
	return b
}

func genNew(t *rapid.T) newCase {
	c := newCase{Flags: gen.Flags(t, "flags", []string{"descriptor", "metadatarecvd", "allholes", "reqholes", "errcode", "reqtstamp", "stream"}, opts)}
	has := false
	d := "d16"
	for _, f := range c.Flags {
		has = has || f.K == "reqtstamp"
		if f.K == "descriptor" {
			d = f.V
		}
	}
	if !has {
		c.Stamp = gen.Pick(t, "stamp", "", "localinterp", "posix32", "posix64", "posix32_32", "posix64_32")
	}
	if len(c.Flags) == 0 && c.Stamp == "" {
		d = gen.Pick(t, "d", "d16", "d32", "d64")
		c.Flags = []gen.KV{{K: "descriptor", V: d}}
	}
	c.At = rapid.IntRange(0, len(c.Flags)).Draw(t, "at")
	c.Spaced = gen.Bool(t, "spaced")
	c.body = genBody(t, d)
	return c
}

func (b body) list() holes.Holes {
	var h holes.Holes
	for i := 0; i+1 < len(b.Holes); i += 2 {
		h = append(h, holes.Hole{Start: int(b.Holes[i]), End: int(b.Holes[i+1])})
	}
	return h
}

func (b body) same(s *status.Status, h uint32) error {
	want := b.list()
	if s.Header != h || s.Session != b.Session || s.Progress != b.Progress || s.Inrespto != b.Inrespto || len(s.Holes) != len(want) {
		return pbt.Errf("header %#x session %d progress %d inrespto %d holes %d, want %#x %d %d %d %d",
			s.Header, s.Session, s.Progress, s.Inrespto, len(s.Holes), h, b.Session, b.Progress, b.Inrespto, len(want))
	}
	for i := range want {
		if s.Holes[i] != want[i] {
			return pbt.Errf("hole %d is %v, want %v", i, s.Holes[i], want[i])
		}
	}
	return nil
}

func used() *status.Status {
	s := new(status.Status)
	err := s.New("descriptor=d64,posix64_32,errcode=badpacket", &status.Sinfo{Session: 1<<32 - 1, Progress: 1<<64 - 1, Inrespto: 1<<64 - 1,
		Holes: holes.Holes{{Start: 5, End: 7}, {Start: 9, End: 1 << 40}}})
	if err != nil {
		panic(err)
	}
	return s
}

// empty has no flags any more, but all the rest of a frame used before.
func empty() *status.Status {
	s := used()
	s.Header = 0
	return s
}

func (b body) decodes(buf []byte, h uint32, tb []byte) error {
	for _, r := range []*status.Status{new(status.Status), used()} {
		if err := r.Decode(buf); err != nil {
			return pbt.Errf("Decode of an encoded frame: %v (%x)", err, buf)
		}
		if err := b.same(r, h); err != nil {
			return pbt.Errf("decoded: %v", err)
		}
		if tb != nil {
			if got := r.Tstamp.Put(); !bytes.Equal(got, tb) {
				return pbt.Errf("decoded timestamp is %x, want %x", got, tb)
			}
		}
		if again, err := r.Encode(); err != nil || !bytes.Equal(again, buf) {
			return pbt.Errf("frame received\n%x\nis sent on as\n%x %v", buf, again, err)
		}
	}
	return nil
}

func (b body) check(x *pbt.Ctx, s *status.Status, h uint32, ts string, from time.Time) error {
	to := time.Now()
	x.Class("%s", ref.Name(h, "descriptor"))
	x.Class("timestamp=%s", ts)
	x.Class("holes %s", bucket(len(b.Holes)/2))
	x.NontrivialIf(len(b.Holes) > 0)
	if err := b.same(s, h); err != nil {
		return pbt.Errf("frame made: %v", err)
	}
	buf, err := s.Encode()
	if err != nil {
		return pbt.Errf("Encode: %v", err)
	}
	var tb []byte
	if ts != "" {
		if len(buf) < 24 {
			return pbt.Errf("encoded frame %x has no room for its timestamp", buf)
		}
		tb = buf[8:24]
		if err := ref.NowStamp(tb, ts, from, to); err != nil {
			return err
		}
	}
	if want := ref.Status(h, b.Session, tb, b.Progress, b.Inrespto, b.Holes); !bytes.Equal(buf, want) {
		return pbt.Errf("encoded\n%x\nwant\n%x", buf, want)
	}
	return b.decodes(buf, h, tb)
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n <= 6:
		return "1-6"
	case n <= 90:
		return "7-90"
	}
	return "over 90"
}

func runNew(x *pbt.Ctx, c newCase) error {
	h, ts := ref.Head("status"), ""
	kv := append([]gen.KV{}, c.Flags...)
	for _, f := range c.Flags {
		h = ref.Set(h, f.K, f.V)
		if f.K == "reqtstamp" && f.V == "yes" {
			ts = "posix32"
		}
	}
	fs := gen.FlagStr(kv, c.Spaced)
	if c.Stamp != "" {
		ts = c.Stamp
		h = ref.Set(h, "reqtstamp", "yes")
		a, b := gen.FlagStr(kv[:c.At], c.Spaced), gen.FlagStr(kv[c.At:], c.Spaced)
		fs = a
		if a != "" {
			fs += ","
		}
		fs += c.Stamp
		if b != "" {
			fs += "," + b
		}
	}
	for _, s := range []*status.Status{new(status.Status), empty()} {
		from := time.Now()
		if err := s.New(fs, &status.Sinfo{Session: c.Session, Progress: c.Progress, Inrespto: c.Inrespto, Holes: c.list()}); err != nil {
			return pbt.Errf("New(%q): %v", fs, err)
		}
		if err := c.check(x, s, h, ts, from); err != nil {
			return err
		}
	}
	return nil
}

type makeCase struct {
	Header uint32
	Stamp  []byte // For a frame of another implementation
	body
}

func genMake(t *rapid.T) makeCase {
	d := gen.Pick(t, "d", "d16", "d32", "d64")
	return makeCase{Header: ref.Set(gen.U32(t, "header"), "descriptor", d), body: genBody(t, d)}
}

func runMake(x *pbt.Ctx, c makeCase) error {
	h, ts := ref.Set(ref.Set(c.Header, "version", "v1"), "frametype", "status"), ""
	if ref.Name(h, "reqtstamp") == "yes" {
		ts = "posix32"
	}
	for _, s := range []*status.Status{new(status.Status), used()} {
		from := time.Now()
		if err := s.Make(c.Header, &status.Sinfo{Session: c.Session, Progress: c.Progress, Inrespto: c.Inrespto, Holes: c.list()}); err != nil {
			return pbt.Errf("Make(%#x): %v", c.Header, err)
		}
		if err := c.check(x, s, h, ts, from); err != nil {
			return err
		}
	}
	return nil
}

func genWire(t *rapid.T) makeCase {
	c := genMake(t)
	c.Header = ref.Set(ref.Set(c.Header, "version", "v1"), "frametype", "status")
	if ref.Name(c.Header, "reqtstamp") == "yes" {
		c.Stamp = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "stamp")
		c.Stamp[0] = byte(rapid.IntRange(1, 5).Draw(t, "ts"))
		c.Stamp = ref.TsCanon(c.Stamp)
	}
	return c
}

func runWire(x *pbt.Ctx, c makeCase) error {
	if len(c.Stamp) == 0 {
		c.Stamp = nil
	}
	x.Class("%s", ref.Name(c.Header, "descriptor"))
	x.Class("holes %s", bucket(len(c.Holes)/2))
	x.NontrivialIf(len(c.Holes) > 0)
	return c.decodes(ref.Status(c.Header, c.Session, c.Stamp, c.Progress, c.Inrespto, c.Holes), c.Header, c.Stamp)
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C02",
		pbt.NewPart("new", 20000, 200000, genNew, runNew),
		pbt.NewPart("make", 12000, 120000, genMake, runMake),
		pbt.NewPart("wire", 12000, 120000, genWire, runWire))
}
