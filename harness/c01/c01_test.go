// C01: a data frame carries what it was given, byte for byte, in the documented layout.
package c01

import (
	"bytes"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/data"
	"pgregory.net/rapid"
)

var tstypes = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

type newCase struct {
	Flags   []gen.KV
	Spaced  bool
	Session uint32
	Offset  uint64
	Payload []byte
}

func opts(k string) []string {
	switch k {
	case "descriptor":
		return []string{"d16", "d32", "d64"}
	case "transfer":
		return []string{"file", "directory", "stream"}
	case "reqtstamp":
		return append([]string{"no", "yes"}, tstypes...)
	}
	return ref.Opts(k)
}

// expect is the header and type of timestamp ("" for none) the flags ask for.
func expect(kv []gen.KV) (uint32, string) {
	h := ref.Head("data")
	ts := ""
	for _, f := range kv {
		switch {
		case f.K == "reqtstamp" && f.V == "no":
		case f.K == "reqtstamp":
			h = ref.Set(h, "reqtstamp", "yes")
			if ts = f.V; ts == "yes" {
				ts = "posix32"
			}
		default:
			h = ref.Set(h, f.K, f.V)
		}
	}
	return h, ts
}

func genPayload(t *rapid.T) []byte { return gen.Bytes(t, "payload", 70000) }

func genNew(t *rapid.T) newCase {
	c := newCase{Flags: gen.Flags(t, "flags", []string{"descriptor", "transfer", "reqtstamp", "reqstatus", "eod"}, opts)}
	if len(c.Flags) == 0 {
		c.Flags = []gen.KV{{K: "descriptor", V: gen.Pick(t, "d", "d16", "d32", "d64")}}
	}
	c.Spaced = gen.Bool(t, "spaced")
	c.Session = gen.U32(t, "session")
	h, _ := expect(c.Flags)
	c.Offset = gen.U64(t, "offset", ref.DMax(ref.Name(h, "descriptor")))
	c.Payload = genPayload(t)
	return c
}

// checkFrame compares a frame made with its fields, its encoding and what that decodes to.
func checkFrame(d *data.Data, h uint32, ts string, session uint32, offset uint64, payload []byte, from, to time.Time, dirty *data.Data) error {
	if d.Header != h || d.Session != session || d.Offset != offset || !bytes.Equal(d.Payload, payload) {
		return pbt.Errf("frame made has header %#x session %d offset %d payload %d bytes, want %#x %d %d %d",
			d.Header, d.Session, d.Offset, len(d.Payload), h, session, offset, len(payload))
	}
	buf, err := d.Encode()
	if err != nil {
		return pbt.Errf("Encode: %v", err)
	}
	var tb []byte
	if ts != "" {
		if len(buf) < 24 {
			return pbt.Errf("encoded frame %x has no room for its timestamp", buf)
		}
		tb = buf[8:24]
		if err := ref.NowStamp(tb, ts, from, to); err != nil {
			return err
		}
	}
	if want := ref.Data(h, session, tb, offset, payload); !bytes.Equal(buf, want) {
		return pbt.Errf("encoded\n%x\nwant\n%x", buf, want)
	}
	if again, err := d.Encode(); err != nil || !bytes.Equal(again, buf) {
		return pbt.Errf("encoding again gives %x, %v not %x", again, err, buf)
	}
	return checkDecode(buf, h, session, tb, offset, payload, dirty)
}

func checkDecode(buf []byte, h, session uint32, tb []byte, offset uint64, payload []byte, dirty *data.Data) error {
	for _, r := range []*data.Data{new(data.Data), dirty} {
		if err := r.Decode(buf); err != nil {
			return pbt.Errf("Decode of an encoded frame: %v (%x)", err, buf)
		}
		if r.Header != h || r.Session != session || r.Offset != offset || !bytes.Equal(r.Payload, payload) {
			return pbt.Errf("decoded header %#x session %d offset %d payload %x, want %#x %d %d %x",
				r.Header, r.Session, r.Offset, r.Payload, h, session, offset, payload)
		}
		if tb != nil {
			if got := r.Tstamp.Put(); !bytes.Equal(got, tb) {
				return pbt.Errf("decoded timestamp is %x, want %x", got, tb)
			}
		}
	}
	return nil
}

func classify(x *pbt.Ctx, h uint32, ts string, payload []byte, offset uint64) {
	x.Class("%s", ref.Name(h, "descriptor"))
	x.Class("timestamp=%s", ts)
	switch {
	case len(payload) == 0:
		x.Class("payload empty")
	case len(payload) > 1400:
		x.Class("payload over 1400")
	default:
		x.Class("payload up to 1400")
	}
	if offset > 1<<32 {
		x.Class("offset over 4GiB")
	}
	x.NontrivialIf(len(payload) > 0 && offset > 0)
}

// used is a frame that has carried something else before.
func used() *data.Data {
	d := new(data.Data)
	if err := d.New("descriptor=d64,reqtstamp=posix64_32,eod=yes,reqstatus=yes", &data.Dinfo{Session: 0xffffffff, Offset: 1<<64 - 1, Payload: bytes.Repeat([]byte{0xaa}, 3000)}); err != nil {
		panic(err)
	}
	return d
}

func runNew(x *pbt.Ctx, c newCase) error {
	h, ts := expect(c.Flags)
	classify(x, h, ts, c.Payload, c.Offset)
	keep := bytes.Clone(c.Payload)
	before := used()
	before.Header = 0
	for _, d := range []*data.Data{new(data.Data), before} {
		from := time.Now()
		if err := d.New(gen.FlagStr(c.Flags, c.Spaced), &data.Dinfo{Session: c.Session, Offset: c.Offset, Payload: c.Payload}); err != nil {
			return pbt.Errf("New(%q): %v", gen.FlagStr(c.Flags, c.Spaced), err)
		}
		if err := checkFrame(d, h, ts, c.Session, c.Offset, keep, from, time.Now(), used()); err != nil {
			return err
		}
	}
	return nil
}

type makeCase struct {
	Header  uint32
	Session uint32
	Offset  uint64
	Payload []byte
}

func genMake(t *rapid.T) makeCase {
	c := makeCase{Header: gen.U32(t, "header"), Session: gen.U32(t, "session")}
	c.Header = ref.Set(c.Header, "descriptor", gen.Pick(t, "d", "d16", "d32", "d64"))
	c.Offset = gen.U64(t, "offset", ref.DMax(ref.Name(c.Header, "descriptor")))
	c.Payload = genPayload(t)
	return c
}

func runMake(x *pbt.Ctx, c makeCase) error {
	h := ref.Set(ref.Set(c.Header, "version", "v1"), "frametype", "data")
	ts := ""
	if ref.Name(h, "reqtstamp") == "yes" {
		ts = "posix32"
	}
	classify(x, h, ts, c.Payload, c.Offset)
	for _, d := range []*data.Data{new(data.Data), used()} {
		from := time.Now()
		if err := d.Make(c.Header, &data.Dinfo{Session: c.Session, Offset: c.Offset, Payload: bytes.Clone(c.Payload)}); err != nil {
			return pbt.Errf("Make(%#x): %v", c.Header, err)
		}
		if err := checkFrame(d, h, ts, c.Session, c.Offset, c.Payload, from, time.Now(), used()); err != nil {
			return err
		}
	}
	return nil
}

// wireCase is a frame as another implementation would send it.
type wireCase struct {
	Header  uint32
	Session uint32
	Stamp   []byte
	Offset  uint64
	Payload []byte
}

func genWire(t *rapid.T) wireCase {
	m := genMake(t)
	c := wireCase{Header: ref.Set(ref.Set(m.Header, "version", "v1"), "frametype", "data"), Session: m.Session, Offset: m.Offset, Payload: m.Payload}
	if ref.Name(c.Header, "reqtstamp") == "yes" {
		c.Stamp = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "stamp")
		c.Stamp[0] = ref.TTypes[gen.Pick(t, "ts", tstypes[1:]...)]
		c.Stamp = ref.TsCanon(c.Stamp)
	}
	return c
}

func runWire(x *pbt.Ctx, c wireCase) error {
	ts := ""
	if len(c.Stamp) > 0 {
		ts = "wire"
	} else {
		c.Stamp = nil
	}
	classify(x, c.Header, ts, c.Payload, c.Offset)
	buf := ref.Data(c.Header, c.Session, c.Stamp, c.Offset, c.Payload)
	d := used()
	if err := checkDecode(buf, c.Header, c.Session, c.Stamp, c.Offset, c.Payload, d); err != nil {
		return err
	}
	again, err := d.Encode()
	if err != nil || !bytes.Equal(again, buf) {
		return pbt.Errf("frame received\n%x\nis sent on as\n%x %v", buf, again, err)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C01",
		pbt.NewPart("new", 6000, 120000, genNew, runNew),
		pbt.NewPart("make", 4000, 80000, genMake, runMake),
		pbt.NewPart("wire", 4000, 80000, genWire, runWire))
}
