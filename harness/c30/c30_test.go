// C30: frames own what they carry. Nothing done later to a buffer, to the caller's data or to
// another frame changes a frame, or bytes, handed out before.
package c30

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"testing"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

// packet takes what is passed on to a channel for a frame: what it says now, whenever asked.
func packet(x dec.Thing, addr *net.UDPAddr) func() string {
	switch f := x.(type) {
	case *beacon.Beacon:
		p := f.Val(addr)
		return func() string { return p.Addr.String() + " " + dec.Meaning(&p.Info) }
	case *request.Request:
		p := f.Val(addr)
		return func() string { return p.Addr.String() + " " + dec.Meaning(&p.Info) }
	case *metadata.MetaData:
		p := f.Val(addr)
		return func() string { return p.Addr.String() + " " + dec.Meaning(&p.Info) }
	case *data.Data:
		p := f.Val(addr)
		return func() string { return p.Addr.String() + " " + dec.Meaning(&p.Info) }
	case *status.Status:
		p := f.Val(addr)
		return func() string { return p.Addr.String() + " " + dec.Meaning(&p.Info) }
	case *dirent.DirEnt:
		p := f.Value()
		q := f.Copy()
		return func() string {
			if dec.Meaning(&p) != dec.Meaning(q) {
				return "value " + dec.Meaning(&p) + " and copy " + dec.Meaning(q)
			}
			return addr.String() + " " + dec.Meaning(&p)
		}
	}
	panic("packet")
}

var kinds = []string{"beacon", "request", "metadata", "data", "status", "dirent"}

type step struct {
	Wire []byte
	Slot int // Which of the frames of the kind it is decoded into
	Host byte
	Port uint16
}
type rxCase struct {
	Kind  string
	Steps []step
}

func genRx(t *rapid.T) rxCase {
	c := rxCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
		w := gen.Frame(t, c.Kind)
		if rapid.IntRange(0, 5).Draw(t, "damaged") == 0 {
			w = gen.Wire(t, c.Kind)
		}
		c.Steps = append(c.Steps, step{w, rapid.IntRange(0, 1).Draw(t, "slot"), rapid.Byte().Draw(t, "host"), rapid.Uint16().Draw(t, "port")})
	}
	return c
}

func runRx(x *pbt.Ctx, c rxCase) error {
	buf := make([]byte, 20000) // The one receive buffer
	slots := []dec.Thing{dec.New(c.Kind), dec.New(c.Kind)}
	type kept struct {
		what string
		get  func() string
		want string
	}
	var keep []kept
	var frames []kept // what a slot holds
	ok := 0
	for i, s := range c.Steps {
		alone := dec.New(c.Kind)
		aerr := alone.Decode(bytes.Clone(s.Wire))
		n := copy(buf, s.Wire)
		err := slots[s.Slot].Decode(buf[:n:n])
		if (err == nil) != (aerr == nil) {
			return pbt.Errf("step %d: decoding into a used frame says %v, into a new one %v", i, err, aerr)
		}
		for j := range buf[:n] { // and the next datagram overwrites it
			buf[j] = byte(0xa5 + j)
		}
		if err != nil {
			frames = nil
			continue
		}
		ok++
		want := dec.Meaning(alone)
		if got := dec.Meaning(slots[s.Slot]); got != want {
			return pbt.Errf("step %d: after its buffer was used again the frame says\n%s\nwant\n%s", i, got, want)
		}
		addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, s.Host), Port: int(s.Port)}
		a := addr.String() + " "
		g := packet(slots[s.Slot], addr)
		keep = append(keep, kept{fmt.Sprintf("packet of step %d", i), g, a + want})
		// A path may be too long to be sent on, see C09
		if enc, err := slots[s.Slot].Encode(); err == nil {
			frozen := fmt.Sprintf("%x", enc)
			other, err := slots[s.Slot].Encode()
			if err != nil {
				return pbt.Errf("step %d: Encode a second time: %v", i, err)
			}
			for j := range other {
				other[j] ^= 0xff
			}
			keep = append(keep, kept{fmt.Sprintf("bytes of step %d", i), func() string { return fmt.Sprintf("%x", enc) }, frozen})
		}
		// Scribbling on encoded bytes leaves the frame alone
		if got := dec.Meaning(slots[s.Slot]); got != want {
			return pbt.Errf("step %d: after its encoding was overwritten the frame says\n%s\nwant\n%s", i, got, want)
		}
		for _, k := range append(keep, frames...) {
			if got := k.get(); got != k.want {
				return pbt.Errf("after step %d the %s says\n%s\nwant\n%s", i, k.what, got, k.want)
			}
		}
		// The frame in the other slot stays as it is
		me := slots[s.Slot]
		frames = []kept{{fmt.Sprintf("frame of step %d", i), func() string { return dec.Meaning(me) }, want}}
		if i+1 < len(c.Steps) && c.Steps[i+1].Slot == s.Slot {
			frames = nil
		}
	}
	x.Class("%s", c.Kind)
	x.NontrivialIf(ok > 1)
	return nil
}

type txCase struct {
	Kind    string
	Header  uint32
	UseNew  bool
	Again   bool // The second frame is made in the first
	Less    bool // and carries less
	Session uint32
	Bytes   []byte
	Holes   []int
	Seed    int64
}

func genTx(t *rapid.T) txCase {
	c := txCase{Kind: gen.Pick(t, "kind", "request", "data", "status"), Session: gen.U32(t, "session"), UseNew: gen.Bool(t, "new"), Again: gen.Bool(t, "again"), Less: gen.Bool(t, "less"), Bytes: gen.Bytes(t, "bytes", 3000), Seed: int64(rapid.Uint16().Draw(t, "seed"))}
	c.Header = ref.Set(gen.U32(t, "header"), "descriptor", "d32")
	for i := 2 * rapid.IntRange(0, 6).Draw(t, "holes"); i > 0; i-- {
		c.Holes = append(c.Holes, int(gen.U32(t, "hole")))
	}
	return c
}

func runTx(x *pbt.Ctx, c txCase) error {
	buf := bytes.Clone(c.Bytes)
	hs := holes.Holes{}
	for i := 0; i+1 < len(c.Holes); i += 2 {
		hs = append(hs, holes.Hole{Start: c.Holes[i], End: c.Holes[i+1]})
	}
	var frames []dec.Thing
	addr := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	var packets []func() string
	var said []string
	for i := 0; i < 2; i++ { // two frames made of the same buffer, which is refilled in between
		var err error
		var f dec.Thing
		if i == 1 && c.Less {
			buf, hs = buf[:len(buf)/2], hs[:len(hs)/2]
		}
		switch c.Kind {
		case "request":
			r, in := new(request.Request), &request.Rinfo{Session: c.Session, Fname: "name", Auth: buf}
			if i == 1 && c.Again {
				r = frames[0].(*request.Request)
			}
			if f = r; c.UseNew {
				err = r.New("descriptor=d32,reqtype=get", in)
			} else {
				err = r.Make(c.Header, in)
			}
		case "data":
			r, in := new(data.Data), &data.Dinfo{Session: c.Session, Offset: 77, Payload: buf}
			if i == 1 && c.Again {
				r = frames[0].(*data.Data)
			}
			if f = r; c.UseNew {
				err = r.New("descriptor=d32,eod=yes", in)
			} else {
				err = r.Make(c.Header, in)
			}
		case "status":
			r, in := new(status.Status), &status.Sinfo{Session: c.Session, Progress: 1, Inrespto: 2, Holes: hs}
			if i == 1 && c.Again {
				r = frames[0].(*status.Status)
			}
			if f = r; c.UseNew {
				err = r.New("descriptor=d32,errcode=success", in)
			} else {
				err = r.Make(c.Header, in)
			}
		}
		if err != nil {
			return pbt.Errf("%s: %v", c.Kind, err)
		}
		for j, p := range packets {
			if got := p(); got != said[j] {
				return pbt.Errf("%s: a packet says, after its frame was made anew (%v),\n%s\nnot\n%s", c.Kind, c.Again, got, said[j])
			}
		}
		frames = append(frames, f)
		before := dec.Meaning(f)
		var first string
		if i == 1 {
			first = dec.Meaning(frames[0])
		}
		rnd := rand.New(rand.NewSource(c.Seed + int64(i)))
		rnd.Read(buf)
		for j := range hs {
			hs[j] = holes.Hole{Start: rnd.Intn(1 << 20), End: rnd.Intn(1 << 20)}
		}
		if got := dec.Meaning(f); got != before {
			return pbt.Errf("%s: after the caller used his data for something else the frame says\n%s\nnot\n%s", c.Kind, got, before)
		}
		if i == 1 && !c.Again && dec.Meaning(frames[0]) != first {
			return pbt.Errf("%s: an earlier frame changed", c.Kind)
		}
		// The other way round: what is done to the frame does not reach the caller
		keep, khs := bytes.Clone(buf), append(holes.Holes{}, hs...)
		switch r := f.(type) {
		case *request.Request:
			for j := range r.Auth {
				r.Auth[j] ^= 0x55
			}
		case *data.Data:
			for j := range r.Payload {
				r.Payload[j] ^= 0x55
			}
		case *status.Status:
			for j := range r.Holes {
				r.Holes[j].Start++
			}
		}
		if !bytes.Equal(keep, buf) || fmt.Sprint(khs) != fmt.Sprint(hs) {
			return pbt.Errf("%s: changing the frame changed the caller's data", c.Kind)
		}
		p := packet(f, addr)
		packets, said = append(packets, p), append(said, p())
	}
	x.Class("%s, in the same frame: %v", c.Kind, c.Again)
	x.NontrivialIf(c.Kind == "status" && len(hs) > 0 || c.Kind != "status" && len(buf) > 0)
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C30", pbt.NewPart("received", 8000, 150000, genRx, runRx), pbt.NewPart("made", 6000, 100000, genTx, runTx))
}
