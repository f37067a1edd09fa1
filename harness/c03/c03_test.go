// C03: a request frame carries the file name and authentication bytes unchanged.
package c03

import (
	"bytes"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/request"
	"pgregory.net/rapid"
)

type body struct {
	Session uint32
	Fname   pbt.B
	Auth    []byte
}

type newCase struct {
	Flags  []gen.KV
	Spaced bool
	Comma  bool // A comma after the last flag
	body
}

func genBody(t *rapid.T) body {
	return body{gen.U32(t, "session"), gen.Name(t, "fname", 1300), gen.Bytes(t, "auth", 9000)}
}

func genNew(t *rapid.T) newCase {
	c := newCase{Flags: gen.Flags(t, "flags", []string{"descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite"}, ref.Opts)}
	if len(c.Flags) == 0 {
		c.Flags = []gen.KV{{K: "reqtype", V: gen.Pick(t, "r", ref.Opts("reqtype")...)}}
	}
	c.Spaced, c.Comma = gen.Bool(t, "spaced"), gen.Bool(t, "comma")
	c.body = genBody(t)
	return c
}

func used() *request.Request {
	r := new(request.Request)
	if err := r.New("reqtype=delete,txwilling=yes", &request.Rinfo{Session: 1<<32 - 1, Fname: "old/name", Auth: []byte("old secret")}); err != nil {
		panic(err)
	}
	return r
}

func (b body) check(x *pbt.Ctx, r *request.Request, h uint32) error {
	x.NontrivialIf(len(b.Fname) > 0)
	switch {
	case len(b.Auth) > 0 && len(b.Fname) > 0:
		x.Class("name and auth")
	case len(b.Auth) > 0:
		x.Class("auth only")
	case len(b.Fname) > 0:
		x.Class("name only")
	default:
		x.Class("neither")
	}
	if string(bytes.ToValidUTF8([]byte(b.Fname), nil)) != string(b.Fname) {
		x.Class("name is not UTF-8")
	}
	x.Class("%s", ref.Name(h, "reqtype"))
	if r.Header != h || r.Session != b.Session || r.Fname != string(b.Fname) || !bytes.Equal(r.Auth, b.Auth) {
		return pbt.Errf("frame made has header %#x session %d name %q auth %x, want %#x %d %q %x", r.Header, r.Session, r.Fname, r.Auth, h, b.Session, b.Fname, b.Auth)
	}
	buf, err := r.Encode()
	if err != nil {
		return pbt.Errf("Encode: %v", err)
	}
	if want := ref.Request(h, b.Session, string(b.Fname), b.Auth); !bytes.Equal(buf, want) {
		return pbt.Errf("encoded\n%x\nwant\n%x", buf, want)
	}
	return b.decodes(buf, h)
}

func (b body) decodes(buf []byte, h uint32) error {
	for _, d := range []*request.Request{new(request.Request), used()} {
		if err := d.Decode(buf); err != nil {
			return pbt.Errf("Decode of an encoded frame: %v (%x)", err, buf)
		}
		if d.Header != h || d.Session != b.Session || d.Fname != string(b.Fname) || !bytes.Equal(d.Auth, b.Auth) {
			return pbt.Errf("decoded header %#x session %d name %q auth %x, want %#x %d %q %x", d.Header, d.Session, d.Fname, d.Auth, h, b.Session, b.Fname, b.Auth)
		}
		if again, err := d.Encode(); err != nil || !bytes.Equal(again, buf) {
			return pbt.Errf("frame received\n%x\nis sent on as\n%x %v", buf, again, err)
		}
	}
	return nil
}

func runNew(x *pbt.Ctx, c newCase) error {
	h := ref.Head("request")
	for _, f := range c.Flags {
		h = ref.Set(h, f.K, f.V)
	}
	fs := gen.FlagStr(c.Flags, c.Spaced)
	if c.Comma {
		fs += ","
	}
	before := used()
	before.Header = 0
	for _, r := range []*request.Request{new(request.Request), before} {
		if err := r.New(fs, &request.Rinfo{Session: c.Session, Fname: string(c.Fname), Auth: bytes.Clone(c.Auth)}); err != nil {
			return pbt.Errf("New(%q): %v", fs, err)
		}
		if err := c.check(x, r, h); err != nil {
			return err
		}
	}
	return nil
}

type makeCase struct {
	Header uint32
	body
}

func genMake(t *rapid.T) makeCase { return makeCase{gen.U32(t, "header"), genBody(t)} }

func runMake(x *pbt.Ctx, c makeCase) error {
	h := ref.Set(ref.Set(c.Header, "version", "v1"), "frametype", "request")
	for _, r := range []*request.Request{new(request.Request), used()} {
		if err := r.Make(c.Header, &request.Rinfo{Session: c.Session, Fname: string(c.Fname), Auth: bytes.Clone(c.Auth)}); err != nil {
			return pbt.Errf("Make(%#x): %v", c.Header, err)
		}
		if err := c.check(x, r, h); err != nil {
			return err
		}
	}
	// and as another implementation would send it
	return c.decodes(ref.Request(h, c.Session, string(c.Fname), c.Auth), h)
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C03",
		pbt.NewPart("new", 25000, 250000, genNew, runNew),
		pbt.NewPart("make", 20000, 200000, genMake, runMake))
}
