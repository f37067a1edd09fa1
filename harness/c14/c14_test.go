// C14: bytes written at an offset are the bytes read at that offset, and nothing else moves.
package c14

import (
	"bytes"
	"os"
	"os/signal"
	"syscall"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/fileio"
	"pgregory.net/rapid"
)

type op struct {
	Kind string // write, read, reopen
	Off  uint64 // from Base
	Data []byte
	Len  int
}

type histCase struct {
	Base uint64
	Ops  []op
}

const span = 1 << 15

func genHist(t *rapid.T) histCase {
	c := histCase{Base: gen.Pick(t, "base", uint64(0), 0, 0, 1<<16-100, 1<<31-50, 1<<32-50, 1<<32, 1<<33+7, 1<<40, 1<<42-40, 1<<43)}
	for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
		o := op{Kind: gen.Pick(t, "kind", "write", "write", "write", "read", "read", "reopen")}
		if rapid.IntRange(0, 19).Draw(t, "huge") == 0 {
			o.Off = gen.Pick(t, "hugeoff", uint64(1<<63), 1<<63+1, 1<<64-1)
		} else if gen.Bool(t, "near") {
			o.Off = rapid.Uint64Range(0, 200).Draw(t, "off")
		} else {
			o.Off = rapid.Uint64Range(0, span).Draw(t, "off")
		}
		switch o.Kind {
		case "write":
			o.Data = gen.Bytes(t, "data", 9000)
		case "read":
			o.Len = gen.Len(t, "len", 9000)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func run(x *pbt.Ctx, c histCase) error {
	if _, err := sar.Sardir("c14"); err != nil {
		return err
	}
	fp, err := fileio.FileOpen("f", "get")
	if err != nil {
		return pbt.Errf("file for writing: %v", err)
	}
	defer func() { fp.Close() }()
	var model []byte // from Base; all before is zero
	ro := false
	seen := map[string]bool{}
	for i, o := range c.Ops {
		seen[o.Kind] = true
		pos := o.Off
		if o.Off < 1<<62 {
			pos += c.Base
		}
		switch o.Kind {
		case "reopen": // as a sender does
			if err := fileio.FileClose(fp); err != nil {
				return pbt.Errf("op %d: close: %v", i, err)
			}
			if fp, err = fileio.FileOpen("f", "put"); err != nil {
				return pbt.Errf("op %d: open to read: %v", i, err)
			}
			ro = true
		case "write":
			data := append([]byte(nil), o.Data...)
			n, err := fileio.FileWrite(fp, pos, data)
			if !bytes.Equal(data, o.Data) {
				return pbt.Errf("op %d: the buffer written was changed", i)
			}
			if ro {
				if err == nil && len(o.Data) > 0 {
					return pbt.Errf("op %d: wrote to a file opened to be sent", i)
				}
				continue
			}
			if pos >= 1<<63 {
				x.Class("write past the largest offset")
				if err == nil {
					return pbt.Errf("op %d: wrote at %d", i, pos)
				}
				continue
			}
			if err != nil || n != len(o.Data) {
				return pbt.Errf("op %d: write of %d at %d gave %d, %v", i, len(o.Data), pos, n, err)
			}
			if end := int(o.Off) + len(o.Data); len(o.Data) > 0 && end > len(model) {
				x.Class("extends")
				if int(o.Off) > len(model) {
					x.Class("leaves a gap")
				}
				model = append(model, make([]byte, end-len(model))...)
			} else if len(o.Data) > 0 {
				x.Class("overwrites")
			}
			if len(o.Data) > 0 {
				copy(model[o.Off:], o.Data)
			}
		case "read":
			got, err := fileio.FileRead(fp, pos, o.Len)
			if pos >= 1<<63 {
				x.Class("read past the largest offset")
				if err == nil {
					return pbt.Errf("op %d: read at %d", i, pos)
				}
				continue
			}
			if o.Len == 0 {
				if len(got) > 0 {
					return pbt.Errf("op %d: a read of no bytes gave %d", i, len(got))
				}
				continue
			}
			if int(o.Off) >= len(model) {
				x.Class("read after the end")
				if err == nil {
					return pbt.Errf("op %d: read of %d at %d gave %d bytes, the file ends at %d", i, o.Len, pos, len(got), c.Base+uint64(len(model)))
				}
				continue
			}
			want := model[o.Off:min(len(model), int(o.Off)+o.Len)]
			if err != nil || !bytes.Equal(got, want) {
				return pbt.Errf("op %d: read of %d at %d gave %d bytes, %v; want %d bytes", i, o.Len, pos, len(got), err, len(want))
			}
			x.Class("read")
			x.Nontrivial()
		}
	}
	// The whole file
	st, err := os.Stat("f")
	if err != nil {
		return err
	}
	want := int64(0)
	if len(model) > 0 {
		want = int64(c.Base) + int64(len(model))
	}
	if st.Size() != want {
		return pbt.Errf("file is %d bytes, want %d", st.Size(), want)
	}
	f, err := os.Open("f")
	if err != nil {
		return err
	}
	defer f.Close()
	if len(model) > 0 {
		lead := min(c.Base, 4096) // all before must be zero, look at its end
		b := make([]byte, len(model)+int(lead))
		if _, err := f.ReadAt(b, int64(c.Base-lead)); err != nil {
			return err
		}
		if !bytes.Equal(b[:lead], make([]byte, lead)) {
			return pbt.Errf("bytes before the first offset were written")
		}
		for i := range model {
			if b[int(lead)+i] != model[i] {
				return pbt.Errf("byte %d of the file is %#x, want %#x", c.Base+uint64(i), b[int(lead)+i], model[i])
			}
		}
		x.NontrivialIf(len(c.Ops) > 1)
		x.Class("beyond 4GiB=%v", c.Base+uint64(len(model)) > 1<<32)
	}
	return nil
}

// A write that cannot be done is reported

type faultCase struct {
	Kind string
	Off  uint64
	Data []byte
	Room int // What the limit leaves room for
}

func genFault(t *rapid.T) faultCase {
	c := faultCase{gen.Pick(t, "kind", "full", "closed", "none", "sending", "limit", "limit"), rapid.Uint64Range(0, 5000).Draw(t, "off"), gen.Bytes(t, "data", 9000), rapid.IntRange(0, 8999).Draw(t, "room")}
	if len(c.Data) == 0 {
		c.Data = []byte{1}
	}
	return c
}

// limited runs f while files may not get larger than max.
func limited(max uint64, f func() (int, error)) (n int, ferr, err error) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		return 0, nil, err
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: max, Max: old.Max}); err != nil {
		return 0, nil, err
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	n, ferr = f()
	return n, ferr, nil
}

func runFault(x *pbt.Ctx, c faultCase) error {
	d, err := sar.Sardir("c14f")
	if err != nil {
		return err
	}
	var fp *os.File
	switch c.Kind {
	case "full":
		if fp, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
			return nil // no such device here
		}
	case "limit": // as large as a file may get, within the data
		if fp, err = fileio.FileOpen("f", "get"); err != nil {
			return pbt.Errf("open: %v", err)
		}
		defer fp.Close()
		room := c.Room % len(c.Data)
		n, werr, err := limited(c.Off+uint64(room), func() (int, error) { return fileio.FileWrite(fp, c.Off, c.Data) })
		if err != nil {
			return nil // cannot be done here
		}
		x.Class("limit, some fits=%v", room > 0)
		x.Nontrivial()
		if werr == nil {
			return pbt.Errf("a write of %d bytes of which %d fit gave %d and no error", len(c.Data), room, n)
		}
		return nil
	case "closed":
		if fp, err = fileio.FileOpen("f", "get"); err != nil {
			return pbt.Errf("open: %v", err)
		}
		fileio.FileClose(fp)
	case "sending":
		if err := os.WriteFile(d+"/f", []byte("content"), 0o644); err != nil {
			return err
		}
		if fp, err = fileio.FileOpen("f", "put"); err != nil {
			return pbt.Errf("open: %v", err)
		}
	}
	if fp != nil {
		defer fp.Close()
	}
	x.Class(c.Kind)
	x.Nontrivial()
	if n, err := fileio.FileWrite(fp, c.Off, c.Data); err == nil {
		return pbt.Errf("%s: a write of %d bytes at %d that cannot be done gave %d and no error", c.Kind, len(c.Data), c.Off, n)
	}
	if c.Kind == "closed" || c.Kind == "none" {
		if b, err := fileio.FileRead(fp, c.Off, 10); err == nil {
			return pbt.Errf("%s: read %d bytes", c.Kind, len(b))
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C14", pbt.NewPart("history", 8000, 100000, genHist, run),
		pbt.NewPart("fault", 1500, 10000, genFault, runFault))
}
