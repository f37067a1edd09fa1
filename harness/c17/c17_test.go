// C17: the checksum of a file is that of all its bytes, of the type asked for.
package c17

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"hash"
	"hash/crc32"
	"io"
	"math/bits"
	"os"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/fileio"
	"pgregory.net/rapid"
)

type sumCase struct {
	Type    string
	Name    pbt.B
	Len     int
	Pat     uint32
	Flip    int  // Bit to flip for a second checksum
	Missing bool // The file is not there
}

func genCase(t *rapid.T) sumCase {
	c := sumCase{Type: gen.Pick(t, "type", "none", "crc32", "crc32", "md5", "md5", "sha1", "sha1", "sha256", "", "CRC32", "crc", "invalid")}
	c.Name = "f" + gen.Name(t, "name", 60)
	c.Name = pbt.B(bytes.ReplaceAll([]byte(c.Name), []byte("/"), []byte("_")))
	switch rapid.IntRange(0, 3).Draw(t, "len.kind") {
	case 0:
		c.Len = rapid.IntRange(0, 130).Draw(t, "len")
	case 1:
		c.Len = gen.Len(t, "len", 9000)
	case 2:
		c.Len = gen.Pick(t, "len", 32767, 32768, 32769, 65535, 65536, 65537, 100000)
	case 3:
		c.Len = rapid.IntRange(0, 300000).Draw(t, "len")
	}
	c.Pat = rapid.Uint32().Draw(t, "pat")
	c.Flip = rapid.IntRange(0, 1<<22).Draw(t, "flip")
	c.Missing = rapid.IntRange(0, 15).Draw(t, "missing") == 0
	return c
}

// crc is CRC-32 (IEEE 802.3) a bit at a time.
func crc(b []byte) []byte {
	r := ^uint32(0)
	for _, x := range b {
		r ^= uint32(x)
		for i := 0; i < 8; i++ {
			if r&1 != 0 {
				r = r>>1 ^ 0xedb88320
			} else {
				r >>= 1
			}
		}
	}
	return ref.Num(uint64(^r), 4)
}

func want(ty string, b []byte) []byte {
	switch ty {
	case "crc32":
		return crc(b)
	case "md5":
		s := md5.Sum(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b)
		return s[:]
	}
	return nil
}

func run(x *pbt.Ctx, c sumCase) error {
	dir, err := sar.Sardir("c17")
	if err != nil {
		return err
	}
	b := make([]byte, c.Len)
	a := c.Pat
	for i := range b {
		a = a*1664525 + 1013904223
		b[i] = byte(a >> 24)
	}
	full := dir + "/" + string(c.Name)
	_, known := ref.Flags["csumtype"].Opts[c.Type]
	if c.Missing {
		x.Class("missing file")
		if _, err := fileio.Checksum(c.Type, string(c.Name)); err == nil {
			return pbt.Errf("checksum of a file that is not there")
		}
		return nil
	}
	for round := 0; round < 2; round++ {
		if err := os.WriteFile(full, b, 0o644); err != nil {
			return err
		}
		got, err := fileio.Checksum(c.Type, string(c.Name))
		if o := sar.Open(dir); len(o) != 0 {
			return pbt.Errf("%s of %d bytes leaves open %q", c.Type, len(b), o)
		}
		if !known {
			x.Class("unknown type")
			if err == nil {
				return pbt.Errf("a checksum of type %q: %x", c.Type, got)
			}
			return nil
		}
		x.Class("%s", c.Type)
		x.NontrivialIf(c.Type != "none" && len(b) > 0)
		if err != nil {
			return pbt.Errf("%s of %d bytes: %v", c.Type, len(b), err)
		}
		if w := want(c.Type, b); !bytes.Equal(got, w) {
			return pbt.Errf("%s of %d bytes is %x, want %x", c.Type, len(b), got, w)
		}
		if n := 4 * int(ref.Flags["csumlen"].Opts[c.Type]); len(got) != n {
			return pbt.Errf("%s has %d bytes, its header field says %d", c.Type, len(got), n)
		}
		if now, err := os.ReadFile(full); err != nil || !bytes.Equal(now, b) {
			return pbt.Errf("the file was changed by its checksum")
		}
		if len(b) == 0 {
			return nil
		}
		i := c.Flip % (8 * len(b))
		b[i/8] ^= 1 << (i % 8)
	}
	return nil
}

// Large files: zeros but for a few bytes, so that they take no room.

type bigCase struct {
	Type string
	Size int64
	At   []int64
}

func genBig(t *rapid.T) bigCase {
	c := bigCase{Type: gen.Pick(t, "type", "crc32", "md5", "sha1")}
	c.Size = gen.Pick(t, "size", int64(1<<20), 2<<20, 4<<20, 8<<20, 10<<20, 16<<20, 32<<20) + gen.Pick(t, "off", int64(-1), 0, 1, 4095, 100000)
	c.place(t)
	return c
}

func genHuge(t *rapid.T) bigCase {
	c := bigCase{Type: "crc32", Size: gen.Pick(t, "size", int64(1<<31), 1<<32) + gen.Pick(t, "off", int64(-1), 0, 1, 100000)}
	c.place(t)
	return c
}

func (c *bigCase) place(t *rapid.T) {
	for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
		c.At = append(c.At, rapid.Int64Range(0, c.Size-1).Draw(t, "at"))
	}
	c.At = append(c.At, c.Size-1-rapid.Int64Range(0, min(c.Size-1, 5000)).Draw(t, "end"))
}

func runBig(x *pbt.Ctx, c bigCase) error {
	dir, err := sar.Sardir("c17b")
	if err != nil {
		return err
	}
	f, err := os.Create(dir + "/big")
	if err != nil {
		return err
	}
	defer os.Remove(dir + "/big")
	err = f.Truncate(c.Size)
	for i, at := range c.At {
		if err == nil {
			_, err = f.WriteAt([]byte{byte(i + 1)}, at)
		}
	}
	f.Close()
	if err != nil {
		return nil // no file system for that
	}
	var h hash.Hash = md5.New()
	switch c.Type {
	case "crc32":
		h = crc32.NewIEEE()
	case "sha1":
		h = sha1.New()
	}
	r, err := os.Open(dir + "/big")
	if err != nil {
		return err
	}
	n, err := io.CopyBuffer(h, struct{ io.Reader }{r}, make([]byte, 1<<20))
	r.Close()
	if err != nil || n != c.Size {
		return pbt.Errf("cannot read the file: %d %v", n, err)
	}
	x.Class("%s over 2^%d", c.Type, bits.Len64(uint64(c.Size))-1)
	x.Nontrivial()
	got, err := fileio.Checksum(c.Type, "big")
	if err != nil {
		return pbt.Errf("%s of %d bytes: %v", c.Type, c.Size, err)
	}
	if w := h.Sum(nil); !bytes.Equal(got, w) {
		return pbt.Errf("%s of %d bytes is %x, want %x", c.Type, c.Size, got, w)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C17", pbt.NewPart("sum", 5000, 50000, genCase, run),
		pbt.NewPart("big", 60, 1000, genBig, runBig), pbt.NewPart("huge", 4, 12, genHuge, runBig))
}
