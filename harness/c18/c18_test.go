// C18: a file cut into data frames arrives whole over a link that loses, doubles and reorders.
//
// Sender and receiver are the loops of the protocol written down with the parts under test:
// files, data, metadata and status frames, and the record of holes. The link is generated.
package c18

import (
	"bytes"
	"os"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

// theCase: what happens to the frames of each round; after the last round the link is clean.
type theCase struct {
	Base  uint64 // Bytes of the file the receiver has already
	Size  int
	Pat   uint32
	Chunk int
	Desc  string
	Stamp string // Type of timestamp in the frames, "" for none
	Csum  string
	Rates []rate
	Fate  []uint32 // Drawn numbers that decide, used in turn
}

type rate struct{ Lose, Double, Late int } // of 16

func genCase(t *rapid.T) theCase {
	c := theCase{Base: gen.Pick(t, "base", uint64(0), 0, 0, 0, 65000, 1<<32-700, 1<<33)}
	c.Chunk = gen.Pick(t, "chunk", 1, 7, 100, 1000, 1400, 8000)
	n := rapid.IntRange(1, 40).Draw(t, "frames")
	if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
		n = rapid.IntRange(100, 700).Draw(t, "manyframes")
		c.Chunk = min(c.Chunk, 100)
	}
	c.Size = max(1, n*c.Chunk-rapid.IntRange(0, c.Chunk-1).Draw(t, "short"))
	c.Pat = rapid.Uint32().Draw(t, "pat")
	c.Desc = "d64"
	if c.Base+uint64(c.Size) < 1<<32 && gen.Bool(t, "small") {
		c.Desc = "d32"
		if c.Base+uint64(c.Size) < 1<<16 && gen.Bool(t, "smaller") {
			c.Desc = "d16"
		}
	}
	c.Stamp = gen.Pick(t, "stamp", "", "", "posix32", "posix64_32", "epoch2000_32")
	c.Csum = gen.Pick(t, "csum", "none", "crc32", "md5", "sha1")
	if c.Base > 1<<20 {
		c.Csum = "none" // too long to sum
	}
	for i := rapid.IntRange(0, 4).Draw(t, "rounds"); i > 0; i-- {
		c.Rates = append(c.Rates, rate{rapid.IntRange(0, 12).Draw(t, "lose"), rapid.IntRange(0, 6).Draw(t, "double"), rapid.IntRange(0, 12).Draw(t, "late")})
	}
	c.Fate = rapid.SliceOfN(rapid.Uint32(), 1, 12).Draw(t, "fate")
	return c
}

type link struct {
	fate []uint32
	n    uint32
}

func (l *link) next(k int) int {
	v := l.fate[int(l.n)%len(l.fate)] + l.n*2654435761
	l.n++
	v ^= v >> 15
	v *= 0x2c1b3c6d
	v ^= v >> 12
	return int(v % uint32(k))
}

// carry gives the frames as they come out at the other end.
func (l *link) carry(frames [][]byte, r rate) [][]byte {
	var out, late [][]byte
	for _, f := range frames {
		for n := 1; n > 0; n-- {
			switch {
			case l.next(16) < r.Lose:
			case l.next(16) < r.Late:
				late = append(late, f)
			default:
				out = append(out, f)
			}
			if l.next(16) < r.Double {
				n++
				r.Double--
			}
		}
		if len(late) > 0 && l.next(4) == 0 { // some of those that wait come in any order
			i := l.next(len(late))
			out = append(out, late[i])
			late = append(late[:i], late[i+1:]...)
		}
	}
	for len(late) > 0 {
		i := l.next(len(late))
		out = append(out, late[i])
		late = append(late[:i], late[i+1:]...)
	}
	return out
}

func run(x *pbt.Ctx, c theCase) error {
	dir, err := sar.Sardir("c18")
	if err != nil {
		return err
	}
	body := make([]byte, c.Size)
	a := c.Pat
	for i := range body {
		a = a*1664525 + 1013904223
		body[i] = byte(a>>24) | 1 // never zero
	}
	f, err := os.Create(dir + "/src")
	if err != nil {
		return err
	}
	_, err = f.WriteAt(body, int64(c.Base))
	f.Close()
	if err != nil {
		return err
	}
	total := c.Base + uint64(c.Size)

	// The sender announces the file
	var md, rmd metadata.MetaData
	if err := md.New("transfer=file,csumtype="+c.Csum, &metadata.Minfo{Session: 9, Fname: "src"}); err != nil {
		return pbt.Errf("metadata: %v", err)
	}
	buf, err := md.Encode()
	if err != nil {
		return pbt.Errf("metadata: %v", err)
	}
	if err := rmd.Decode(buf); err != nil {
		return pbt.Errf("metadata: %v", err)
	}
	if rmd.Dir.Size != total {
		return pbt.Errf("metadata says %d bytes of %d", rmd.Dir.Size, total)
	}

	src, err := fileio.FileOpen("src", "put")
	if err != nil {
		return pbt.Errf("source: %v", err)
	}
	defer src.Close()
	dst, err := fileio.FileOpen("dst", "get")
	if err != nil {
		return pbt.Errf("destination: %v", err)
	}
	defer dst.Close()
	var fills holes.Holes
	fills = fills.Add(0, int(c.Base))

	flags := "descriptor=" + c.Desc + ",transfer=file"
	if c.Stamp != "" {
		flags += ",reqtstamp=" + c.Stamp
	}
	cut := func(from, to uint64) ([][]byte, error) {
		var frames [][]byte
		for off := from; off < to; {
			b, err := fileio.FileRead(src, off, int(min(uint64(c.Chunk), to-off)))
			if err != nil || len(b) == 0 {
				return nil, pbt.Errf("read at %d: %d bytes, %v", off, len(b), err)
			}
			fl := flags
			if off+uint64(len(b)) == total {
				fl += ",eod=yes"
			}
			var d data.Data
			if err := d.New(fl, &data.Dinfo{Session: 9, Offset: off, Payload: b}); err != nil {
				return nil, pbt.Errf("data frame at %d: %v", off, err)
			}
			e, err := d.Encode()
			if err != nil {
				return nil, pbt.Errf("data frame at %d: %v", off, err)
			}
			frames = append(frames, e)
			off += uint64(len(b))
		}
		return frames, nil
	}
	l := &link{fate: c.Fate}
	want := holes.Holes{{Start: int(c.Base), End: int(total)}} // what the receiver asked for
	rx := make([]byte, 65536)                                  // one buffer for all that comes in
	lost, most := 0, 0
	for round := 0; ; round++ {
		var frames [][]byte
		for _, h := range want {
			fr, err := cut(uint64(h.Start), uint64(h.End))
			if err != nil {
				return err
			}
			frames = append(frames, fr...)
		}
		var r rate
		if round < len(c.Rates) {
			r = c.Rates[round]
		}
		for _, fr := range l.carry(frames, r) {
			n := copy(rx, fr)
			var d data.Data
			if err := d.Decode(rx[:n]); err != nil {
				return pbt.Errf("data frame does not decode: %v", err)
			}
			if n, err := fileio.FileWrite(dst, d.Offset, d.Payload); err != nil || n != len(d.Payload) {
				return pbt.Errf("write at %d: %d, %v", d.Offset, n, err)
			}
			fills = fills.Add(int(d.Offset), int(d.Offset)+len(d.Payload))
		}
		// All that is recorded as received is there
		for _, h := range fills {
			from := max(h.Start, int(c.Base))
			if h.End <= from {
				continue
			}
			if h.End > int(total) {
				return pbt.Errf("received up to %d of %d", h.End, total)
			}
			got := make([]byte, h.End-from)
			if _, err := dst.ReadAt(got, int64(from)); err != nil {
				return pbt.Errf("recorded [%d,%d) is not in the file: %v", from, h.End, err)
			}
			if !bytes.Equal(got, body[from-int(c.Base):h.End-int(c.Base)]) {
				return pbt.Errf("recorded [%d,%d) differs from the source", from, h.End)
			}
		}
		// Status: progress is how far all has come, the holes are sent back
		var progress, end uint64
		if len(fills) > 0 {
			if fills[0].Start == 0 {
				progress = uint64(fills[0].End)
			}
			end = uint64(fills[len(fills)-1].End)
		}
		var s, rs status.Status
		if err := s.New("descriptor=d64,errcode=success", &status.Sinfo{Session: 9, Progress: progress, Inrespto: end, Holes: fills.Getholes()}); err != nil {
			return pbt.Errf("status: %v", err)
		}
		if buf, err = s.Encode(); err != nil {
			return pbt.Errf("status: %v", err)
		}
		if err := rs.Decode(buf); err != nil {
			return pbt.Errf("status: %v", err)
		}
		if rs.Progress == total && len(rs.Holes) == 0 {
			x.Class("rounds=%d", round+1)
			break
		}
		lost++
		most = max(most, len(rs.Holes))
		if round >= len(c.Rates) {
			return pbt.Errf("not complete after a round without loss: asked for %v, progress %d of %d, holes %v", want, rs.Progress, total, rs.Holes)
		}
		want = append(holes.Holes{}, rs.Holes...)
		if rs.Inrespto < total {
			want = append(want, holes.Hole{Start: int(rs.Inrespto), End: int(total)})
		}
	}
	x.NontrivialIf(lost > 0)
	x.Class("over 64 holes=%v", most > 64)
	x.Class("lossy=%v", lost > 0)
	x.Class("beyond 4GiB=%v", total > 1<<32)
	if err := fileio.FileClose(dst); err != nil {
		return pbt.Errf("close: %v", err)
	}
	// The file received is the file sent
	st, err := os.Stat(dir + "/dst")
	if err != nil || uint64(st.Size()) != total {
		return pbt.Errf("received file: %v %v, want %d bytes", st, err, total)
	}
	if c.Base < 1<<20 {
		got, err := os.ReadFile(dir + "/dst")
		if err != nil || !bytes.Equal(got[c.Base:], body) {
			return pbt.Errf("received file differs (%v)", err)
		}
		sum, err := fileio.Checksum(c.Csum, "dst")
		if err != nil || !bytes.Equal(sum, rmd.Checksum) {
			return pbt.Errf("%s of the received file is %x (%v), announced was %x", c.Csum, sum, err, rmd.Checksum)
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C18", pbt.NewPart("transfer", 6000, 50000, genCase, run))
}
