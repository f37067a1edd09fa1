// C06: a directory entry carries properties, size, times and path, in the documented layout.
package c06

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/dirent"
	"pgregory.net/rapid"
)

type codecCase struct {
	Header       uint16
	Size         uint64
	Mtime, Ctime uint32 // Seconds since 2000
	Path         pbt.B
	Tail         []byte // Follows the NUL on the wire
}

func genCodec(t *rapid.T) codecCase {
	d := gen.Pick(t, "d", "d16", "d32", "d64")
	c := codecCase{Header: uint16(gen.U64(t, "header", 1<<16-1))}
	c.Header = ref.SetD(c.Header, "descriptor", d)
	c.Size = gen.U64(t, "size", ref.DMax(d))
	c.Mtime, c.Ctime = gen.U32(t, "mtime"), gen.U32(t, "ctime")
	c.Path = gen.Name(t, "path", 1024)
	if rapid.IntRange(0, 3).Draw(t, "tail?") == 0 {
		c.Tail = gen.Bytes(t, "tail", 20)
	}
	return c
}

func at(s uint32) time.Time { return time.Unix(int64(s)+ref.Epoch2000, 0) }

func used() *dirent.DirEnt {
	d := &dirent.DirEnt{Header: 0xffff, Size: 1<<64 - 1, Path: "an/old/path"}
	d.Mtime.New("posix64_32", time.Unix(1700000000, 7))
	d.Ctime.New("posix32", time.Unix(1700000001, 7))
	return d
}

func runCodec(x *pbt.Ctx, c codecCase) error {
	x.Class("%s %s", ref.NameD(c.Header, "descriptor"), ref.NameD(c.Header, "property"))
	x.NontrivialIf(len(c.Path) > 0 && c.Size > 0)
	d := dirent.DirEnt{Header: c.Header, Size: c.Size, Path: string(c.Path)}
	if err := d.Mtime.New("epoch2000_32", at(c.Mtime)); err != nil {
		return err
	}
	if err := d.Ctime.New("epoch2000_32", at(c.Ctime)); err != nil {
		return err
	}
	buf, err := d.Encode()
	if err != nil {
		return pbt.Errf("Encode: %v", err)
	}
	want := ref.Dirent(c.Header, c.Size, c.Mtime, c.Ctime, string(c.Path))
	if !bytes.Equal(buf, want) {
		return pbt.Errf("encoded\n%x\nwant\n%x", buf, want)
	}
	for _, r := range []*dirent.DirEnt{new(dirent.DirEnt), used()} {
		if len(c.Tail) > 0 {
			x.Class("bytes after the path")
		}
		if err := r.Decode(append(bytes.Clone(want), c.Tail...)); err != nil {
			return pbt.Errf("Decode of an encoded entry: %v (%x)", err, want)
		}
		cp, v := r.Copy(), r.Value()
		for _, e := range []*dirent.DirEnt{r, cp, &v} {
			if e.Header != c.Header || e.Size != c.Size || e.Path != string(c.Path) ||
				e.Mtime.Secs() != uint64(c.Mtime) || e.Ctime.Secs() != uint64(c.Ctime) || e.Mtime.Print() != d.Mtime.Print() || e.Ctime.Print() != d.Ctime.Print() {
				return pbt.Errf("decoded %#x size %d mtime %d ctime %d path %q, want %+v", e.Header, e.Size, e.Mtime.Secs(), e.Ctime.Secs(), e.Path, c)
			}
			if again, err := e.Encode(); err != nil || !bytes.Equal(again, want) {
				return pbt.Errf("entry received\n%x\nis sent on as\n%x %v", want, again, err)
			}
		}
	}
	return nil
}

type fileCase struct {
	Name     pbt.B
	Dir      bool
	Size     int64
	Mtime    int64 // Unix seconds
	Flags    []gen.KV
	Special  bool
	Spaced   bool
	InSubdir bool
	Used     bool // The entry held something else before
	Long     int  // Length of the name of a stream, which need not be there
}

func genFile(t *rapid.T) fileCase {
	c := fileCase{Name: "f" + gen.Name(t, "name", 100), Dir: gen.Bool(t, "dir")}
	n := bytes.ReplaceAll([]byte(c.Name), []byte("/"), []byte("_"))
	c.Name = pbt.B(n)
	c.Size = int64(gen.U64(t, "size", 1<<34))
	c.Special = rapid.IntRange(0, 4).Draw(t, "special?") == 0
	prop := "normalfile"
	if c.Dir {
		prop = "normaldirectory"
	}
	if c.Special {
		prop = gen.Pick(t, "special", "specialfile", "specialdirectory")
	}
	d := gen.Pick(t, "d", "d16", "d32", "d64")
	c.Flags = []gen.KV{{K: "property", V: prop}, {K: "descriptor", V: d}}
	if gen.Bool(t, "swap") {
		c.Flags[0], c.Flags[1] = c.Flags[1], c.Flags[0]
	}
	switch rapid.IntRange(0, 3).Draw(t, "mtime.kind") {
	case 0:
		c.Mtime = gen.Pick(t, "mtime", int64(ref.Epoch2000)-1, ref.Epoch2000, 1<<32+ref.Epoch2000-1, 1<<32+ref.Epoch2000, 0, 1<<31, 1<<32)
	default:
		c.Mtime = rapid.Int64Range(ref.Epoch2000, ref.Epoch2000+1<<32-1).Draw(t, "mtime")
	}
	c.Spaced, c.InSubdir = gen.Bool(t, "spaced"), gen.Bool(t, "sub")
	c.Used = gen.Bool(t, "used")
	if c.Special && gen.Bool(t, "long?") {
		c.Long = gen.Pick(t, "long", 1023, 1024, 1025, 1026, 2048, rapid.IntRange(101, 4000).Draw(t, "length"))
	}
	return c
}

func runFile(x *pbt.Ctx, c fileCase) error {
	dir, err := sar.Sardir("c06")
	if err != nil {
		return err
	}
	name := string(c.Name)
	if c.InSubdir {
		if err := os.Mkdir(filepath.Join(dir, "sub"), 0o755); err != nil {
			return err
		}
		name = "sub/" + name
	}
	full := dir + "/" + name
	if c.Dir {
		err = os.Mkdir(full, 0o755)
	} else if err = os.WriteFile(full, nil, 0o644); err == nil {
		err = os.Truncate(full, c.Size)
	}
	if err != nil {
		return err
	}
	if err := os.Chtimes(full, time.Unix(c.Mtime, 0), time.Unix(c.Mtime, 999999999)); err != nil {
		return err
	}
	st, err := os.Lstat(full)
	if err != nil {
		return err
	}
	sys := st.Sys().(*syscall.Stat_t)
	h := ref.SetD(0, "sod", "sod")
	for _, f := range c.Flags {
		h = ref.SetD(h, f.K, f.V)
	}
	var d dirent.DirEnt
	if c.Used {
		d = *used()
		// It was an entry for the other kind with the longest descriptor
		d.Header = ref.SetD(ref.SetD(ref.SetD(0, "sod", "sod"), "descriptor", "d128"), "property", "specialdirectory")
	}
	if c.Long > len(name) {
		name += strings.Repeat("n", c.Long-len(name))
	}
	from := time.Now()
	err = d.New(gen.FlagStr(c.Flags, c.Spaced), name)
	to := time.Now()
	kind := ref.NameD(h, "property")
	mt := sys.Mtim.Sec - ref.Epoch2000
	if c.Special {
		x.Class("%s", kind)
		x.Nontrivial()
		if len(name) > 1024 {
			x.Class("path too long")
			if err == nil {
				return pbt.Errf("an entry is made for a path of %d bytes", len(name))
			}
			return nil
		}
		if err != nil {
			return pbt.Errf("New: %v", err)
		}
		s := int64(d.Mtime.Secs()) + ref.Epoch2000
		if d.Header != h || d.Path != name || d.Size != 0 || s < from.Unix() || s > to.Unix() || d.Ctime.Secs() != d.Mtime.Secs() {
			return pbt.Errf("entry %#x size %d mtime %d ctime %d path %q for a stream", d.Header, d.Size, d.Mtime.Secs(), d.Ctime.Secs(), d.Path)
		}
		return nil
	}
	if mt < 0 || mt > 1<<32-1 {
		x.Class("time out of range")
		if err == nil {
			return pbt.Errf("modification time %v does not fit, yet the entry has %d", st.ModTime(), d.Mtime.Secs())
		}
		return nil
	}
	x.Class("%s", kind)
	x.Nontrivial()
	if err != nil {
		return pbt.Errf("New: %v", err)
	}
	ct := sys.Ctim.Sec - ref.Epoch2000
	if d.Header != h || d.Path != name || d.Size != uint64(st.Size()) || d.Mtime.Secs() != uint64(mt) || d.Ctime.Secs() != uint64(ct) {
		return pbt.Errf("entry %#x size %d mtime %d ctime %d path %q, want %#x %d %d %d %q", d.Header, d.Size, d.Mtime.Secs(), d.Ctime.Secs(), d.Path, h, st.Size(), mt, ct, name)
	}
	if uint64(st.Size()) > ref.DMax(ref.NameD(h, "descriptor")) {
		return nil // Encoding it is another property's matter
	}
	want := ref.Dirent(h, uint64(st.Size()), uint32(mt), uint32(ct), name)
	if buf, err := d.Encode(); err != nil || !bytes.Equal(buf, want) {
		return pbt.Errf("encoded\n%x %v\nwant\n%x", buf, err, want)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C06",
		pbt.NewPart("codec", 30000, 300000, genCodec, runCodec),
		pbt.NewPart("file", 4000, 40000, genFile, runFile))
}
