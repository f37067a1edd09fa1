// C05: the metadata frame of a file tells the truth about it: size, times, name, checksum.
package c05

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/metadata"
	"pgregory.net/rapid"
)

type fcase struct {
	Kind    string // file, sparse, directory, pipe, symlink, missing
	Name    pbt.B
	Sub     bool
	Content []byte
	Size    int64 // of a sparse file
	Mtime   int64
	Make    bool
	Header  uint32 // For Make: the rest of its bits
	Flags   []gen.KV
	Spaced  bool
	Session uint32
	Used    bool // The frame was another one before
}

func genCase(t *rapid.T) fcase {
	c := fcase{Kind: gen.Pick(t, "kind", "file", "file", "file", "file", "sparse", "directory", "pipe", "symlink", "missing")}
	c.Name = pbt.B("n" + strings.NewReplacer("/", "_").Replace(string(gen.Name(t, "name", 200))))
	c.Sub = gen.Bool(t, "sub")
	c.Content = gen.Bytes(t, "content", 9000)
	if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
		c.Content = bytes.Repeat(append(c.Content, 'x'), 70000/(len(c.Content)+1))
		c.Content = c.Content[:min(len(c.Content), 65530+rapid.IntRange(0, 10).Draw(t, "around"))]
	}
	c.Size = int64(gen.U64(t, "size", 1<<35))
	c.Mtime = rapid.Int64Range(ref.Epoch2000, ref.Epoch2000+1<<32-1).Draw(t, "mtime")
	c.Make = gen.Bool(t, "make")
	c.Header = gen.U32(t, "header")
	csums := []string{"none", "crc32", "md5", "sha1"}
	tr := "file"
	switch c.Kind {
	case "sparse":
		csums = csums[:1]
	case "directory":
		csums = csums[:1]
		tr = "directory"
	case "pipe": // Has no checksum
		if rapid.IntRange(0, 3).Draw(t, "summed") > 0 {
			csums = csums[:1]
		}
		tr = "stream"
	}
	if rapid.IntRange(0, 7).Draw(t, "mismatch") == 0 {
		tr = gen.Pick(t, "tr", "file", "directory", "bundle", "stream")
	}
	all := []gen.KV{{K: "csumtype", V: gen.Pick(t, "csum", csums...)}, {K: "transfer", V: tr}}
	for _, k := range []string{"descriptor", "progress", "reliability"} {
		if gen.Bool(t, k+"?") {
			all = append(all, gen.KV{K: k, V: gen.Pick(t, k, ref.Opts(k)...)})
		}
	}
	c.Flags = rapid.Permutation(all).Draw(t, "order")
	c.Spaced = gen.Bool(t, "spaced")
	c.Session = gen.U32(t, "session")
	c.Used = gen.Bool(t, "used")
	return c
}

func sum(kind string, b []byte) []byte {
	switch kind {
	case "crc32":
		return binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(b))
	case "md5":
		s := md5.Sum(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b)
		return s[:]
	}
	return nil
}

func run(x *pbt.Ctx, c fcase) error {
	dir, err := sar.Sardir("c05")
	if err != nil {
		return err
	}
	name := string(c.Name)
	if c.Sub {
		if err := os.Mkdir(filepath.Join(dir, "sub"), 0o755); err != nil {
			return err
		}
		name = "sub/" + name
	}
	full := dir + "/" + name
	switch c.Kind {
	case "file":
		err = os.WriteFile(full, c.Content, 0o644)
	case "sparse":
		if err = os.WriteFile(full, nil, 0o644); err == nil {
			err = os.Truncate(full, c.Size)
		}
	case "directory":
		err = os.Mkdir(full, 0o755)
	case "pipe":
		err = syscall.Mkfifo(full, 0o644)
	case "symlink":
		if err = os.WriteFile(dir+"/target", c.Content, 0o644); err == nil {
			err = os.Symlink(dir+"/target", full)
		}
	}
	if err != nil {
		return err
	}
	if c.Kind != "missing" && c.Kind != "symlink" {
		if err := os.Chtimes(full, time.Unix(c.Mtime, 0), time.Unix(c.Mtime, 0)); err != nil {
			return err
		}
	}
	h := ref.Head("metadata")
	if c.Make {
		h = c.Header
		for _, f := range []string{"csumtype", "csumlen", "transfer"} {
			h = ref.SetN(h, f, 0)
		}
		h = ref.Set(ref.Set(h, "version", "v1"), "frametype", "metadata")
	}
	for _, f := range c.Flags {
		h = ref.Set(h, f.K, f.V)
		if f.K == "csumtype" {
			h = ref.Set(h, "csumlen", f.V)
		}
	}
	var m metadata.MetaData
	if c.Used { // What it said before is not to be seen
		m.Session, m.Checksum = 7, []byte("an old checksum")
		m.Dir.Header, m.Dir.Size, m.Dir.Path = 0xffff, 1<<40, "old path"
		if c.Make {
			m.Header = 0xffffffff
		}
	}
	info := &metadata.Minfo{Session: c.Session, Fname: name}
	from := time.Now()
	if c.Make {
		err = m.Make(h, info)
	} else {
		err = m.New(gen.FlagStr(c.Flags, c.Spaced), info)
	}
	to := time.Now()
	tr, cs := ref.Name(h, "transfer"), ref.Name(h, "csumtype")
	ok := tr == "file" && (c.Kind == "file" || c.Kind == "sparse") || tr == "directory" && c.Kind == "directory" || tr == "stream" && c.Kind == "pipe" && cs == "none"
	if !ok {
		x.Class("refused: %s as %s csum=%s", c.Kind, tr, cs)
		if err == nil {
			return pbt.Errf("a metadata frame was made for a %s sent as %s with checksum %s", c.Kind, tr, cs)
		}
		return nil
	}
	x.Class("%s csum=%s make=%v", c.Kind, cs, c.Make)
	x.NontrivialIf(c.Kind == "file" && len(c.Content) > 0 || c.Kind != "file")
	if err != nil {
		return pbt.Errf("metadata for a %s: %v", c.Kind, err)
	}
	st, err := os.Lstat(full)
	if err != nil {
		return err
	}
	sys := st.Sys().(*syscall.Stat_t)
	size, mt, ct := uint64(st.Size()), uint64(sys.Mtim.Sec-ref.Epoch2000), uint64(sys.Ctim.Sec-ref.Epoch2000)
	prop := map[string]string{"file": "normalfile", "sparse": "normalfile", "directory": "normaldirectory", "pipe": "specialfile"}[c.Kind]
	if c.Kind == "pipe" { // A stream has no size or times of its own
		size = 0
		mt, ct = m.Dir.Mtime.Secs(), m.Dir.Mtime.Secs()
		if s := int64(mt) + ref.Epoch2000; s < from.Unix() || s > to.Unix() {
			return pbt.Errf("time of a stream is %d, made in [%d,%d]", s, from.Unix(), to.Unix())
		}
	}
	want := sum(cs, c.Content)
	if m.Header != h || m.Session != c.Session || !bytes.Equal(m.Checksum, want) {
		return pbt.Errf("header %#x session %d checksum %x, want %#x %d %x", m.Header, m.Session, m.Checksum, h, c.Session, want)
	}
	d := ref.NameD(m.Dir.Header, "descriptor")
	if !fits(size, d) {
		return pbt.Errf("a size of %d has descriptor %s", size, d)
	}
	x.Class("size in %s", d)
	dh := ref.SetD(ref.SetD(ref.SetD(0, "sod", "sod"), "property", prop), "descriptor", d)
	if m.Dir.Header != dh || m.Dir.Size != size || m.Dir.Path != name || m.Dir.Mtime.Secs() != mt || m.Dir.Ctime.Secs() != ct {
		return pbt.Errf("directory entry %#x size %d path %q mtime %d ctime %d, want %#x %d %q %d %d",
			m.Dir.Header, m.Dir.Size, m.Dir.Path, m.Dir.Mtime.Secs(), m.Dir.Ctime.Secs(), dh, size, name, mt, ct)
	}
	buf, err := m.Encode()
	if err != nil {
		return pbt.Errf("Encode: %v", err)
	}
	wire := ref.Metadata(h, c.Session, want, ref.Dirent(dh, size, uint32(mt), uint32(ct), name))
	if !bytes.Equal(buf, wire) {
		return pbt.Errf("encoded\n%x\nwant\n%x", buf, wire)
	}
	old := metadata.MetaData{Header: 0xffffffff, Session: 7, Checksum: []byte("old checksum")}
	old.Dir.Path = "old path"
	for _, r := range []*metadata.MetaData{new(metadata.MetaData), &old} {
		if err := r.Decode(wire); err != nil {
			return pbt.Errf("Decode of an encoded frame: %v", err)
		}
		if r.Header != h || r.Session != c.Session || !bytes.Equal(r.Checksum, want) || r.Dir.Header != dh || r.Dir.Size != size ||
			r.Dir.Path != name || r.Dir.Mtime.Secs() != mt || r.Dir.Ctime.Secs() != ct {
			return pbt.Errf("decoded %+v from %x", r, wire)
		}
		if again, err := r.Encode(); err != nil || !bytes.Equal(again, wire) {
			return pbt.Errf("frame received\n%x\nis sent on as\n%x %v", wire, again, err)
		}
	}
	return nil
}

func fits(v uint64, d string) bool {
	switch d {
	case "d16":
		return v <= 1<<16-1
	case "d32":
		return v >= 1<<16-1 && v <= 1<<32-1
	case "d64":
		return v >= 1<<32-1
	}
	return false
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C05", pbt.NewPart("file", 15000, 100000, genCase, run))
}
