// C16: no name a peer can send reaches anything outside the saratoga directory.
//
// The arena holds the saratoga directory at a/b/c/sar and things to steal around it. A name has
// at most four "..", so that whatever the code under test does with it stays in the arena; the
// driver runs this as an unprivileged user on top of that.
package c16

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
	"github.com/jroimartin/gocui"
	"pgregory.net/rapid"
)

type op struct {
	Kind string
	Type string
	Name pbt.B // ARENA stands for the full name of the arena
}

type theCase struct {
	Dir   string // How the saratoga directory is written in the configuration
	Empty bool   // Nothing is in it
	Ops []op
}

var words = []string{"", ".", "..", "..", "..", "in", "dir", "dir", "sar", "sar2", "secret", "secret", "empty", "new", "c", "b", "a", "nosuch", "...", ". .", "..in"}

func genName(t *rapid.T) pbt.B {
	var s string
	switch rapid.IntRange(0, 5).Draw(t, "name.kind") {
	case 0: // full names
		s = "ARENA/" + gen.Pick(t, "abs", "secret", "a/secret", "a/b/c/sar/in", "a/b/c/sar/new", "a/b/c/new", "a/b/c/sar2/in", "a/b/c/sar", "a/b/c/empty", "")
		if gen.Bool(t, "slashes") {
			s = gen.Pick(t, "lead", "/", "./", "//", "dir/../", "dir/") + s
		}
	case 1: // a way out after some way in
		n := rapid.IntRange(0, 3).Draw(t, "in")
		s = strings.Repeat("dir/", n) + strings.Repeat("../", rapid.IntRange(0, 4).Draw(t, "up")) + gen.Pick(t, "last", words...)
	case 2:
		s = gen.Pick(t, "plain", "in", "dir/in", "new", "dir/new", "./in", "dir/../in", "..in", "...", "in/", "dir/", "dir/.", "dir/..", ".", "", "/", "./.", "//", "///", "./", "dir/../", "dir/..//", "..", "../sar", "../sar/in", "../sar2/in", "../secret", "../empty", "../new")
	default:
		s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), 1, 7).Draw(t, "words"), "/")
	}
	if rapid.IntRange(0, 3).Draw(t, "long") == 0 && strings.Contains(s, "/") { // the same name, written longer
		long := strings.Repeat(gen.Pick(t, "filler", "./", "/", ".//"), gen.Len(t, "longer", 400))
		i := strings.LastIndex(s, "/")
		if gen.Bool(t, "first") {
			i = strings.Index(s, "/")
		}
		s = s[:i+1] + long + s[i+1:]
	}
	for strings.Count(s, "..") > 4 {
		s = strings.Replace(s, "..", "dir", 1)
	}
	return pbt.B(s)
}

func genCase(t *rapid.T) theCase {
	c := theCase{Dir: gen.Pick(t, "dir", "full", "full", "slash", "here", "updown"), Empty: rapid.IntRange(0, 4).Draw(t, "empty") == 0}
	for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
		o := op{Kind: gen.Pick(t, "kind", "exists", "open", "open", "rm", "rm", "meta", "sum", "metadata", "dirent", "request", "request"), Name: genName(t)}
		switch o.Kind {
		case "open":
			o.Type = gen.Pick(t, "type", "get", "take", "put", "putblind", "give", "delete", "getdir")
		case "request":
			o.Type = gen.Pick(t, "type", "get", "take", "put", "give", "delete", "delete", "getdir")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func write(name, content string) error {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		return err
	}
	return os.WriteFile(name, []byte(content), 0o644)
}

// snapshot is all there is in the arena outside of the saratoga directory.
func snapshot(arena, sardir string) (string, error) {
	var b strings.Builder
	err := filepath.WalkDir(arena, func(p string, e os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p == sardir {
			fmt.Fprintf(&b, "%s is there\n", p)
			return filepath.SkipDir
		}
		i, err := e.Info()
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%s %v", p, i.Mode())
		if i.Mode().IsRegular() {
			c, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, " %q %v", c, i.ModTime())
		}
		b.WriteString("\n")
		return nil
	})
	return b.String(), err
}

func run(x *pbt.Ctx, c theCase) error {
	arena := filepath.Join(pbt.Scratch, "arena")
	if err := os.RemoveAll(arena); err != nil {
		return err
	}
	sardir := arena + "/a/b/c/sar"
	for _, f := range []string{"secret", "a/secret", "a/b/secret", "a/b/c/secret", "a/b/c/sar2/in", "a/b/c/sar2/secret", "in", "a/in", "a/b/in", "a/b/c/in",
		"w/x/y/z/in", "w/x/y/secret", "w/x/secret", "w/secret", "w/in"} {
		if err := write(arena+"/"+f, "SECRET "+f); err != nil {
			return err
		}
	}
	for _, d := range []string{"/empty", "/a/empty", "/a/b/empty", "/a/b/c/empty", "/w/x/y/empty", "/a/b/c/dir"} {
		if err := os.Mkdir(arena+d, 0o755); err != nil {
			return err
		}
	}
	if c.Empty {
		if err := os.Mkdir(sardir, 0o755); err != nil {
			return err
		}
	} else {
		if err := write(sardir+"/in", "inside"); err != nil {
			return err
		}
		if err := write(sardir+"/dir/in", "inside dir"); err != nil {
			return err
		}
	}
	cwd := arena + "/w/x/y/z"
	switch c.Dir {
	case "full":
		sarflags.Cliflag.Sardir = sardir
	case "slash":
		sarflags.Cliflag.Sardir = sardir + "/"
	case "here":
		cwd = sardir
		sarflags.Cliflag.Sardir = "."
	case "updown":
		sarflags.Cliflag.Sardir = arena + "/a/b/../b/c/sar"
	}
	if err := os.Chdir(cwd); err != nil {
		return err
	}
	before, err := snapshot(arena, sardir)
	if err != nil {
		return err
	}
	for i, o := range c.Ops {
		name := strings.ReplaceAll(string(o.Name), "ARENA", arena)
		// Where the name leads, taken below the saratoga directory
		clean := filepath.Clean("./" + name)
		escapes := clean == ".." || strings.HasPrefix(clean, "../")
		what := fmt.Sprintf("op %d: %s %s %q", i, o.Kind, o.Type, name)
		if escapes {
			x.Nontrivial()
			x.Class("leads out: %s", strings.TrimSpace(o.Kind+" "+o.Type))
		} else {
			x.Class("inside")
		}
		var st os.FileInfo
		there := false
		if !escapes {
			st, err = os.Stat(sardir + "/" + name)
			there = err == nil
		}
		switch o.Kind {
		case "exists":
			if got := fileio.FileExists(name); got != there {
				return pbt.Errf("%s: %v, want %v", what, got, there)
			}
		case "open":
			fp, err := fileio.FileOpen(name, o.Type)
			if o.Type == "getdir" { // it may go to the new directory
				at, werr := os.Getwd()
				if werr != nil || at != cwd && !strings.HasPrefix(at, sardir+"/") {
					return pbt.Errf("%s: went to %s (%v)", what, at, werr)
				}
				if err := os.Chdir(cwd); err != nil {
					return err
				}
			}
			if fp == nil {
				if there && !escapes && err != nil && (o.Type == "put" || o.Type == "putblind" || o.Type == "give") {
					return pbt.Errf("%s: %v", what, err)
				}
				break
			}
			if err != nil {
				fp.Close()
				return pbt.Errf("%s: a file and %v", what, err)
			}
			b, _ := io.ReadAll(fp)
			at, lerr := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fp.Fd()))
			fp.Close()
			if escapes || bytes.HasPrefix(b, []byte("SECRET")) {
				return pbt.Errf("%s: opened, and gave %q", what, b)
			}
			if lerr == nil && at != sardir && !strings.HasPrefix(at, sardir+"/") {
				return pbt.Errf("%s: opened %s", what, at)
			}
		case "rm":
			err := fileio.FileRm(name)
			if err == nil && (escapes || !there) {
				return pbt.Errf("%s: no error", what)
			}
		case "meta":
			md, err := fileio.FileMeta(name)
			if (err == nil) != there {
				return pbt.Errf("%s: %v, there: %v", what, err, there)
			}
			if there && md.Size != st.Size() {
				return pbt.Errf("%s: size %d, want %d", what, md.Size, st.Size())
			}
		case "sum":
			sum, err := fileio.Checksum("md5", name)
			if err == nil && (!there || st.IsDir()) {
				return pbt.Errf("%s: %x", what, sum)
			}
		case "metadata":
			var m metadata.MetaData
			err := m.New("transfer=file,csumtype=none", &metadata.Minfo{Session: 1, Fname: name})
			if err == nil && !there {
				return pbt.Errf("%s: told %s", what, m.Print())
			}
		case "dirent":
			var d dirent.DirEnt
			err := d.New("property=normalfile,descriptor=d32", name)
			if err == nil && !there {
				return pbt.Errf("%s: told %s", what, d.Print())
			}
		case "request":
			code, err := ask(name, o.Type)
			if err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			_, left := os.Stat(sardir + "/" + name)
			want := "success"
			switch {
			case o.Type == "delete" && !there, o.Type == "get" && !there, o.Type == "take" && !there, o.Type == "getdir" && !there:
				want = "filenotfound"
			case o.Type == "delete" && clean != "." && left != nil:
			case o.Type == "delete":
				want = "didnotdelete"
			case there && (o.Type == "put" || o.Type == "give"):
				want = "fileinuse"
			}
			if escapes && (o.Type == "put" || o.Type == "give") {
				break // nothing is there to be found: what is answered is not judged, what is done is
			}
			if code != want {
				return pbt.Errf("%s: answered %s, want %s", what, code, want)
			}
		}
		after, err := snapshot(arena, sardir)
		if err != nil {
			return err
		}
		if after != before {
			return pbt.Errf("%s: changed what is outside of the saratoga directory:\n%s", what, diff(before, after))
		}
		if fi, err := os.Stat(sardir); err != nil || !fi.IsDir() {
			return pbt.Errf("%s: the saratoga directory is gone", what)
		}
	}
	return nil
}

func diff(a, b string) string {
	var r []string
	for _, l := range strings.Split(a, "\n") {
		if !strings.Contains(b, l+"\n") {
			r = append(r, "-"+l)
		}
	}
	for _, l := range strings.Split(b, "\n") {
		if !strings.Contains(a, l+"\n") {
			r = append(r, "+"+l)
		}
	}
	return strings.Join(r, "\n")
}

// ask sends the request of a peer in and gives the error code answered.
func ask(name, reqtype string) (string, error) {
	h := ref.Set(ref.Set(ref.Set(ref.Head("request"), "reqtype", reqtype), "rxwilling", "yes"), "txwilling", "yes")
	trans.Transfers = nil
	tx := make(chan interface{}, 10)
	trans.AddRxTran(&gocui.Gui{}, &request.Request{Header: h, Session: 7, Fname: name}, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}, tx)
	for _, tr := range trans.Transfers {
		if tr.Fp != nil {
			tr.Fp.Close()
		}
	}
	if len(tx) != 1 {
		return "", pbt.Errf("%d answers", len(tx))
	}
	p, ok := (<-tx).(status.Packet)
	if !ok {
		return "", pbt.Errf("the answer is no status")
	}
	return ref.Name(p.Info.Header, "errcode"), nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C16", pbt.NewPart("names", 2500, 60000, genCase, run))
}
