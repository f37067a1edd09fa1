// C15: receiving never touches a file that is there; sending never changes one.
package c15

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/fileio"
	"pgregory.net/rapid"
)

type op struct {
	Kind string
	Name string
	Type string
	Data []byte
}

type histCase struct{ Ops []op }

var names = []string{"a", "b", "d/a", "d/b", "d", "./a", "d/../a", "no/such", "p", "l", "a b", "é"}

func genHist(t *rapid.T) histCase {
	var c histCase
	for i := rapid.IntRange(1, 15).Draw(t, "n"); i > 0; i-- {
		o := op{Kind: gen.Pick(t, "kind", "open", "open", "open", "open", "exists", "rm", "delete", "close", "write", "file", "mkdir", "fifo", "link", "meta")}
		o.Name = gen.Pick(t, "name", names...)
		switch o.Kind {
		case "open":
			o.Type = gen.Pick(t, "type", "get", "take", "get", "take", "put", "putblind", "give", "getdir", "delete", "", "GET", "getfile")
		case "write", "file":
			o.Data = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "data")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// node is a file of the model.
type node struct {
	kind string // file, dir, fifo, link
	data string
}

type handle struct {
	fp  *os.File
	nm  string
	n   *node
	ro  bool
	pos int
}

func run(x *pbt.Ctx, c histCase) error {
	d, err := sar.Sardir("c15")
	if err != nil {
		return err
	}
	m := map[string]*node{".": {kind: "dir"}}
	var open []*handle
	defer func() {
		for _, h := range open {
			h.fp.Close()
		}
	}()
	parentok := func(nm string) bool { p := m[filepath.Dir(nm)]; return p != nil && p.kind == "dir" }
	for i, o := range c.Ops {
		nm := filepath.Clean(o.Name)
		n := m[nm]
		full := filepath.Join(d, o.Name)
		// "d/../a" leads to a only if d is there
		reach := o.Name != "d/../a" || (m["d"] != nil && m["d"].kind == "dir")
		switch o.Kind {
		case "file", "mkdir", "fifo", "link": // somebody else works in the directory
			if n != nil || !parentok(nm) {
				continue
			}
			full = filepath.Join(d, nm)
			switch o.Kind {
			case "file":
				err = os.WriteFile(full, o.Data, 0o644)
				m[nm] = &node{kind: "file", data: string(o.Data)}
			case "mkdir":
				err = os.Mkdir(full, 0o755)
				m[nm] = &node{kind: "dir"}
			case "fifo":
				err = syscall.Mkfifo(full, 0o644)
				m[nm] = &node{kind: "fifo"}
			case "link": // to nothing
				err = os.Symlink(filepath.Join(d, "nothing"), full)
				m[nm] = &node{kind: "link"}
			}
			if err != nil {
				return err
			}
		case "exists":
			want := reach && n != nil && (n.kind == "file" || n.kind == "dir")
			if got := fileio.FileExists(o.Name); got != want {
				return pbt.Errf("op %d: %s exists: %v, want %v", i, o.Name, got, want)
			}
		case "meta":
			if !reach {
				continue
			}
			md, err := fileio.FileMeta(o.Name)
			if (err == nil) != (n != nil) {
				return pbt.Errf("op %d: information about %s: %v, there: %v", i, o.Name, err, n != nil)
			}
			if err != nil {
				continue
			}
			if md.IsRegular != (n.kind == "file") || md.IsDir != (n.kind == "dir") || md.IsNamedPipe != (n.kind == "fifo") || md.IsSymLink != (n.kind == "link") {
				return pbt.Errf("op %d: %s is a %s, said to be %+v", i, o.Name, n.kind, md)
			}
			if n.kind == "file" && md.Size != int64(len(n.data)) {
				return pbt.Errf("op %d: %s has %d bytes, said to have %d", i, o.Name, len(n.data), md.Size)
			}
		case "open":
			fp, err := fileio.FileOpen(o.Name, o.Type)
			what := fmt.Sprintf("op %d: open %s to %s (there: %v)", i, o.Name, o.Type, n != nil)
			if n != nil {
				x.Class("open %s on %s", o.Type, n.kind)
			} else {
				x.Class("open %s on nothing", o.Type)
			}
			switch o.Type {
			case "get", "take":
				ok := n == nil && parentok(nm) && reach
				if (err == nil && fp != nil) != ok || (fp != nil && err != nil) {
					if fp != nil {
						fp.Close()
					}
					return pbt.Errf("%s: %v %v, want success: %v", what, fp, err, ok)
				}
				if ok {
					m[nm] = &node{kind: "file"}
					open = append(open, &handle{fp: fp, nm: nm, n: m[nm]})
				} else {
					x.NontrivialIf(n != nil)
				}
			case "put", "putblind", "give":
				ok := n != nil && reach && (n.kind == "file" || n.kind == "dir")
				if (err == nil && fp != nil) != ok || (fp != nil && err != nil) {
					return pbt.Errf("%s: %v %v, want success: %v", what, fp, err, ok)
				}
				if !ok {
					break
				}
				if n.kind == "dir" {
					fp.Close()
					break
				}
				x.Nontrivial()
				if got, err := io.ReadAll(fp); err != nil || string(got) != n.data {
					fp.Close()
					return pbt.Errf("%s: reads %q, %v; want %q", what, got, err, n.data)
				}
				open = append(open, &handle{fp: fp, nm: nm, n: n, ro: true})
			case "getdir":
				ok := n == nil && parentok(nm) && reach
				if fp != nil || (err == nil) != ok {
					return pbt.Errf("%s: %v %v, want success: %v", what, fp, err, ok)
				}
				x.NontrivialIf(n != nil)
				if ok {
					m[nm] = &node{kind: "dir"}
					if st, err := os.Stat(full); err == nil && st.Mode().Perm()&0o700 != 0o700 {
						return pbt.Errf("%s: made a directory with mode %v", what, st.Mode())
					}
				}
			case "delete":
				if fp != nil || err != nil {
					return pbt.Errf("%s: %v %v", what, fp, err)
				}
			default:
				if fp != nil || err == nil {
					return pbt.Errf("%s: no error for an unknown type", what)
				}
			}
		case "write":
			if len(open) == 0 {
				continue
			}
			h := open[len(open)-1]
			_, err := fileio.FileWrite(h.fp, uint64(h.pos), o.Data)
			if h.ro {
				if err == nil && len(o.Data) > 0 {
					return pbt.Errf("op %d: wrote to %s, which is being sent", i, h.nm)
				}
				continue
			}
			if err != nil {
				return pbt.Errf("op %d: write: %v", i, err)
			}
			h.n.data += string(o.Data)
			h.pos += len(o.Data)
		case "close", "delete":
			if len(open) == 0 {
				if o.Kind == "delete" {
					if err := fileio.FileDelete(nil); err == nil {
						return pbt.Errf("op %d: deleted no file", i)
					}
				}
				continue
			}
			h := open[len(open)-1]
			open = open[:len(open)-1]
			if o.Kind == "close" {
				if err := fileio.FileClose(h.fp); err != nil {
					return pbt.Errf("op %d: close: %v", i, err)
				}
				continue
			}
			// The file that was open goes, if it is still there under its name
			there := m[h.nm]
			if there != nil && there.kind == "dir" {
				h.fp.Close()
				continue
			}
			err := fileio.FileDelete(h.fp)
			if (err == nil) != (there != nil) {
				return pbt.Errf("op %d: delete %s: %v, there: %v", i, h.nm, err, there != nil)
			}
			x.Class("delete open file")
			delete(m, h.nm)
		case "rm":
			err := fileio.FileRm(o.Name)
			ok := n != nil && reach
			if ok && n.kind == "dir" {
				for k := range m {
					if filepath.Dir(k) == nm && k != "." {
						ok = false // not empty
					}
				}
			}
			if (err == nil) != ok {
				return pbt.Errf("op %d: rm %s: %v, want success: %v", i, o.Name, err, ok)
			}
			if ok {
				x.Class("rm %s", n.kind)
				x.Nontrivial()
				delete(m, nm)
			}
		}
		if err := compare(d, m); err != nil {
			return pbt.Errf("op %d (%s %s %s): %v", i, o.Kind, o.Name, o.Type, err)
		}
	}
	return nil
}

// compare the directory with the model, all of it.
func compare(d string, m map[string]*node) error {
	seen := 0
	err := filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(d, p)
		n := m[rel]
		if n == nil {
			return pbt.Errf("%s appeared", rel)
		}
		seen++
		kind := "file"
		switch {
		case e.IsDir():
			kind = "dir"
		case e.Type()&os.ModeNamedPipe != 0:
			kind = "fifo"
		case e.Type()&os.ModeSymlink != 0:
			kind = "link"
		}
		if kind != n.kind {
			return pbt.Errf("%s became a %s", rel, kind)
		}
		if kind == "file" {
			b, err := os.ReadFile(p)
			if err != nil || string(b) != n.data {
				return pbt.Errf("%s has %q (%v), want %q", rel, b, err, n.data)
			}
		}
		return nil
	})
	if err == nil && seen != len(m) {
		err = pbt.Errf("something disappeared")
	}
	return err
}

// Several transfers of the same file at once

type raceCase struct {
	Types []string
	There bool
}

func genRace(t *rapid.T) raceCase {
	return raceCase{rapid.SliceOfN(rapid.SampledFrom([]string{"get", "take", "get", "take", "getdir"}), 2, 8).Draw(t, "types"), rapid.IntRange(0, 4).Draw(t, "there") == 0}
}

func runRace(x *pbt.Ctx, c raceCase) error {
	d, err := sar.Sardir("c15r")
	if err != nil {
		return err
	}
	want := 1
	if c.There {
		want = 0
		if err := os.WriteFile(d+"/f", []byte("there"), 0o644); err != nil {
			return err
		}
	}
	x.Class("there=%v", c.There)
	x.Nontrivial()
	var wg sync.WaitGroup
	start := make(chan bool)
	fps := make([]*os.File, len(c.Types))
	got := make([]bool, len(c.Types))
	for i, ty := range c.Types {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if fp, err := fileio.FileOpen("f", ty); err == nil {
				fps[i], got[i] = fp, true
			}
		}()
	}
	close(start)
	wg.Wait()
	won := 0
	for i, fp := range fps {
		if fp != nil {
			fp.Close()
		}
		if got[i] {
			won++
		}
	}
	if won != want {
		return pbt.Errf("%d of %d transfers at once got the name, want %d", won, len(c.Types), want)
	}
	if c.There {
		if b, err := os.ReadFile(d + "/f"); err != nil || string(b) != "there" {
			return pbt.Errf("the file that was there has %q, %v", b, err)
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C15",
		pbt.NewPart("history", 6000, 80000, genHist, run),
		pbt.NewPart("together", 4000, 50000, genRace, runRace))
}
