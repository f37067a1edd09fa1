// C36: what is said of files and file systems is what the system says of them.
package c36

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/sarsys"
	"pgregory.net/rapid"
)

type tcase struct {
	Kind     string // file, dir, pipe, socket, link
	To       string `json:",omitempty"` // What a link leads to
	Name     string
	Size     int64
	Mode     uint32
	Sec      int64
	Nsec     int64
	Asec     int64
	Uid, Gid int
}

func genCase(t *rapid.T) tcase {
	c := tcase{
		Kind: gen.Pick(t, "kind", "file", "file", "file", "dir", "pipe", "link", "link", "socket"),
		To:   gen.Pick(t, "to", "file", "dir", "nothing", "pipe", "/", "../up"),
		Name: gen.Pick(t, "name", "a", "b.txt", "sub/c", "sub/deep/d", ".hidden", "with blanks", "é", "./a", "sub//x", "sub/../y"),
		Size: gen.Pick(t, "size", 0, 1, 511, 4096, rapid.Int64Range(0, 1<<20).Draw(t, "small"), 1<<31, 1<<32+5, rapid.Int64Range(0, 1<<40).Draw(t, "large")),
		Mode: uint32(rapid.IntRange(0, 0o777).Draw(t, "mode")),
		Sec:  gen.Pick(t, "sec", 0, 1, 1<<31-1, 1<<31, 1<<32+1, rapid.Int64Range(0, 1<<33).Draw(t, "s")),
		Nsec: gen.Pick(t, "nsec", 0, 1, 999999999, rapid.Int64Range(0, 999999999).Draw(t, "ns")),
		Asec: rapid.Int64Range(0, 1<<32).Draw(t, "asec"),
		Uid:  gen.Pick(t, "uid", 0, 1, 1000, 65534, rapid.IntRange(0, 1<<31-2).Draw(t, "u")),
		Gid:  gen.Pick(t, "gid", 0, 2, 100, 65533, rapid.IntRange(0, 1<<31-2).Draw(t, "g")),
	}
	return c
}

func run(x *pbt.Ctx, c tcase) error {
	d, err := sar.Sardir("files")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(d, "sub/deep"), 0o755)
	p := filepath.Join(d, c.Name)
	to := ""
	switch c.Kind {
	case "file":
		if err = os.WriteFile(p, nil, 0o600); err == nil {
			if os.Truncate(p, c.Size) != nil {
				x.Class("too large")
				return nil
			}
		}
	case "dir":
		err = os.Mkdir(p, 0o700)
	case "pipe":
		err = syscall.Mkfifo(p, 0o600)
	case "socket":
		err = syscall.Mknod(p, syscall.S_IFSOCK|0o600, 0)
	case "link":
		to = c.To
		switch c.To {
		case "file":
			err = os.WriteFile(filepath.Join(filepath.Dir(p), to), []byte("content"), 0o644)
		case "dir":
			err = os.Mkdir(filepath.Join(filepath.Dir(p), to), 0o755)
		case "pipe":
			err = syscall.Mkfifo(filepath.Join(filepath.Dir(p), to), 0o644)
		}
		if err == nil {
			err = os.Symlink(to, p)
		}
	}
	if err != nil {
		return err
	}
	uid, gid := c.Uid, c.Gid
	if err := os.Lchown(p, uid, gid); err != nil {
		uid, gid = os.Getuid(), os.Getgid()
		x.Class("own")
	}
	if c.Kind != "link" {
		if err := os.Chmod(p, os.FileMode(c.Mode)); err != nil {
			return err
		}
		ts := []syscall.Timespec{{Sec: c.Asec}, {Sec: c.Sec, Nsec: c.Nsec}}
		if err := syscall.UtimesNano(p, ts); err != nil {
			return err
		}
	}
	var st syscall.Stat_t
	if err := syscall.Lstat(p, &st); err != nil {
		return err
	}
	if c.Kind != "link" && (st.Mtim.Sec != c.Sec || st.Mtim.Nsec != c.Nsec || st.Atim.Sec != c.Asec) {
		x.Class("a file system with other times")
		return nil
	}
	fm, err := fileio.FileMeta(c.Name)
	if err != nil {
		return pbt.Errf("%s: %v", c.Name, err)
	}
	eq := func(what string, got, want any) {
		if err == nil && got != want {
			err = pbt.Errf("%s of %s (%s): %v, should be %v", what, c.Name, c.Kind, got, want)
		}
	}
	mtime := time.Unix(st.Mtim.Sec, st.Mtim.Nsec)
	eq("the name", fm.Path, filepath.Base(p))
	eq("the origin", fm.Origin, to)
	eq("the size", fm.Size, st.Size)
	if c.Kind == "file" {
		eq("the size", fm.Size, c.Size)
	}
	eq("the modification time", fm.ModTime.Equal(mtime), true)
	eq("being regular", fm.IsRegular, c.Kind == "file")
	eq("being a pipe", fm.IsNamedPipe, c.Kind == "pipe")
	eq("being a link", fm.IsSymLink, c.Kind == "link")
	isdir := c.Kind == "dir"
	if c.Kind == "link" {
		if ti, err := os.Stat(p); err == nil {
			isdir = ti.IsDir()
		}
	} else {
		eq("the permissions", uint32(fm.Mode.Perm()), c.Mode)
	}
	eq("being a directory", fm.IsDir, isdir)
	eq("the owner", fmt.Sprint(fm.Uid, fm.Gid), fmt.Sprint(uid, gid))
	eq("the owner", fmt.Sprint(fm.Uid, fm.Gid), fmt.Sprint(st.Uid, st.Gid))
	fi, e := os.Lstat(p)
	if e != nil {
		return e
	}
	if err := syscall.Lstat(p, &st); err != nil { // Reading a link changed its access time
		return err
	}
	var ft sarsys.FileTime
	ft.NewTime(fi)
	eq("the modification time", ft.Mtime.Equal(mtime), true)
	eq("the access time", ft.Atime.Equal(time.Unix(st.Atim.Sec, st.Atim.Nsec)), true)
	eq("the change time", ft.Ctime.Equal(time.Unix(st.Ctim.Sec, st.Ctim.Nsec)), true)
	u, g := sarsys.GetOwnerAndGroup(fi)
	eq("the owner", fmt.Sprint(u, g), fmt.Sprint(uid, gid))
	x.Class("%s", c.Kind)
	x.Nontrivial()
	return err
}

type diskCase struct {
	Path  string
	Write int // Bytes written before
}

func genDisk(t *rapid.T) diskCase {
	return diskCase{gen.Pick(t, "path", ".", "/", "/tmp", "/dev/shm", "/proc", "/dev", "/usr"), rapid.IntRange(0, 1<<20).Draw(t, "write")}
}

func runDisk(x *pbt.Ctx, c diskCase) error {
	d, err := sar.Sardir("disk")
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(d, "f"), make([]byte, c.Write), 0o644); err != nil {
		return err
	}
	var last error
	times := 0
	for try := 0; try < 50; try++ {
		var a, b syscall.Statfs_t
		if err := syscall.Statfs(c.Path, &a); err != nil {
			x.Class("not there")
			return nil
		}
		u := sarsys.NewDiskUsage(c.Path)
		got := []uint64{u.Size(), u.Free(), u.Available(), u.Used()}
		usage := u.Usage()
		if err := syscall.Statfs(c.Path, &b); err != nil {
			return err
		}
		if a.Blocks != b.Blocks || a.Bfree != b.Bfree || a.Bavail != b.Bavail {
			continue // Others write, too
		}
		if a.Frsize != 0 && a.Frsize != a.Bsize {
			x.Class("two sizes of blocks")
			return nil
		}
		var wrong error
		n := uint64(a.Bsize)
		want := []uint64{a.Blocks * n, a.Bfree * n, a.Bavail * n, (a.Blocks - a.Bfree) * n}
		for i, w := range []string{"size", "free space", "available space", "used space"} {
			if got[i] != want[i] {
				wrong = pbt.Errf("the %s of %s: %d, should be %d", w, c.Path, got[i], want[i])
			}
		}
		if a.Blocks > 0 {
			if f := float64(a.Blocks-a.Bfree) / float64(a.Blocks); math.Abs(float64(usage)-f) > 1e-3 {
				wrong = pbt.Errf("the usage of %s: %v, should be %v", c.Path, usage, f)
			}
			x.Nontrivial()
		}
		if wrong != nil {
			last = wrong
			times++
			continue // Others may have written just between and taken it back
		}
		x.Class("%s", c.Path)
		return nil
	}
	x.Class("never at rest")
	if times < 10 {
		return nil
	}
	return last
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C36",
		pbt.NewPart("files", 3000, 60000, genCase, run),
		pbt.NewPart("disks", 500, 5000, genDisk, runDisk),
	)
}
