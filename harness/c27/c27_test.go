// C27: the table of the transfers this node started.
package c27

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"pgregory.net/rapid"
)

var scr, drawn *gui.Screen

var peers = []string{"127.0.0.1", "127.0.0.2", "127.0.1.1", "::1", "127.0.0.11", "127.0.0.1"}

const aside = 5 // The peer at another port than that of Saratoga

func port(i int) int {
	if i == aside {
		return 7543
	}
	return 7542
}

var files = []string{"a", "b", "sub/a", "sub", "new1", "new2", "sub/new", "nodir/x", ".hidden", "a b", "A", "NEW1"}
var present = []string{"a", "b", "sub/a", "sub", ".hidden", "A"}

type op struct {
	Op    string // start, remove, rmtran, lookup, make, unlink
	Type  string `json:",omitempty"`
	Peer  int
	File  int
	Which int // A transfer, of those there were
	Wrong int // 1: another session, 2: another peer
}

type tcase struct{ Ops []op }

func genCase(t *rapid.T) tcase {
	var c tcase
	for i := rapid.IntRange(1, 14).Draw(t, "n"); i > 0; i-- {
		c.Ops = append(c.Ops, op{
			Op:    gen.Pick(t, "op", "start", "start", "start", "start", "cmd", "remove", "rmtran", "lookup", "lookup", "make", "unlink"),
			Type:  gen.Pick(t, "type", "get", "take", "put", "putblind", "give", "delete", "get", "put", "bad"),
			Peer:  rapid.IntRange(0, len(peers)-1).Draw(t, "peer"),
			File:  rapid.IntRange(0, len(files)-1).Draw(t, "file"),
			Which: rapid.IntRange(0, 9).Draw(t, "which"),
			Wrong: gen.Pick(t, "wrong", 0, 0, 0, 1, 2),
		})
	}
	return c
}

func addr(i int) *net.UDPAddr { return &net.UDPAddr{IP: net.ParseIP(peers[i]), Port: port(i)} }

// entry is what the model knows of a transfer.
type entry struct {
	typ, file, peer string
	session         uint32
}

func setup(name string) (string, error) {
	d, err := sar.Sardir(name)
	if err != nil {
		return "", err
	}
	os.MkdirAll(filepath.Join(d, "sub"), 0o755)
	for _, f := range present {
		if f != "sub" {
			if err := os.WriteFile(filepath.Join(d, f), []byte("content of "+f), 0o644); err != nil {
				return "", err
			}
		}
	}
	sarwin.Trmu.Lock()
	sarwin.Transfers = nil
	sarwin.Trmu.Unlock()
	return d, nil
}

func exists(d, f string) bool { _, err := os.Lstat(filepath.Join(d, f)); return err == nil }

// may the transfer be started, by the model?
func may(d string, table []entry, o op) error {
	f := files[o.File]
	for _, e := range table {
		if e.file == f && e.peer == addr(o.Peer).String() {
			return fmt.Errorf("%s is transferred with %s", f, e.peer)
		}
	}
	switch o.Type {
	case "get", "take":
		if exists(d, f) {
			return fmt.Errorf("%s is there", f)
		}
		if strings.HasPrefix(f, "nodir/") {
			return fmt.Errorf("no directory for %s", f)
		}
	case "put", "putblind", "give":
		if !exists(d, f) {
			return fmt.Errorf("%s is not there", f)
		}
	case "delete":
	default:
		return fmt.Errorf("unknown kind")
	}
	return nil
}

func tableIs(table []entry) error {
	sarwin.Trmu.Lock()
	defer sarwin.Trmu.Unlock()
	var got []entry
	for i := range sarwin.Transfers {
		t := &sarwin.Transfers[i]
		if t.Conn == nil || t.Conn.RemoteAddr().String() != t.Peer.String() {
			return pbt.Errf("transfer %d of %s is not connected to its peer", t.Session, t.Peer)
		}
		if t.Direction != sarwin.Initiator || t.Cliflags == nil {
			return pbt.Errf("transfer %d: not ours or without settings", t.Session)
		}
		got = append(got, entry{t.Ttype, t.Filename, t.Peer.String(), t.Session})
	}
	if len(got) != len(table) {
		return pbt.Errf("transfers:\n%+v\nshould be\n%+v", got, table)
	}
	for _, e := range table {
		if !slices.Contains(got, e) {
			return pbt.Errf("transfers:\n%+v\nshould be\n%+v", got, table)
		}
	}
	return nil
}

func run(x *pbt.Ctx, c tcase) error {
	d, err := setup("history")
	if err != nil {
		return err
	}
	var table, all []entry
	var conns []*net.UDPConn
	var fps []*os.File
	defer func() {
		for _, k := range conns {
			k.Close()
		}
		for _, f := range fps {
			f.Close()
		}
	}()
	seen := map[uint32]bool{}
	started, refused, removed := 0, 0, 0
	for n, o := range c.Ops {
		f := files[o.File]
		what := fmt.Sprintf("operation %d (%s %s %s %s)", n, o.Op, o.Type, peers[o.Peer], f)
		switch o.Op {
		case "make":
			p := filepath.Join(d, f)
			if _, err := os.Stat(filepath.Dir(p)); err == nil && !exists(d, f) {
				os.WriteFile(p, []byte("made"), 0o644)
			}
		case "unlink":
			if f != "sub" {
				os.Remove(filepath.Join(d, f))
			}
		case "start", "cmd":
			if o.Op == "cmd" && (o.Peer == aside || o.Type != "get" && o.Type != "take" || strings.Contains(f, " ")) {
				continue // The commands for the others wait for a transfer that nobody does yet
			}
			want := may(d, table, o)
			had := exists(d, f)
			var cont []byte
			if had && f != "sub" {
				cont, _ = os.ReadFile(filepath.Join(d, f))
			}
			var t *sarwin.Transfer
			sockets := sar.Sockets()
			if o.Op == "start" {
				t, err = sarwin.NewInitiator(scr.G, o.Type, addr(o.Peer), f, sarflags.Cliflag)
			} else {
				sarwin.Run(scr.G, o.Type+" "+peers[o.Peer]+" "+f)
				if !gui.Idle(20 * time.Second) {
					return pbt.Errf("%s does not end", what)
				}
				err = want
				sarwin.Trmu.Lock()
				if len(sarwin.Transfers) > len(table) {
					err = nil
					t = &sarwin.Transfers[len(sarwin.Transfers)-1]
				} else if want == nil {
					err = fmt.Errorf("no transfer was added")
				}
				sarwin.Trmu.Unlock()
			}
			if (err == nil) != (want == nil) {
				return pbt.Errf("%s: %v, should be %v", what, err, want)
			}
			if now := exists(d, f); now != had && !(err == nil && (o.Type == "get" || o.Type == "take")) {
				return pbt.Errf("%s (%v): the file was there %v and is now %v", what, err, had, now)
			}
			if had && f != "sub" {
				if now, _ := os.ReadFile(filepath.Join(d, f)); !bytes.Equal(now, cont) {
					return pbt.Errf("%s changed the file", what)
				}
			}
			if err != nil {
				refused++
				if n := sar.Sockets(); n > sockets {
					return pbt.Errf("%s is refused and leaves %d sockets open", what, n-sockets)
				}
				break
			}
			if t == nil {
				return pbt.Errf("%s: no transfer", what)
			}
			started++
			conns = append(conns, t.Conn)
			if t.Fp != nil {
				fps = append(fps, t.Fp)
			}
			if (o.Type != "delete") != (t.Fp != nil) {
				return pbt.Errf("%s: file open: %v", what, t.Fp != nil)
			}
			if seen[t.Session] {
				return pbt.Errf("%s: session %d again", what, t.Session)
			}
			seen[t.Session] = true
			e := entry{o.Type, f, addr(o.Peer).String(), t.Session}
			table, all = append(table, e), append(all, e)
		case "remove", "rmtran", "lookup":
			if len(all) == 0 {
				break
			}
			e := all[o.Which%len(all)]
			switch o.Wrong {
			case 1:
				e.session += 1000
			case 2:
				e.peer = "127.0.0.9:7542"
			}
			idx := slices.IndexFunc(table, func(m entry) bool { return m.session == e.session && m.peer == e.peer })
			switch o.Op {
			case "lookup":
				for i, t := range []*sarwin.Transfer{sarwin.Lookup(sarwin.Initiator, e.session, e.peer), sarwin.Match(e.peer, e.session)} {
					if (t != nil) != (idx >= 0) {
						return pbt.Errf("%s: %d: found %v, there %v", what, i, t != nil, idx >= 0)
					}
					if t != nil && (t.Session != e.session || t.Peer.String() != e.peer || t.Filename != table[idx].file || t.Ttype != table[idx].typ) {
						return pbt.Errf("%s: %d: found another: %+v", what, i, t)
					}
				}
				if sarwin.Lookup(sarwin.Responder, e.session, e.peer) != nil {
					return pbt.Errf("%s: found as a transfer of the peer", what)
				}
			case "remove":
				a, _ := net.ResolveUDPAddr("udp", e.peer)
				t := &sarwin.Transfer{Direction: sarwin.Initiator, Session: e.session, Peer: a}
				if err := t.Remove(); (err == nil) != (idx >= 0) {
					return pbt.Errf("%s: removed: %v, was there: %v", what, err, idx >= 0)
				}
			case "rmtran":
				sarwin.Run(scr.G, fmt.Sprintf("rmtran %s %s %d", e.typ, e.peer, e.session))
				if !gui.Idle(20 * time.Second) {
					return pbt.Errf("%s does not end", what)
				}
			}
			if o.Op != "lookup" && idx >= 0 {
				table = slices.Delete(table, idx, idx+1)
				removed++
			}
		}
		if err := tableIs(table); err != nil {
			return pbt.Errf("after %s: %v", what, err)
		}
	}
	x.Class("%d started", min(started, 4))
	x.Class("%d refused", min(refused, 4))
	x.Class("%d removed", min(removed, 4))
	x.NontrivialIf(started > 0 && (refused > 0 || removed > 0))
	return nil
}

// Several commands at once.
type onceCase struct {
	Before []op // Started before, one after the other
	Starts []op
	Rm     []int // Of those started before
	Show   int
}

func genOnce(t *rapid.T) onceCase {
	var c onceCase
	mk := func() op {
		return op{Type: gen.Pick(t, "type", "get", "put", "take", "give", "delete"), Peer: rapid.IntRange(0, 1).Draw(t, "peer"), File: gen.Pick(t, "file", 0, 4, 5, 6)}
	}
	for i := rapid.IntRange(0, 4).Draw(t, "before"); i > 0; i-- {
		c.Before = append(c.Before, mk())
	}
	for i := rapid.IntRange(1, 6).Draw(t, "starts"); i > 0; i-- {
		c.Starts = append(c.Starts, mk())
	}
	for i := range c.Before {
		if gen.Bool(t, "rm") {
			c.Rm = append(c.Rm, i)
		}
	}
	c.Show = rapid.IntRange(0, 2).Draw(t, "show")
	return c
}

func runOnce(x *pbt.Ctx, c onceCase) error {
	if _, err := setup("once"); err != nil {
		return err
	}
	var mu sync.Mutex
	var made []*sarwin.Transfer
	defer func() {
		for _, t := range made {
			t.Conn.Close()
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
	}()
	start := func(o op) {
		t, err := sarwin.NewInitiator(scr.G, o.Type, addr(o.Peer), files[o.File], sarflags.Cliflag)
		if err == nil {
			mu.Lock()
			made = append(made, t)
			mu.Unlock()
		}
	}
	before := map[int]*sarwin.Transfer{}
	for i, o := range c.Before {
		n := len(made)
		if start(o); len(made) > n {
			before[i] = made[n]
		}
	}
	gone := map[uint32]bool{}
	gate := make(chan bool)
	var wg sync.WaitGroup
	for _, i := range c.Rm {
		if t := before[i]; t != nil {
			gone[t.Session] = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				sarwin.Run(scr.G, fmt.Sprintf("rmtran %s %s %d", t.Ttype, t.Peer, t.Session))
			}()
		}
	}
	for _, o := range c.Starts {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; start(o) }()
	}
	for i := 0; i < c.Show; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; sarwin.Run(scr.G, "tran") }()
	}
	close(gate)
	wg.Wait()
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("the commands do not end")
	}
	sess := map[uint32]bool{}
	key := map[string]bool{}
	fname := map[string]bool{}
	var want []entry
	for _, t := range made {
		if sess[t.Session] {
			return pbt.Errf("two transfers have session %d", t.Session)
		}
		sess[t.Session] = true
		if t.Ttype == "get" || t.Ttype == "take" {
			if fname[t.Filename] {
				return pbt.Errf("two transfers receive %s", t.Filename)
			}
			fname[t.Filename] = true
		}
		if !gone[t.Session] {
			k := t.Filename + " " + t.Peer.String()
			if key[k] {
				return pbt.Errf("two transfers of %s", k)
			}
			key[k] = true
			want = append(want, entry{t.Ttype, t.Filename, t.Peer.String(), t.Session})
		}
	}
	x.Class("%d removed", len(gone))
	x.Nontrivial()
	return tableIs(want)
}

// What is learnt of a transfer stays with it.
type metaCase struct {
	N     int // Transfers there are
	Which int
	Metas []meta
}
type meta struct {
	Sum  string
	Csum []byte
	Size int
	Path string
}

func genMeta(t *rapid.T) metaCase {
	c := metaCase{N: rapid.IntRange(1, 5).Draw(t, "n")}
	c.Which = rapid.IntRange(0, c.N-1).Draw(t, "which")
	for i := rapid.IntRange(1, 4).Draw(t, "metas"); i > 0; i-- {
		m := meta{Sum: gen.Pick(t, "sum", "none", "crc32", "md5", "sha1"), Path: rapid.StringMatching(`[a-z]{1,10}`).Draw(t, "path")}
		l := map[string]int{"none": 0, "crc32": 4, "md5": 16, "sha1": 20}[m.Sum]
		m.Csum = rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "csum")
		m.Size = gen.Len(t, "size", 70000)
		if i > 1 && gen.Bool(t, "samesize") && len(c.Metas) > 0 {
			m.Size = c.Metas[0].Size
		}
		c.Metas = append(c.Metas, m)
	}
	return c
}

func runMeta(x *pbt.Ctx, c metaCase) error {
	if _, err := setup("meta"); err != nil {
		return err
	}
	var ts []*sarwin.Transfer
	defer func() {
		for _, t := range ts {
			t.Conn.Close()
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
	}()
	for i := 0; i < c.N; i++ {
		t, err := sarwin.NewInitiator(scr.G, "get", addr(i%len(peers)), fmt.Sprintf("f%d", i), sarflags.Cliflag)
		if err != nil {
			return err
		}
		ts = append(ts, t)
	}
	me := ts[c.Which]
	size := -1
	for i, m := range c.Metas {
		t := sarwin.Lookup(sarwin.Initiator, me.Session, me.Peer.String())
		if t == nil {
			return pbt.Errf("the transfer is gone")
		}
		h, err := sarflags.Set(0, "csumtype", m.Sum)
		if err != nil {
			return err
		}
		f := metadata.MetaData{Header: h, Session: me.Session, Checksum: append([]byte{}, m.Csum...), Dir: dirent.DirEnt{Size: uint64(m.Size), Path: m.Path}}
		err = t.Change(scr.G, f)
		if size <= 0 {
			size = m.Size // Until there is a size, any will do
		}
		if (err == nil) != (m.Size == size) {
			return pbt.Errf("metadata %d of size %d, was %d: %v", i, m.Size, size, err)
		}
		if err != nil {
			x.Class("size differs")
			continue
		}
		for j := range f.Checksum {
			f.Checksum[j] ^= 0xff // What the frame holds later is another matter
		}
		f.Dir.Path = "changed"
		u := sarwin.Match(me.Peer.String(), me.Session)
		if u == nil || !u.Havemeta || u.Csumtype != m.Sum || !bytes.Equal(u.Checksum, m.Csum) || u.Dir == nil || u.Dir.Size != uint64(m.Size) || u.Dir.Path != m.Path {
			return pbt.Errf("after metadata %d the transfer has %+v", i, u)
		}
		for _, o := range ts {
			if o == me {
				continue
			}
			if v := sarwin.Lookup(sarwin.Initiator, o.Session, o.Peer.String()); v == nil || v.Havemeta || v.Dir != nil || len(v.Checksum) > 0 {
				return pbt.Errf("metadata of transfer %d is in transfer %d", me.Session, o.Session)
			}
		}
	}
	x.NontrivialIf(c.N > 1)
	return nil
}

// The command that shows transfers shows those there are.
func runShow(x *pbt.Ctx, c tcase) error {
	d, err := setup("show")
	if err != nil {
		return err
	}
	var table []entry
	var ts []*sarwin.Transfer
	defer func() {
		for _, t := range ts {
			t.Conn.Close()
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
	}()
	for _, o := range c.Ops {
		if o.Op != "start" || may(d, table, o) != nil {
			continue
		}
		t, err := sarwin.NewInitiator(scr.G, o.Type, addr(o.Peer), files[o.File], sarflags.Cliflag)
		if err != nil {
			return err
		}
		ts = append(ts, t)
		table = append(table, entry{o.Type, files[o.File], t.Peer.String(), t.Session})
	}
	drawn.Wait()
	drawn.Clear()
	sarwin.Run(drawn.G, "tran")
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("tran does not end")
	}
	drawn.Wait()
	text := drawn.Text("msg")
	lines := 0
	for _, l := range strings.Split(text, "\n") {
		if strings.Contains(l, ":754") {
			lines++
		}
	}
	for _, e := range table {
		ok := false
		for _, l := range strings.Split(text, "\n") {
			ok = ok || strings.Contains(l, e.typ) && strings.Contains(l, e.peer) && strings.Contains(l, e.file)
		}
		if !ok {
			return pbt.Errf("%+v is not shown in\n%s", e, text)
		}
	}
	if lines != len(table) {
		return pbt.Errf("%d transfers, shown:\n%s", len(table), text)
	}
	x.NontrivialIf(len(table) > 0)
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	scr, drawn = gui.New(false), gui.New(true)
	pbt.Main(t, "C27",
		pbt.NewPart("history", 1200, 15000, genCase, run),
		pbt.NewPart("at once", 600, 10000, genOnce, runOnce),
		pbt.NewPart("metadata", 500, 8000, genMeta, runMeta),
		pbt.NewPart("show", 300, 4000, genCase, runShow),
	)
}
