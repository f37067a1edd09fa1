// C25: nothing that is typed stops the node, and it says what it knows of its peers.
package c25

import (
	"fmt"
	"maps"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"pgregory.net/rapid"
)

var silent, drawn *gui.Screen
var shipped *sarflags.Cliflags

// Commands, and the most words each may get here: names in place of addresses would be looked up
// in the network.
var most = map[string]int{"put": 1, "putblind": 1, "give": 1, "delete": 1, "getdir": 1, "beacon": 1}

func commands() []string {
	var c []string
	for k := range sarflags.Commands {
		if k != "exit" && k != "quit" {
			c = append(c, k)
		}
	}
	slices.Sort(c)
	return c
}

func word(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "wk") {
	case 0:
		return gen.Pick(t, "odd", "?", "??", "-1", "0", "18446744073709551616", "%s", "%d%n", "%!", "\x00", "\u00e9", "\xff\xfe", "[", "\x1b[2J", "=", ",", "off", "..", "/")
	case 1:
		return gen.Pick(t, "cmdw", append(commands(), "metadata", "request", "status", "transfer", "datacounter", "msg", "err", "packet", "cmd")...)
	case 2:
		return rapid.StringMatching(`[0-9]{1,22}`).Draw(t, "num")
	case 3:
		return strings.Repeat(gen.Pick(t, "rep", "a", "9", "?", "%"), rapid.IntRange(1, 3000).Draw(t, "len"))
	case 4:
		s := strings.Join(strings.Fields(string(gen.Name(t, "any", 20))), "")
		return strings.NewReplacer(".", "", ":", "").Replace(s) + "x"
	}
	return rapid.StringMatching(`[a-z0-9_?]{1,8}`).Draw(t, "w")
}

type tcase struct{ Lines []pbt.B }

func genLines(t *rapid.T) tcase {
	var c tcase
	for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
		l := gen.Pick(t, "cmd", commands()...)
		if rapid.IntRange(0, 6).Draw(t, "nocmd") == 0 {
			l = word(t)
		}
		m := 5
		if v, ok := most[l]; ok {
			m = v
		}
		for j := rapid.IntRange(0, m).Draw(t, "words"); j > 0; j-- {
			w := word(t)
			if l == "beacon" && (w == "v4" || w == "v6") {
				w = "off"
			}
			l += gen.Pick(t, "sep", " ", " ", "  ", "\t", "\u00a0", "\n") + w
		}
		f := strings.Fields(l)
		if len(f) > 0 && (f[0] == "exit" || f[0] == "quit" || len(f)-1 > 1 && most[f[0]] == 1) {
			continue
		}
		c.Lines = append(c.Lines, pbt.B(l))
	}
	return c
}

func runLines(x *pbt.Ctx, c tcase) error {
	s := *shipped
	s.Global = maps.Clone(shipped.Global)
	sarflags.Climu.Lock()
	sarflags.Cliflag = &s
	sarflags.Climu.Unlock()
	for _, l := range c.Lines {
		f := strings.Fields(string(l))
		known := len(f) == 0
		if len(f) > 0 {
			_, known = sarflags.Commands[f[0]]
		}
		ok := sarwin.Run(silent.G, string(l))
		if !gui.Idle(20 * time.Second) {
			return pbt.Errf("%q does not end", l)
		}
		if ok != known {
			return pbt.Errf("%q is taken as a command: %v", l, ok)
		}
		if known {
			x.Class("known")
			x.NontrivialIf(len(f) > 1)
		} else {
			x.Class("unknown")
		}
	}
	return nil
}

// Peers: beacons, and what the command shows of them.
type bcn struct {
	Addr   int
	Eid    string
	Free   uint64
	Rx, Tx string
	Desc   string
}

type peersCase struct{ Beacons []bcn }

var addrs = []string{"127.0.0.1", "10.1.2.3", "192.168.100.200", "::1", "2001:db8::1:2", "fe80::1"}

func genPeers(t *rapid.T) peersCase {
	var c peersCase
	for i := rapid.IntRange(0, 9).Draw(t, "n"); i > 0; i-- {
		c.Beacons = append(c.Beacons, bcn{
			Addr: rapid.IntRange(0, len(addrs)-1).Draw(t, "addr"),
			Eid:  rapid.StringMatching(`[A-Za-z0-9.:%-]{0,24}`).Draw(t, "eid"),
			Free: gen.U64(t, "free", 1<<62),
			Rx:   gen.Pick(t, "rx", "yes", "no", "capable"),
			Tx:   gen.Pick(t, "tx", "yes", "no", "capable"),
			Desc: gen.Pick(t, "desc", "d16", "d32", "d64"),
		})
	}
	return c
}

func mk(b bcn) (*beacon.Beacon, error) {
	r := new(beacon.Beacon)
	err := r.New(fmt.Sprintf("descriptor=%s,txwilling=%s,rxwilling=%s,freespace=yes,stream=no", b.Desc, b.Tx, b.Rx), &beacon.Binfo{Freespace: b.Free, Eid: b.Eid})
	return r, err
}

func ask() (string, error) {
	drawn.Wait()
	drawn.Clear()
	sarwin.Run(drawn.G, "peers")
	if !gui.Idle(20 * time.Second) {
		return "", pbt.Errf("peers does not end")
	}
	drawn.Wait()
	return drawn.Text("msg"), nil
}

func runPeers(x *pbt.Ctx, c peersCase) error {
	beacon.Peers = nil
	last := map[string]bcn{}
	for _, b := range c.Beacons {
		if b.Free == 0 {
			b.Free = 1 // Zero asks the file system
		}
		r, err := mk(b)
		if err != nil {
			return err
		}
		beacon.NewPeer(r, &net.UDPAddr{IP: net.ParseIP(addrs[b.Addr]), Port: 7542})
		last[addrs[b.Addr]] = b
	}
	text, err := ask()
	if err != nil {
		return err
	}
	lines := strings.Split(text, "\n")
	split := func(l string) []string {
		cells := strings.Split(l, "|")
		for i := range cells {
			cells[i] = strings.TrimSpace(cells[i])
		}
		return cells
	}
	// Under which heading what is to be found, as far as there are headings
	head := map[string]int{}
	for _, l := range lines {
		if c := split(l); slices.Contains(c, "IP") && slices.Contains(c, "Rx") && slices.Contains(c, "Tx") {
			for i, h := range c {
				head[h] = i
			}
			break
		}
	}
	times := map[string][2]string{}
	for _, p := range beacon.Peers {
		times[p.Addr] = [2]string{p.Created.Print(), p.Updated.Print()}
	}
	for a, b := range last {
		n := 0
		for _, l := range lines {
			cells := split(l)
			if !slices.Contains(cells, a) {
				continue
			}
			n++
			for _, w := range []string{b.Eid, b.Rx, b.Tx, b.Desc, fmt.Sprint(b.Free / 1024 / 1024)} {
				if !slices.Contains(cells, w) {
					return pbt.Errf("peer %s is shown as %q, without %q", a, l, w)
				}
			}
			for h, w := range map[string]string{"IP": a, "EID": b.Eid, "Rx": b.Rx, "Tx": b.Tx, "Des": b.Desc, "GB": fmt.Sprint(b.Free / 1024 / 1024),
				"Created": times[a][0], "Modified": times[a][1]} {
				if i, ok := head[h]; ok && (i >= len(cells) || cells[i] != w) {
					return pbt.Errf("peer %s is shown as %q, under %s should be %q", a, l, h, w)
				}
			}
		}
		if n != 1 {
			return pbt.Errf("peer %s is shown %d times in\n%s", a, n, text)
		}
	}
	for _, l := range lines {
		for _, w := range strings.FieldsFunc(l, func(r rune) bool { return r == '|' }) {
			w = strings.TrimSpace(w)
			if _, ok := last[w]; !ok && slices.Contains(addrs, w) {
				return pbt.Errf("%s was never heard of and is shown:\n%s", w, text)
			}
		}
	}
	x.NontrivialIf(len(last) > 1)
	x.Class("%d peers", len(last))
	return nil
}

// Lines that start transfers come to an end, too, and do no harm to the files.
type startLine struct{ Cmd, Addr, File string }
type startCase struct{ Lines []startLine }

var there = []string{"here", "also", "dir"}

func genStart(t *rapid.T) startCase {
	var c startCase
	for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
		c.Lines = append(c.Lines, startLine{
			gen.Pick(t, "cmd", "put", "put", "putblind", "give", "delete", "get", "take"),
			gen.Pick(t, "addr", "127.0.0.1", "127.0.0.2", "::1"),
			gen.Pick(t, "file", append(there, "missing", "new", "../up", "%d")...)})
	}
	return c
}

func runStart(x *pbt.Ctx, c startCase) error {
	s := *shipped
	s.Global = maps.Clone(shipped.Global)
	sarflags.Climu.Lock()
	sarflags.Cliflag = &s
	sarflags.Climu.Unlock()
	dir, err := sar.Sardir("start/in")
	if err != nil {
		return err
	}
	os.Remove(filepath.Join(filepath.Dir(dir), "up"))
	for _, f := range there[:2] {
		if err := os.WriteFile(filepath.Join(dir, f), []byte("content of "+f), 0o600); err != nil {
			return err
		}
	}
	if err := os.Mkdir(filepath.Join(dir, there[2]), 0o700); err != nil {
		return err
	}
	sarwin.Trmu.Lock()
	sarwin.Transfers = nil
	sarwin.Trmu.Unlock()
	for _, l := range c.Lines {
		line := l.Cmd + " " + l.Addr + " " + l.File
		if !sarwin.Run(silent.G, line) {
			return pbt.Errf("%q is no command", line)
		}
		if !gui.Idle(20 * time.Second) {
			return pbt.Errf("%q does not end", line)
		}
		x.Class("%s", l.Cmd)
		sarwin.Trmu.Lock()
		for _, t := range sarwin.Transfers {
			if l.Cmd != "get" && l.Cmd != "take" && t.Ttype == l.Cmd {
				err = pbt.Errf("%q has ended, and is among the transfers: %s", line, t.Print())
			}
		}
		sarwin.Trmu.Unlock()
		if err != nil {
			return err
		}
		for _, f := range there[:2] {
			if b, err := os.ReadFile(filepath.Join(dir, f)); err != nil || string(b) != "content of "+f {
				return pbt.Errf("after %q the file %s is %q, %v", line, f, b, err)
			}
		}
	}
	x.NontrivialIf(len(c.Lines) > 1)
	return nil
}

func TestProp(t *testing.T) {
	shipped = sar.Load(t)
	silent, drawn = gui.New(false), gui.New(true)
	pbt.Main(t, "C25",
		pbt.NewPart("lines", 2500, 30000, genLines, runLines),
		pbt.NewPart("peers", 800, 10000, genPeers, runPeers),
		pbt.NewPart("starts", 500, 6000, genStart, runStart),
	)
}
