// C37: the running node does with each datagram what it has to, and runs on.
// This file is compiled into /repo's saratoga package through an overlay; main runs in it, on a
// terminal nobody looks at, with its sockets on the loopback interface.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/tty"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/trans"
	"pgregory.net/rapid"
)

type vmGram struct {
	V6   bool
	From int
	Wire []byte
}

// What is sent at once, one such after the other
type vmCase struct{ Steps [][]vmGram }

const vmPeers = 3

var vmFiles = []string{"a", "b", "a b", "d/x", "e"}
var vmNames = append([]string{"nosuch", "d/new", ""}, vmFiles...)

func vmBeacon(t *rapid.T) []byte {
	h := ref.Head("beacon")
	for _, f := range []string{"rxwilling", "txwilling"} {
		h = ref.Set(h, f, gen.Pick(t, f, "yes", "no", "capable", "invalid"))
	}
	h = ref.Set(h, "descriptor", gen.Pick(t, "desc", "d16", "d32", "d64"))
	free := uint64(0)
	if gen.Bool(t, "free?") {
		h = ref.Set(ref.Set(h, "freespace", "yes"), "freespaced", "d64")
		free = gen.U64(t, "free", 1<<63-1)
	}
	eids := []string{"a", "b", "node %d 1", "10.0.0.1:7542-1", strings.Repeat("long ", 50)}
	if ref.Name(h, "freespace") == "yes" { // Long enough to be a frame without one
		eids = append(eids, "", "")
	}
	return ref.Beacon(h, free, gen.Pick(t, "eid", eids...))
}

func vmRequest(t *rapid.T, session uint32, name string) []byte {
	h := ref.Head("request")
	for _, f := range []string{"rxwilling", "txwilling"} {
		h = ref.Set(h, f, gen.Pick(t, f, "yes", "yes", "yes", "yes", "no", "capable"))
	}
	h = ref.Set(h, "reqtype", gen.Pick(t, "type", "get", "take", "put", "give", "delete", "delete", "getdir", "noaction"))
	h = ref.Set(h, "descriptor", gen.Pick(t, "rdesc", "d16", "d32", "d64"))
	return ref.Request(h, session, name, nil)
}

func vmGen(t *rapid.T) vmCase {
	var c vmCase
	session := uint32(rapid.IntRange(0, 3).Draw(t, "session"))
	for i := rapid.IntRange(1, 4).Draw(t, "steps"); i > 0; i-- {
		var s []vmGram
		names := rapid.Permutation(vmNames).Draw(t, "names") // within a step each is used once
		for j := rapid.IntRange(1, 8).Draw(t, "n"); j > 0; j-- {
			g := vmGram{V6: gen.Bool(t, "v6"), From: rapid.IntRange(0, vmPeers-1).Draw(t, "from")}
			asked := false
			switch gen.Pick(t, "kind", "beacon", "beacon", "request", "request", "request", "other", "other", "broken") {
			case "beacon":
				g.Wire = vmBeacon(t)
			case "request":
				if len(names) == 0 {
					continue
				}
				g.Wire = vmRequest(t, session, names[0])
				session++
				asked = true
				names = names[1:]
			case "other":
				g.Wire = gen.Wire(t, gen.Pick(t, "other", "data", "metadata", "status"))
			case "broken":
				w := gen.Wire(t, gen.Pick(t, "other", "data", "metadata", "status", "beacon"))
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					w = w[:min(len(w), rapid.IntRange(0, 13).Draw(t, "len"))]
				case 1:
					if len(w) == 0 {
						break
					}
					w[0] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				case 2:
					w = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "noise")
				}
				g.Wire = w
			}
			// What it became may be a request: those are made above
			if w := g.Wire; !asked && len(w) >= 8 && ref.Name(binary.BigEndian.Uint32(w), "frametype") == "request" {
				w[0] = 0x3f
			}
			s = append(s, g)
		}
		if len(s) > 0 {
			c.Steps = append(c.Steps, s)
		}
	}
	return c
}

var (
	vmDir  string
	vmTx   [2][vmPeers]*net.UDPConn // Who sends
	vmMark [2]*net.UDPConn
	vmN    int
	vmOver = make(chan string, 1)
	vmAsk  bool // A mark of v6 is a request that leaves a transfer behind
)

// vmWhere is the state: peers, transfers and files
func vmWhere() (string, map[string]bool) {
	var r []string
	marks := map[string]bool{}
	for _, p := range beacon.CurPeers() {
		r = append(r, fmt.Sprintf("peer %s: free %d eid %q desc %s rx %s tx %s", p.Addr, p.Freespace, p.Eid, p.Maxdesc, p.Canrx, p.Cantx))
		marks[p.Eid] = true
	}
	trans.Trmu.Lock()
	for _, tr := range trans.Transfers {
		if strings.HasPrefix(tr.Filename, "mark ") {
			marks[tr.Filename] = true
			continue
		}
		r = append(r, fmt.Sprintf("transfer of %s session %d: %s %q", tr.Peer.String(), tr.Session, tr.Ttype, tr.Filename))
	}
	trans.Trmu.Unlock()
	filepath.Walk(vmDir, func(p string, fi os.FileInfo, err error) error {
		s, _ := filepath.Rel(vmDir, p)
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += "=" + string(b)
		}
		r = append(r, "file "+s)
		return nil
	})
	sort.Strings(r)
	return strings.Join(r, "\n"), marks
}

// vmSettle sends a mark behind all that was sent and waits until it has come through.
func vmSettle(v6 bool, max time.Duration) (string, error) {
	i := 0
	if v6 {
		i = 1
	}
	vmN++
	eid := fmt.Sprint("mark ", vmN)
	h := ref.Set(ref.Set(ref.Set(ref.Head("beacon"), "descriptor", "d64"), "rxwilling", "yes"), "txwilling", "yes")
	w := ref.Beacon(h, 0, eid)
	if vmAsk && v6 { // There is one address, and so one peer, only
		w = ref.Request(ref.Set(ref.Set(ref.Set(ref.Set(ref.Head("request"), "descriptor", "d64"), "rxwilling", "yes"), "txwilling", "yes"), "reqtype", "put"), uint32(1<<31+vmN), eid, nil)
	}
	if _, err := vmMark[i].Write(w); err != nil {
		return "", err
	}
	for end := time.Now().Add(max); ; time.Sleep(200 * time.Microsecond) {
		if _, m := vmWhere(); m[eid] {
			return eid, nil
		}
		select {
		case s := <-vmOver:
			return "", pbt.Errf("the node ended: %s", s)
		default:
		}
		if time.Now().After(end) {
			return "", pbt.Errf("what is sent is not taken within %v", max)
		}
	}
}

//go:norace
func vmClear() {
	beacon.Peers = nil
	trans.Trmu.Lock()
	trans.Transfers = nil
	trans.Trmu.Unlock()
}

func vmSetup() (map[string]bool, error) {
	es, err := os.ReadDir(vmDir)
	for _, e := range es {
		if err == nil {
			err = os.RemoveAll(vmDir + "/" + e.Name())
		}
	}
	if err == nil {
		err = os.MkdirAll(vmDir+"/d", 0o755)
	}
	if err == nil {
		err = os.Mkdir(vmDir+"/e", 0o755)
	}
	for _, f := range []string{"a", "b", "a b", "d/x"} {
		if err == nil {
			err = os.WriteFile(vmDir+"/"+f, []byte("content of "+f), 0o644)
		}
	}
	there := map[string]bool{}
	for _, f := range vmFiles {
		there[f] = true
	}
	return there, err
}

func vmRun(x *pbt.Ctx, c vmCase) error {
	if vmDir == "" {
		if err := vmStart(); err != nil {
			return err
		}
	}
	vmAsk = true
	there, err := vmSetup()
	if err != nil {
		return err
	}
	vmClear()
	peers := map[string]string{}
	trs := map[string]string{}
	say := func(addr string, h uint32, free uint64, eid string) {
		peers[addr] = fmt.Sprintf("peer %s: free %d eid %q desc %s rx %s tx %s", addr, free, eid, ref.Name(h, "descriptor"), ref.Name(h, "rxwilling"), ref.Name(h, "txwilling"))
	}
	mh := ref.Set(ref.Set(ref.Set(ref.Head("beacon"), "descriptor", "d64"), "rxwilling", "yes"), "txwilling", "yes")
	for n, s := range c.Steps {
		for _, g := range s {
			i := 0
			if g.V6 {
				i = 1
			}
			con := vmTx[i][g.From]
			if _, err := con.Write(g.Wire); err != nil {
				return err
			}
			from := con.LocalAddr().(*net.UDPAddr)
			w := g.Wire
			if len(w) < 8 || ref.Name(binary.BigEndian.Uint32(w), "version") != "v1" {
				x.Class("broken v6=%v", g.V6)
				continue
			}
			h := binary.BigEndian.Uint32(w)
			kind := ref.Name(h, "frametype")
			if kind == "" || dec.Refuse(kind, w) != "" {
				x.Class("broken v6=%v", g.V6)
				continue
			}
			x.Class("%s v6=%v", kind, g.V6)
			x.NontrivialIf(kind == "beacon" || kind == "request")
			switch kind {
			case "beacon":
				var b beacon.Beacon
				if err := b.Decode(append([]byte{}, w...)); err != nil {
					return pbt.Errf("beacon does not decode: %v", err)
				}
				say(from.IP.String(), h, b.Freespace, b.Eid)
			case "request":
				session := binary.BigEndian.Uint32(w[4:8])
				name, _, _ := strings.Cut(string(w[8:]), "\x00")
				ty := ref.Name(h, "reqtype")
				exists := name == "" || there[name]
				ok := false
				switch ty {
				case "get", "take", "getdir":
					ok = ref.Name(h, "rxwilling") == "yes" && exists
				case "put", "give":
					ok = ref.Name(h, "txwilling") == "yes" && !exists
				case "delete":
					if there[name] {
						delete(there, name)
						x.Class("a file goes")
					}
				}
				if ok {
					trs[fmt.Sprint(from, session)] = fmt.Sprintf("transfer of %s session %d: %s %q", from, session, ty, name)
					x.Class("a transfer comes")
				}
			}
		}
		for _, v6 := range []bool{false, true} {
			eid, err := vmSettle(v6, 20*time.Second)
			if err != nil {
				return pbt.Errf("after step %d: %v", n, err)
			}
			if !v6 {
				say("127.0.0.9", mh, 0, eid)
			}
		}
		// What it has to come to
		r := []string{"file .", "file d"}
		for f := range there {
			if f == "e" {
				r = append(r, "file e")
			} else {
				r = append(r, "file "+f+"=content of "+f)
			}
		}
		for _, p := range peers {
			r = append(r, p)
		}
		for _, p := range trs {
			r = append(r, p)
		}
		sort.Strings(r)
		want := strings.Join(r, "\n")
		got := ""
		for end := time.Now().Add(10 * time.Second); ; time.Sleep(200 * time.Microsecond) {
			if got, _ = vmWhere(); got == want {
				break
			}
			if time.Now().After(end) {
				return pbt.Errf("after step %d the node has\n%s\nwant\n%s", n, got, want)
			}
		}
		gui.Idle(time.Second)
		if got, _ = vmWhere(); got != want {
			return pbt.Errf("after step %d the node has\n%s\nwant\n%s", n, got, want)
		}
	}
	return nil
}

// vmStart starts the node.
func vmStart() error {
	vmDir = pbt.Scratch + "/node"
	if err := os.MkdirAll(vmDir, 0o755); err != nil {
		return err
	}
	cfg := os.Getenv("VERIF_CONFIG")
	if cfg == "" {
		cfg = os.Getenv("VERIF_REPO") + "/saratoga/saratoga.json"
	}
	js, err := os.ReadFile(cfg)
	if err != nil {
		return err
	}
	var doc map[string]any
	if err := json.Unmarshal(js, &doc); err != nil {
		return err
	}
	// A port nobody has, and that nobody is given before the node takes it
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	port := 0
	for i := 0; i < 2000 && port == 0; i++ {
		p := 10000 + shard%8*2000 + (os.Getpid()+i)%2000
		l6, e := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6unspecified, Port: p})
		if e != nil {
			continue
		}
		if l4, e := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4zero, Port: p}); e == nil {
			l4.Close()
			port = p
		}
		l6.Close()
	}
	if port == 0 {
		return fmt.Errorf("no port is free")
	}
	doc["udpport"] = port
	if js, err = json.Marshal(doc); err != nil {
		return err
	}
	if err := os.WriteFile(pbt.Scratch+"/node.json", js, 0o644); err != nil {
		return err
	}
	os.Setenv("SARDIR", vmDir)
	os.Args = []string{"saratoga", pbt.Scratch + "/node.json", "lo"}
	go func() {
		main()
		vmOver <- "main returned"
	}()
	for i, nw := range []string{"udp4", "udp6"} {
		dial := func(from, to net.IP) *net.UDPConn {
			c, e := net.DialUDP(nw, &net.UDPAddr{IP: from}, &net.UDPAddr{IP: to, Port: port})
			if e != nil {
				err = e
			}
			return c
		}
		for j := 0; j < vmPeers; j++ {
			if i == 0 {
				vmTx[i][j] = dial(net.IPv4(127, 0, 0, byte(2+j)), net.IPv4(127, 0, 0, 1))
			} else {
				vmTx[i][j] = dial(net.IPv6loopback, net.IPv6loopback)
			}
		}
		if i == 0 {
			vmMark[i] = dial(net.IPv4(127, 0, 0, 9), net.IPv4(127, 0, 0, 1))
		} else {
			vmMark[i] = dial(net.IPv6loopback, net.IPv6loopback)
		}
	}
	for _, v6 := range []bool{false, true} {
		for i := 0; i < 200 && err == nil; i++ { // until it is there
			var e error
			if _, e = vmSettle(v6, 100*time.Millisecond); e == nil {
				break
			}
			if i == 199 {
				err = pbt.Errf("the node does not come up: %v", e)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	return err
}

// vmReady tells if this is the process to run in, and that the machine has what the node cannot do without.
func vmReady(t *testing.T) bool {
	if !tty.Own(t, 100, 40) {
		return false
	}
	// What the node cannot do without
	lo, err := net.InterfaceByName("lo")
	if err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	for nw, ip := range map[string]string{"udp4": "224.0.0.108", "udp6": "ff02::6c"} {
		c, err := net.ListenMulticastUDP(nw, lo, &net.UDPAddr{IP: net.ParseIP(ip)})
		if err != nil {
			t.Fatal("TROUBLE: ", err)
		}
		c.Close()
	}
	return true
}
