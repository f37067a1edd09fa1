// C20: a request is answered once, with the code its content calls for, and does just that.
package c20

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
	"pgregory.net/rapid"
)

var scr *gui.Screen

type req struct {
	Peer    int
	Session uint32
	Header  uint32
	Name    string
	Wire    bool // comes through the decoder
}

type histCase struct {
	Reqs  []req
	Crowd int // Transfers of other peers that are under way
}

var peers = []string{"127.0.0.1:7542", "127.0.0.1:7543", "10.0.0.1:7542", "[::1]:7542", "[fe80::1%lo]:7542", "[fe80::1%eth0]:7542"}
var names = []string{"a", "b", "d", "d/x", "e", "nosuch", "d/new", "a b", ""}

func genReq(t *rapid.T) req {
	r := req{rapid.IntRange(0, len(peers)-1).Draw(t, "peer"), gen.Pick(t, "session", uint32(0), 1, 2, 1<<32-1), 0, gen.Pick(t, "name", names...), gen.Bool(t, "wire")}
	h := ref.Head("request")
	for _, f := range []string{"rxwilling", "txwilling"} {
		h = ref.Set(h, f, gen.Pick(t, f, "yes", "yes", "yes", "yes", "no", "capable", "invalid"))
	}
	h = ref.Set(h, "reqtype", gen.Pick(t, "type", ref.Opts("reqtype")...))
	h = ref.Set(h, "descriptor", gen.Pick(t, "desc", "d16", "d32", "d64"))
	switch rapid.IntRange(0, 11).Draw(t, "odd") {
	case 0:
		h = ref.Set(h, "udplite", "yes")
	case 1:
		h = ref.Set(h, "stream", "yes")
	case 2:
		h = ref.SetN(h, "version", rapid.Uint32Range(0, 7).Draw(t, "version"))
	case 3:
		h = ref.SetN(h, "reqtype", rapid.Uint32Range(0, 255).Draw(t, "reqtype"))
	case 4:
		h |= rapid.Uint32().Draw(t, "bits")
	}
	r.Header = h
	return r
}

func genHist(t *rapid.T) histCase {
	c := histCase{Reqs: rapid.SliceOfN(rapid.Custom(genReq), 1, 12).Draw(t, "reqs")}
	if rapid.IntRange(0, 19).Draw(t, "crowd?") == 0 {
		c.Crowd = gen.Len(t, "crowd", 300)
	}
	for i := 1; i < len(c.Reqs); i++ { // some are sent again, or nearly so
		if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			p := c.Reqs[rapid.IntRange(0, i-1).Draw(t, "as")]
			switch rapid.IntRange(0, 5).Draw(t, "but") {
			case 0:
				p.Session = c.Reqs[i].Session
			case 1:
				p.Peer = c.Reqs[i].Peer
			case 2:
				p.Name = c.Reqs[i].Name
			case 3:
				p.Header = c.Reqs[i].Header
			}
			c.Reqs[i] = p
		}
	}
	return c
}

type tran struct{ peer, ttype, name string }

func setup(name string) (string, map[string]bool, error) {
	d, err := sar.Sardir(name)
	if err != nil {
		return "", nil, err
	}
	if err = os.MkdirAll(d+"/d", 0o755); err == nil {
		err = os.Mkdir(d+"/e", 0o755)
	}
	for _, f := range []string{"a", "d/x", "a b"} {
		if err == nil {
			err = os.WriteFile(d+"/"+f, []byte("content of "+f), 0o644)
		}
	}
	return d, map[string]bool{"a": true, "d": true, "d/x": true, "e": true, "a b": true}, err
}

// decide: the code a request calls for, and whether the file goes.
func decide(r req, there map[string]bool) (code string, gone bool) {
	h := r.Header
	exists := r.Name == "" || there[r.Name]
	rx, tx := ref.Name(h, "rxwilling"), ref.Name(h, "txwilling")
	switch {
	case ref.Name(h, "version") != "v1", ref.Name(h, "udplite") != "no", ref.Name(h, "stream") != "no":
		return "badrequest", false
	case rx == "invalid":
		return "cantreceive", false
	case tx == "invalid":
		return "cantsend", false
	}
	switch ref.Name(h, "reqtype") {
	case "get", "getdir", "take":
		if rx != "yes" {
			return "cantreceive", false
		}
		if !exists {
			return "filenotfound", false
		}
	case "put", "give":
		if tx != "yes" {
			return "cantsend", false
		}
		if exists {
			return "fileinuse", false
		}
	case "delete":
		if !exists {
			return "filenotfound", false
		}
		if r.Name == "" || (r.Name == "d" && (there["d/x"] || there["d/new"])) {
			return "didnotdelete", false
		}
		return "success", true
	default:
		return "badrequest", false
	}
	return "success", false
}

func answer(x any, from *net.UDPAddr, session uint32) (string, error) {
	p, ok := x.(status.Packet)
	if !ok {
		return "", pbt.Errf("the answer is a %T", x)
	}
	h := p.Info.Header
	if p.Addr.String() != from.String() || p.Info.Session != session {
		return "", pbt.Errf("the answer goes to %s session %d, the request came from %s session %d", p.Addr.String(), p.Info.Session, from, session)
	}
	if ref.Name(h, "version") != "v1" || ref.Name(h, "frametype") != "status" || p.Info.Progress != 0 || p.Info.Inrespto != 0 || len(p.Info.Holes) != 0 {
		return "", pbt.Errf("the answer is %s", p.Info.Print())
	}
	if _, err := p.Info.Encode(); err != nil {
		return "", pbt.Errf("the answer cannot be sent: %v", err)
	}
	return ref.Name(h, "errcode"), nil
}

func tree(d string) string {
	var r []string
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		s, _ := filepath.Rel(d, p)
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += "=" + string(b)
		}
		r = append(r, s)
		return nil
	})
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func runHist(x *pbt.Ctx, c histCase) error {
	d, there, err := setup("c20")
	if err != nil {
		return err
	}
	trans.Transfers = nil
	model := map[string]tran{}
	for i := 0; i < c.Crowd; i++ {
		from := &net.UDPAddr{IP: net.IPv4(10, 3, byte(i/100), byte(i%100)), Port: 7542}
		h := ref.Set(ref.Set(ref.Set(ref.Head("request"), "reqtype", "get"), "rxwilling", "yes"), "txwilling", "yes")
		tx := make(chan interface{}, 8)
		if !trans.AddRxTran(scr.G, &request.Request{Header: h, Session: uint32(i % 3), Fname: "a"}, from, tx) || len(tx) != 1 {
			return pbt.Errf("get %d of many is not taken, or not answered once", i)
		}
		model[fmt.Sprint(from, " ", i%3)] = tran{from.String(), "get", "a"}
		x.Class("crowd")
	}
	for i, r := range c.Reqs {
		from, err := net.ResolveUDPAddr("udp", peers[r.Peer])
		if err != nil {
			return err
		}
		rq := &request.Request{Header: r.Header, Session: r.Session, Fname: r.Name}
		if r.Wire {
			rq = new(request.Request)
			if err := rq.Decode(ref.Request(r.Header, r.Session, r.Name, nil)); err != nil {
				return pbt.Errf("request does not decode: %v", err)
			}
		}
		code, gone := decide(r, there)
		before := tree(d)
		ty := ref.Name(r.Header, "reqtype")
		key := fmt.Sprint(from, " ", r.Session)
		added := false
		if code == "success" && !gone {
			tr := tran{from.String(), ty, r.Name}
			if was, ok := model[key]; !ok {
				model[key] = tr
				added = true
				x.Class("transfer added")
			} else if was != tr {
				x.Class("session in use")
				code = "badrequest"
			} else {
				x.Class("sent again")
				x.Nontrivial()
			}
		}
		x.NontrivialIf(code != "badrequest")
		x.Class("%s: %s", ty, code)
		what := fmt.Sprintf("request %d (%s %q from %s session %d, header %#x)", i, ty, r.Name, from, r.Session, r.Header)
		tx := make(chan interface{}, 8)
		ok := trans.AddRxTran(scr.G, rq, from, tx)
		if len(tx) != 1 {
			return pbt.Errf("%s: %d answers", what, len(tx))
		}
		got, err := answer(<-tx, from, r.Session)
		if err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		if got != code {
			return pbt.Errf("%s: answered %s, want %s", what, got, code)
		}
		if ok != (added || gone) {
			return pbt.Errf("%s: done: %v, want %v", what, ok, added || gone)
		}
		// What it did
		if gone {
			delete(there, r.Name)
		}
		after := tree(d)
		if !gone && after != before {
			return pbt.Errf("%s: files changed from\n%s\nto\n%s", what, before, after)
		}
		if gone {
			var want []string
			for _, l := range strings.Split(before, "\n") {
				if l != r.Name && !strings.HasPrefix(l, r.Name+"=") {
					want = append(want, l)
				}
			}
			if strings.Join(want, "\n") != after {
				return pbt.Errf("%s: files changed from\n%s\nto\n%s", what, before, after)
			}
		}
		if len(trans.Transfers) != len(model) {
			return pbt.Errf("%s: %d transfers, want %d", what, len(trans.Transfers), len(model))
		}
		for _, tr := range trans.Transfers {
			k := fmt.Sprint(tr.Peer.String(), " ", tr.Session)
			if m, ok := model[k]; !ok || m != (tran{tr.Peer.String(), tr.Ttype, tr.Filename}) {
				return pbt.Errf("%s: transfer %s %s of %q, want %+v", what, k, tr.Ttype, tr.Filename, m)
			}
		}
	}
	return nil
}

// The same session asked for by several at once

type raceCase struct {
	N     int // How often each of the files is asked for
	Files []string
	Mode  string // all of one peer and session, each of another peer, or all to delete
}

func genRace(t *rapid.T) raceCase {
	return raceCase{rapid.IntRange(2, 4).Draw(t, "n"), rapid.SliceOfN(rapid.SampledFrom([]string{"a", "a b", "d/x"}), 1, 3).Draw(t, "files"),
		gen.Pick(t, "mode", "one", "peers", "delete")}
}

func runRace(x *pbt.Ctx, c raceCase) error {
	if _, _, err := setup("c20r"); err != nil {
		return err
	}
	trans.Transfers = nil
	from := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7542}
	h := ref.Set(ref.Set(ref.Set(ref.Head("request"), "reqtype", "get"), "rxwilling", "yes"), "txwilling", "yes")
	var wg sync.WaitGroup
	tx := make(chan interface{}, 100)
	start := make(chan bool)
	var mu sync.Mutex
	added := 0
	files := map[string]bool{}
	if c.Mode == "delete" {
		h = ref.Set(h, "reqtype", "delete")
	}
	for _, f := range c.Files {
		files[f] = true
		for n := 0; n < c.N; n++ {
			wg.Add(1)
			who := from
			if c.Mode == "peers" {
				who = &net.UDPAddr{IP: from.IP, Port: 8000 + len(files)*100 + n}
			}
			go func() {
				defer wg.Done()
				<-start
				if trans.AddRxTran(scr.G, &request.Request{Header: h, Session: 5, Fname: f}, who, tx) {
					mu.Lock()
					added++
					mu.Unlock()
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	x.Nontrivial()
	x.Class(c.Mode)
	want, trs := 1, 1
	switch c.Mode {
	case "peers":
		want = len(files) * c.N
		if len(files) < len(c.Files) {
			x.Class("peers, sent again")
		}
		trs = want
	case "delete":
		want, trs = len(files), 0
	}
	if len(trans.Transfers) != trs || added != want {
		return pbt.Errf("%s: %d transfers, want %d; %d said to be done, want %d", c.Mode, len(trans.Transfers), trs, added, want)
	}
	if len(tx) != c.N*len(c.Files) {
		return pbt.Errf("%d answers to %d requests", len(tx), c.N*len(c.Files))
	}
	good := 0
	for n := len(tx); n > 0; n-- {
		a := <-tx
		to := from
		if p, ok := a.(status.Packet); ok && c.Mode == "peers" {
			to = &p.Addr
		}
		code, err := answer(a, to, 5)
		if err != nil {
			return err
		}
		switch {
		case code == "success":
			good++
		case c.Mode == "peers" && code != "badrequest", c.Mode == "delete" && code != "filenotfound" && code != "didnotdelete":
			return pbt.Errf("%s: answered %s", c.Mode, code)
		}
	}
	if c.Mode == "delete" && good != want || c.Mode == "peers" && good < want {
		return pbt.Errf("%s: %d answered with success, want %d", c.Mode, good, want)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	scr = gui.New(false)
	pbt.Main(t, "C20",
		pbt.NewPart("history", 4000, 50000, genHist, runHist),
		pbt.NewPart("together", 800, 10000, genRace, runRace))
}
