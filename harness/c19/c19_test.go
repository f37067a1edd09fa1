// C19: the table of peers says of each address what its last beacon said, once.
package c19

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/timestamp"
	"pgregory.net/rapid"
)

type heard struct {
	From string
	Port int
	Wide bool // an IPv4 address in 16 bytes
	Desc string
	Rx   string
	Tx   string
	Free int64 // -1: not advertised
	Eid  pbt.B
	Nil  bool // no address
	Wire bool // comes through the decoder
}

var addrs = []string{"127.0.0.1", "127.0.0.11", "10.0.0.1", "10.0.0.10", "1.27.0.1", "::1", "fe80::1", "::ffff:10.0.0.1", "0.0.0.0", "::"}

func genFree(t *rapid.T) int64 {
	if gen.Bool(t, "free.any") {
		return int64(gen.U64(t, "free", 1<<63-1))
	}
	return gen.Pick(t, "free", int64(-1), 0, 1, 2, 65535, 65536, 1<<32, 1<<40)
}

func genEid(t *rapid.T) pbt.B {
	if rapid.IntRange(0, 3).Draw(t, "eid.any") == 0 {
		return gen.Name(t, "eid", 1200)
	}
	return gen.Pick(t, "eid", pbt.B("a"), "b", "", "10.0.0.1:7542-1", "10.0.0.1:7542-2", "10.0.0.1:7542-11", "A")
}

func genHeard(t *rapid.T) heard {
	return heard{gen.Pick(t, "from", addrs...), gen.Pick(t, "port", 7542, 7542, 1, 40000), gen.Bool(t, "wide"),
		gen.Pick(t, "desc", "d16", "d32", "d64"), gen.Pick(t, "rx", "no", "invalid", "capable", "yes"), gen.Pick(t, "tx", "no", "invalid", "capable", "yes"),
		genFree(t), genEid(t),
		rapid.IntRange(0, 30).Draw(t, "nil") == 0, gen.Bool(t, "wire")}
}

func genHist(t *rapid.T) []heard {
	h := rapid.SliceOfN(rapid.Custom(genHeard), 1, 25).Draw(t, "heard")
	// One thing changes from one beacon to the next, often
	for i := 1; i < len(h); i++ {
		if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
			continue
		}
		p := h[rapid.IntRange(0, i-1).Draw(t, "as")]
		switch rapid.IntRange(0, 6).Draw(t, "change") {
		case 0:
			p.Desc = h[i].Desc
		case 1:
			p.Rx = h[i].Rx
		case 2:
			p.Tx = h[i].Tx
		case 3:
			p.Free = h[i].Free
		case 4:
			p.Eid = h[i].Eid
		case 5:
			p.From = h[i].From
		}
		p.Port, p.Wide, p.Wire = h[i].Port, h[i].Wide, h[i].Wire
		h[i] = p
	}
	return h
}

// make gives the beacon and the address it is from.
func (h heard) make() (*beacon.Beacon, *net.UDPAddr, error) {
	hd := ref.Set(ref.Set(ref.Set(ref.Head("beacon"), "descriptor", h.Desc), "rxwilling", h.Rx), "txwilling", h.Tx)
	free := uint64(0)
	if h.Free >= 0 {
		free = uint64(h.Free)
		hd = ref.Set(ref.Set(hd, "freespace", "yes"), "freespaced", "d64")
	}
	b := &beacon.Beacon{Header: hd, Freespace: free, Eid: string(h.Eid)}
	if h.Wire {
		b = new(beacon.Beacon)
		if err := b.Decode(ref.Beacon(hd, free, string(h.Eid))); err != nil {
			return nil, nil, pbt.Errf("beacon does not decode: %v", err)
		}
	}
	if h.Nil {
		return b, nil, nil
	}
	ip := net.ParseIP(h.From)
	if v4 := ip.To4(); v4 != nil && !h.Wide {
		ip = v4
	}
	return b, &net.UDPAddr{IP: ip, Port: h.Port}, nil
}

func (h heard) key() string { return net.ParseIP(h.From).String() }
func (h heard) says() string {
	return fmt.Sprintf("free %d eid %q desc %s rx %s tx %s", max(h.Free, 0), h.Eid, h.Desc, h.Rx, h.Tx)
}
func says(p beacon.Peer) string {
	return fmt.Sprintf("free %d eid %q desc %s rx %s tx %s", p.Freespace, p.Eid, p.Maxdesc, p.Canrx, p.Cantx)
}

// within says whether a timestamp is of an instant between from and to, as exact as its type is.
func within(ts timestamp.Timestamp, from, to time.Time) bool {
	b := ts.Put()
	var s, ns int64
	switch b[0] {
	case ref.TTypes["posix32_32"]:
		s, ns = int64(ref.UNum(b[1:5])), int64(ref.UNum(b[5:9]))
	case ref.TTypes["posix64_32"]:
		s, ns = int64(ref.UNum(b[1:9])), int64(ref.UNum(b[9:13]))
	case ref.TTypes["posix32"]:
		s = int64(ref.UNum(b[1:5]))
		return s >= from.Unix() && s <= to.Unix()
	case ref.TTypes["posix64"]:
		s = int64(ref.UNum(b[1:9]))
		return s >= from.Unix() && s <= to.Unix()
	default:
		return true
	}
	at := time.Unix(s, ns)
	return !at.Before(from.Round(0)) && !at.After(to.Round(0))
}

func runHist(x *pbt.Ctx, c []heard) error {
	beacon.Peers = nil
	model := map[string]string{}
	stamps := map[string]string{}
	type span struct{ from, till time.Time }
	first, last := map[string]span{}, map[string]span{} // beacon, news
	for i, h := range c {
		b, from, err := h.make()
		if err != nil {
			return err
		}
		since := time.Now()
		got := beacon.NewPeer(b, from)
		now := span{since, time.Now()}
		if h.Nil {
			if got {
				return pbt.Errf("beacon %d: from nowhere, and taken", i)
			}
		} else {
			was, known := model[h.key()]
			want := !known || was != h.says()
			switch {
			case !known:
				x.Class("new")
			case want:
				x.Class("changed")
				x.Nontrivial()
			default:
				x.Class("same")
			}
			if got != want {
				return pbt.Errf("beacon %d (%+v): news: %v, want %v (was %q)", i, h, got, want, was)
			}
			model[h.key()] = h.says()
			if !known {
				first[h.key()] = now
			}
			if want {
				last[h.key()] = now
			} else { // No news: may count as an update or not
				last[h.key()] = span{last[h.key()].from, now.till}
			}
		}
		// The whole table
		if len(beacon.Peers) != len(model) {
			return pbt.Errf("beacon %d (%+v): %d peers, want %d", i, h, len(beacon.Peers), len(model))
		}
		for _, p := range beacon.Peers {
			if m, ok := model[p.Addr]; !ok || m != says(p) {
				return pbt.Errf("beacon %d (%+v): peer %s: %s, want %q", i, h, p.Addr, says(p), m)
			}
			// When it was first heard of never changes
			cr := string(p.Created.Put())
			if s, ok := stamps[p.Addr]; ok && s != cr {
				return pbt.Errf("beacon %d: creation time of %s changed", i, p.Addr)
			}
			stamps[p.Addr] = cr
			f, l := first[p.Addr], last[p.Addr]
			if !within(p.Created, f.from, f.till) {
				return pbt.Errf("beacon %d: %s created at %s, first heard of in [%v,%v]", i, p.Addr, p.Created.Print(), f.from, f.till)
			}
			if !within(p.Updated, l.from, l.till) {
				return pbt.Errf("beacon %d: %s updated at %s, its last news came in [%v,%v]", i, p.Addr, p.Updated.Print(), l.from, l.till)
			}
		}
	}
	x.Class("peers=%d", len(model))
	return nil
}

// Several listeners at once: every address is heard by all of them.

type tideCase struct {
	Own    [][]heard // Of each listener, from an address of its own
	Shared int       // Beacons each of them hears from a common address
}

func genTide(t *rapid.T) tideCase {
	var c tideCase
	for i := rapid.IntRange(2, 6).Draw(t, "listeners"); i > 0; i-- {
		c.Own = append(c.Own, rapid.SliceOfN(rapid.Custom(genHeard), 1, 6).Draw(t, "own"))
	}
	c.Shared = rapid.IntRange(0, 4).Draw(t, "shared")
	return c
}

func runTide(x *pbt.Ctx, c tideCase) error {
	beacon.Peers = nil
	var wg sync.WaitGroup
	start := make(chan bool)
	news := make([]int, len(c.Own))
	errs := make([]error, len(c.Own))
	for g := range c.Own {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, h := range c.Own[g] {
				h.From, h.Nil = fmt.Sprintf("10.1.1.%d", g), false
				b, from, err := h.make()
				if err != nil {
					errs[g] = err
					return
				}
				if beacon.NewPeer(b, from) {
					news[g]++
				}
				if i < c.Shared {
					n := g*10 + i
					s := heard{From: "10.9.9.9", Port: 7542, Desc: "d64", Rx: "yes", Tx: "yes", Free: int64(n), Eid: pbt.B(fmt.Sprint("eid", n))}
					b, from, _ := s.make()
					beacon.NewPeer(b, from)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	seen := map[string]int{}
	for _, p := range beacon.Peers {
		seen[p.Addr]++
		if p.Addr == "10.9.9.9" && p.Eid != fmt.Sprint("eid", p.Freespace) {
			return pbt.Errf("the peer of all has the free space %d of one beacon and the eid %q of another", p.Freespace, p.Eid)
		}
	}
	want := len(c.Own)
	if c.Shared > 0 {
		want++
	}
	if len(beacon.Peers) != want || len(seen) != want {
		return pbt.Errf("%d peers of %d addresses, want %d", len(beacon.Peers), len(seen), want)
	}
	for g, own := range c.Own {
		if errs[g] != nil {
			return errs[g]
		}
		n, last := 0, ""
		for _, h := range own {
			if h.says() != last {
				n++
			}
			last = h.says()
		}
		for _, p := range beacon.Peers {
			if p.Addr == fmt.Sprintf("10.1.1.%d", g) && says(p) != last {
				return pbt.Errf("peer %s: %s, its last beacon said %s", p.Addr, says(p), last)
			}
		}
		if news[g] != n {
			return pbt.Errf("%d of the beacons of listener %d were news, want %d", news[g], g, n)
		}
	}
	x.Nontrivial()
	x.Class("listeners=%d", len(c.Own))
	return nil
}

// Many peers: each is heard once, some again.

type crowdCase struct {
	N     int
	Again []heard // in place of From, the one this is from
	Who   []int
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{N: gen.Pick(t, "n", 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 520)}
	c.Again = rapid.SliceOfN(rapid.Custom(genHeard), 1, 10).Draw(t, "again")
	for i := range c.Again {
		c.Again[i].Nil = false
		c.Who = append(c.Who, rapid.IntRange(0, c.N-1).Draw(t, "who"))
	}
	return c
}

func runCrowd(x *pbt.Ctx, c crowdCase) error {
	beacon.Peers = nil
	addr := func(i int) string {
		if i%3 == 2 {
			return fmt.Sprintf("2001:db8::%x", i+1)
		}
		return fmt.Sprintf("10.2.%d.%d", i/200, i%200+1)
	}
	last := make([]heard, c.N)
	tell := func(i int, h heard) error {
		h.From = addr(i)
		b, from, err := h.make()
		if err != nil {
			return err
		}
		want := last[i].From == "" || last[i].says() != h.says()
		if beacon.NewPeer(b, from) != want {
			return pbt.Errf("beacon of peer %d: news should be %v", i, want)
		}
		last[i] = h
		return nil
	}
	for i := range last {
		if err := tell(i, heard{Port: 7542, Desc: "d32", Rx: "yes", Tx: "no", Free: int64(i), Eid: pbt.B(fmt.Sprint("eid", i)), Wire: true}); err != nil {
			return err
		}
	}
	for k, h := range c.Again {
		if err := tell(c.Who[k], h); err != nil {
			return err
		}
	}
	if len(beacon.Peers) != c.N {
		return pbt.Errf("%d peers, want %d", len(beacon.Peers), c.N)
	}
	got := map[string]string{}
	for _, p := range beacon.Peers {
		got[p.Addr] = says(p)
	}
	for i, h := range last {
		if got[addr(i)] != h.says() {
			return pbt.Errf("peer %d of %d: %q, its last beacon said %q", i, c.N, got[addr(i)], h.says())
		}
	}
	x.Nontrivial()
	x.Class("peers=%d", c.N)
	return nil
}

// The peers are shown while beacons come.
type showCase struct {
	Heard []heard
	Shows int
}

func genShow(t *rapid.T) showCase {
	return showCase{rapid.SliceOfN(rapid.Custom(genHeard), 2, 8).Draw(t, "heard"), rapid.IntRange(1, 3).Draw(t, "shows")}
}

// What commands did before is over, but the race detector does not know.
//
//go:norace
func forget() { beacon.Peers = nil }

func runShow(x *pbt.Ctx, c showCase) error {
	forget()
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, h := range c.Heard {
		b, from, err := h.make()
		if err != nil {
			return err
		}
		wg.Add(1)
		go func() { defer wg.Done(); <-start; beacon.NewPeer(b, from) }()
	}
	for i := 0; i < c.Shows; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; sarwin.Run(scr.G, "peers") }()
	}
	close(start)
	wg.Wait()
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("the peers are never shown")
	}
	x.Nontrivial()
	return nil
}

var scr *gui.Screen

func TestProp(t *testing.T) {
	sar.Load(t)
	scr = gui.New(false)
	pbt.Main(t, "C19",
		pbt.NewPart("history", 8000, 80000, genHist, runHist),
		pbt.NewPart("together", 3000, 30000, genTide, runTide),
		pbt.NewPart("crowd", 200, 3000, genCrowd, runCrowd),
		pbt.NewPart("shown", 1500, 15000, genShow, runShow))
}
