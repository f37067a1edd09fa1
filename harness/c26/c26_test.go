// C26: the beacon command.
package c26

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"pgregory.net/rapid"
)

const port = 7542

var scr *gui.Screen

// Receivers, at addresses of this process alone. The last is ::1, if nobody has it.
var rx []*net.UDPConn

func open() error {
	if rx != nil {
		return nil
	}
	p := os.Getpid()
	for i := 0; i < 3; i++ {
		ip := net.IPv4(127, byte(64+16*i+p>>16&15), byte(p>>8), byte(p))
		r, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: port})
		if err != nil {
			return err
		}
		rx = append(rx, r)
	}
	if r, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback, Port: port}); err == nil {
		rx = append(rx, r)
	}
	for _, r := range rx {
		r.SetReadBuffer(4 << 20)
	}
	return nil
}

// A word of a line: the number of a receiver, or something that is no address.
type word struct {
	To  int
	Bad string `json:",omitempty"`
}

func (w word) text() string {
	if w.Bad != "" {
		return w.Bad
	}
	if w.To >= len(rx) {
		return "nowhere" // No ::1 here
	}
	return rx[w.To].LocalAddr().(*net.UDPAddr).IP.String()
}

type line struct {
	Set   map[string]string
	Count uint
	Off   bool
	Words []word
	V4    int // The receivers that are the multicast addresses
	V6    int
}
type tcase struct{ Lines []line }

func genLine(t *rapid.T) line {
	l := line{Set: map[string]string{}}
	for _, f := range []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace"} {
		if gen.Bool(t, f+"?") {
			v := gen.Pick(t, f, ref.Opts(f)...)
			if !strings.Contains(v, "invalid") && !strings.Contains(v, "reserved") {
				l.Set[f] = v
			}
		}
	}
	l.Count = uint(gen.Pick(t, "count", 0, 1, 1, 1, 2, 3, 5))
	l.Off = rapid.IntRange(0, 7).Draw(t, "off") == 0
	for i := rapid.IntRange(0, 5).Draw(t, "words"); i > 0; i-- {
		w := word{To: rapid.IntRange(0, 3).Draw(t, "to")}
		if rapid.IntRange(0, 4).Draw(t, "bad") == 0 {
			w.Bad = gen.Pick(t, "badword", "foo", "1.2.3", "12", "?", "1:2", ":", "1::2::3", "::g", "-1", "count", "v4", "v6", "off")
		}
		l.Words = append(l.Words, w)
	}
	l.V4, l.V6 = rapid.IntRange(0, 2).Draw(t, "v4"), rapid.IntRange(0, 3).Draw(t, "v6")
	if rapid.IntRange(0, 3).Draw(t, "mcast?") == 0 {
		l.Words = []word{{Bad: gen.Pick(t, "mcast", "v4", "v6")}}
	}
	return l
}

func genCase(t *rapid.T) tcase {
	var c tcase
	for i := rapid.IntRange(1, 5).Draw(t, "lines"); i > 0; i-- {
		c.Lines = append(c.Lines, genLine(t))
	}
	return c
}

func (l line) text() string {
	s := "beacon"
	if l.Off {
		s += " off"
	}
	for _, w := range l.Words {
		s += " " + w.text()
	}
	return s
}

// only is the word of the line, if it is the only one.
func (l line) only() string {
	switch {
	case l.Off && len(l.Words) == 0:
		return "off"
	case !l.Off && len(l.Words) == 1:
		return l.Words[0].text()
	}
	return ""
}

// sends is how many beacons each receiver is to get.
func (l line) sends() []int {
	n := make([]int, len(rx))
	if l.Off || len(l.Words) > 0 && l.Words[0].Bad == "off" {
		return n
	}
	switch l.only() {
	case "v4":
		n[l.V4] += int(l.Count)
	case "v6":
		n[l.V6%len(rx)] += int(l.Count)
	}
	for _, w := range l.Words {
		if w.Bad == "" && w.To < len(rx) {
			n[w.To] += int(l.Count)
		}
	}
	return n
}

func (l line) set(interval uint) {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
	for f, v := range l.Set {
		sarflags.Cliflag.Global[f] = v
	}
	sarflags.Cliflag.Bcount = l.Count
	sarflags.Cliflag.Timeout.Binterval = interval
	sarflags.Cliflag.V4Multicast = word{To: l.V4}.text()
	sarflags.Cliflag.V6Multicast = word{To: l.V6 % len(rx)}.text()
}

// header is that of the beacons, by the settings; what is said of the free space apart.
func header() uint32 {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
	h := ref.Head("beacon")
	for _, f := range ref.FrameFields["beacon"] {
		if v, ok := sarflags.Cliflag.Global[f]; ok && f != "freespaced" {
			h = ref.Set(h, f, v)
		}
	}
	return h
}

func freekb() (uint64, error) {
	var fs syscall.Statfs_t
	err := syscall.Statfs(".", &fs)
	return uint64(fs.Bsize) * fs.Bavail / 1024, err
}

type gram struct {
	b    []byte
	from string
}

// arrived is what came to a receiver so far.
func arrived(r *net.UDPConn) ([]gram, error) {
	mark := []byte(fmt.Sprintf("mark %d", time.Now().UnixNano()))
	s, err := net.DialUDP("udp", nil, r.LocalAddr().(*net.UDPAddr))
	if err != nil {
		return nil, err
	}
	defer s.Close()
	if _, err := s.Write(mark); err != nil {
		return nil, err
	}
	var got []gram
	for {
		b := make([]byte, 70000)
		r.SetReadDeadline(time.Now().Add(20 * time.Second))
		n, from, err := r.ReadFromUDP(b)
		if err != nil {
			return nil, pbt.Errf("nothing arrives on the loopback: %v", err)
		}
		if bytes.Equal(b[:n], mark) {
			return got, nil
		}
		got = append(got, gram{b[:n], from.String()})
	}
}

// right tells what is wrong with a beacon.
func right(g gram, head uint32, lo, hi uint64) error {
	eid := fmt.Sprintf("%s-%d", g.from, os.Getpid())
	if ref.Name(head, "freespace") == "yes" {
		d := "d64"
		if len(g.b) > 4 {
			d = ref.Name(uint32(ref.UNum(g.b[:4])), "freespaced")
		}
		size := ref.DSize(d)
		if size == 0 || len(g.b) < 4+size {
			return pbt.Errf("beacon %x has no free space", g.b)
		}
		free := ref.UNum(g.b[4 : 4+size])
		if slack := uint64(4 << 20); free+slack < lo || free > hi+slack {
			return pbt.Errf("beacon %x: %d kb free, there are %d to %d", g.b, free, lo, hi)
		}
		if want := ref.Beacon(ref.Set(head, "freespaced", d), free, eid); !bytes.Equal(want, g.b) {
			return pbt.Errf("beacon is\n%q, should be\n%q", g.b, want)
		}
		return nil
	}
	// Without free space its descriptor says nothing
	h := head
	if len(g.b) >= 4 {
		h = ref.SetN(head, "freespaced", ref.Get(uint32(ref.UNum(g.b[:4])), "freespaced"))
	}
	if want := ref.Beacon(h, 0, eid); !bytes.Equal(want, g.b) {
		return pbt.Errf("beacon is\n%q, should be\n%q", g.b, want)
	}
	return nil
}

func reset() {
	for _, r := range rx {
		r.Close()
	}
	rx = nil
}

func run(x *pbt.Ctx, c tcase) (err error) {
	if err := open(); err != nil {
		return err
	}
	defer func() {
		if err != nil {
			reset()
		}
	}()
	total := 0
	v4, v6 := false, false // Multicasts were started
	sarwin.Run(scr.G, "beacon off")
	for i, l := range c.Lines {
		if !gui.Idle(30 * time.Second) {
			return pbt.Errf("beacon off does not end")
		}
		if len(l.Words) == 0 {
			scr.Clear()
		}
		l.set(0)
		lo, err := freekb()
		if err != nil {
			return err
		}
		head := header()
		socks := sar.Sockets()
		sarwin.Run(scr.G, l.text())
		if !gui.Idle(30 * time.Second) {
			return pbt.Errf("line %d %q does not end", i, l.text())
		}
		switch l.only() {
		case "v4":
			v4 = true
		case "v6":
			v6 = true
		case "off":
			v4, v6 = false, false
		}
		if len(l.Words) == 0 && !l.Off {
			scr.Wait()
			if text := scr.Text("msg"); strings.Contains(text, "IPv4") != v4 || strings.Contains(text, "IPv6") != v6 || (v4 || v6) != strings.Contains(text, fmt.Sprint(l.Count)) {
				return pbt.Errf("line %d: asked about beacons (IPv4 multicasts %v, IPv6 %v, count %d), the node says %q", i, v4, v6, l.Count, text)
			}
			x.Class("asked, v4=%v v6=%v", v4, v6)
		}
		if s := sar.Sockets(); s > socks {
			return pbt.Errf("line %d %q leaves %d sockets open", i, l.text(), s-socks)
		}
		hi, err := freekb()
		if err != nil {
			return err
		}
		if hi < lo {
			lo, hi = hi, lo
		}
		n := l.sends()
		for r := range rx {
			got, err := arrived(rx[r])
			if err != nil {
				return err
			}
			if len(got) != n[r] {
				return pbt.Errf("line %d %q (count %d): %d beacons to %s, not %d", i, l.text(), l.Count, len(got), rx[r].LocalAddr(), n[r])
			}
			for _, g := range got {
				if err := right(g, head, lo, hi); err != nil {
					return pbt.Errf("line %d %q with %v: %v", i, l.text(), l.Set, err)
				}
			}
			total += n[r]
			if n[r] > 0 {
				x.Class("%s, free space %s", rx[r].LocalAddr().Network(), ref.Name(head, "freespace"))
			}
		}
		x.Class("off=%v words=%d", l.Off, len(l.Words))
	}
	x.NontrivialIf(total > 1)
	return nil
}

// Lines run at once all send.
func runAtOnce(x *pbt.Ctx, c tcase) (err error) {
	if err := open(); err != nil {
		return err
	}
	defer func() {
		if err != nil {
			reset()
		}
	}()
	if len(c.Lines) == 0 {
		return nil
	}
	for i := range c.Lines {
		c.Lines[i].Count = c.Lines[0].Count
		c.Lines[i].V4, c.Lines[i].V6 = c.Lines[0].V4, c.Lines[0].V6
	}
	c.Lines[0].set(0)
	head := header()
	lo, err := freekb()
	if err != nil {
		return err
	}
	want := make([]int, len(rx))
	for _, l := range c.Lines {
		for r, k := range l.sends() {
			want[r] += k
		}
		sarwin.Run(scr.G, l.text())
	}
	if !gui.Idle(30 * time.Second) {
		return pbt.Errf("%d lines do not end", len(c.Lines))
	}
	hi, err := freekb()
	if err != nil {
		return err
	}
	if hi < lo {
		lo, hi = hi, lo
	}
	for r := range rx {
		got, err := arrived(rx[r])
		if err != nil {
			return err
		}
		if len(got) != want[r] {
			return pbt.Errf("%d beacons to %s, not %d", len(got), rx[r].LocalAddr(), want[r])
		}
		for _, g := range got {
			if err := right(g, head, lo, hi); err != nil {
				return err
			}
		}
	}
	x.NontrivialIf(len(c.Lines) > 1)
	x.Class("%d lines", len(c.Lines))
	return nil
}

type icase struct {
	To       int
	Count    uint
	Interval uint
}

// Beacons are sent an interval apart; meanwhile the settings can be changed.
func runInterval(x *pbt.Ctx, c icase) (err error) {
	if err := open(); err != nil {
		return err
	}
	defer func() {
		if err != nil {
			reset()
		}
	}()
	l := line{Count: c.Count, Words: []word{{To: c.To}}}
	l.set(c.Interval)
	head := header()
	start := time.Now()
	sarwin.Run(scr.G, l.text())
	// What is set now is for the next time
	time.Sleep(200 * time.Millisecond)
	line{Count: 9}.set(0)
	set := time.Since(start)
	if !gui.Idle(time.Duration(c.Count*c.Interval+30) * time.Second) {
		return pbt.Errf("%d beacons in intervals of %d s do not end", c.Count, c.Interval)
	}
	took := time.Since(start)
	if last := time.Duration((c.Count-1)*c.Interval) * time.Second; set > last {
		return pbt.Errf("%d beacons in intervals of %d s, the settings could not be changed meanwhile, only after %v", c.Count, c.Interval, set)
	}
	if min := time.Duration((c.Count-1)*c.Interval) * time.Second; took < min {
		return pbt.Errf("%d beacons in intervals of %d s took %v", c.Count, c.Interval, took)
	}
	if c.To < len(rx) {
		got, err := arrived(rx[c.To])
		if err != nil {
			return err
		}
		if len(got) != int(c.Count) {
			return pbt.Errf("%d of %d beacons", len(got), c.Count)
		}
		for _, g := range got {
			if err := right(g, head, 0, 1<<62); err != nil {
				return err
			}
		}
	}
	x.Nontrivial()
	return nil
}

func genInterval(t *rapid.T) icase {
	return icase{rapid.IntRange(0, 2).Draw(t, "to"), rapid.UintRange(4, 5).Draw(t, "count"), 1}
}

func TestProp(t *testing.T) {
	sar.Load(t)
	scr = gui.New(true)
	pbt.Main(t, "C26", pbt.NewPart("lines", 600, 20000, genCase, run),
		pbt.NewPart("at once", 300, 10000, genCase, runAtOnce),
		pbt.NewPart("interval", 1, 12, genInterval, runInterval))
}
