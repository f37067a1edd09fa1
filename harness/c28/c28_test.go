// C28: the statuses a receiver sends name every hole once, in frames that fit.
package c28

import (
	"bytes"
	"fmt"
	"net"
	"slices"
	"strings"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"pgregory.net/rapid"
)

var scr *gui.Screen

type fill struct{ Start, Len uint64 }

type tcase struct {
	Flags    []gen.KV
	Mtu      int
	Session  uint32
	Progress uint64
	Inrespto uint64
	Fills    []fill
	Conn     int // 0: connected, 2: none, 3: closed
}

func genCase(t *rapid.T) tcase {
	var c tcase
	d := gen.Pick(t, "descriptor", "d16", "d16", "d32", "d32", "d64", "d64", "d64", "d64", "d64", "d128")
	e := "success"
	if rapid.IntRange(0, 5).Draw(t, "err") == 0 {
		e = gen.Pick(t, "errcode", ref.Opts("errcode")...)
	}
	c.Flags = []gen.KV{{K: "descriptor", V: d}, {K: "errcode", V: e}}
	for _, f := range []string{"metadatarecvd", "allholes", "reqholes"} {
		if gen.Bool(t, f+"?") {
			c.Flags = append(c.Flags, gen.KV{K: f, V: gen.Pick(t, f, ref.Opts(f)...)})
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "stamp") {
	case 0:
		c.Flags = append(c.Flags, gen.KV{K: "reqtstamp", V: "yes"})
	case 1:
		c.Flags = append(c.Flags, gen.KV{K: "reqtstamp", V: "no"})
	}
	c.Flags = rapid.Permutation(c.Flags).Draw(t, "order")
	switch rapid.IntRange(0, 3).Draw(t, "mtukind") {
	case 0:
		c.Mtu = rapid.IntRange(68, 140).Draw(t, "mtu")
	case 1:
		c.Mtu = rapid.IntRange(140, 600).Draw(t, "mtu")
	default:
		c.Mtu = gen.Pick(t, "mtu", 576, 1280, 1499, 1500, 1501, 9000)
	}
	max := min(ref.DMax(d), 1<<62)
	if d == "d128" {
		max = 1 << 62
	}
	most := max
	if rapid.IntRange(0, 15).Draw(t, "over") == 0 {
		most = 1 << 62
	}
	c.Session = gen.U32(t, "session")
	c.Progress = gen.U64(t, "progress", most)
	c.Inrespto = gen.U64(t, "inrespto", most)
	// Either a few fills anywhere, or as many as make frames just full or not
	if rapid.IntRange(0, 2).Draw(t, "few") == 0 {
		for i := rapid.IntRange(0, 12).Draw(t, "nfills"); i > 0; i-- {
			s := gen.U64(t, "start", max)
			c.Fills = append(c.Fills, fill{s, gen.U64(t, "len", min(max-s, 1<<40))})
		}
	} else {
		hs := 2 * bytesOf(ref.DSize(d))
		per := (c.Mtu - 68 - 8 - hs) / hs
		if slices.Contains(c.Flags, gen.KV{K: "reqtstamp", V: "yes"}) {
			per = (c.Mtu - 68 - 8 - 16 - hs) / hs
		}
		n := 0
		if per > 0 {
			n = per*rapid.IntRange(0, 3).Draw(t, "frames") + rapid.IntRange(-1, 2).Draw(t, "more")
		}
		n = max0(min(n, 1200))
		start := uint64(0)
		step := rapid.Uint64Range(1, 9).Draw(t, "step")
		if gen.Bool(t, "atzero") {
			start, n = 0, n+1
		} else {
			start = step
		}
		for i := 0; i < n; i++ {
			c.Fills = append(c.Fills, fill{start, step})
			start += 2 * step
		}
	}
	c.Conn = gen.Pick(t, "conn", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 3)
	return c
}

func bytesOf(n int) int {
	if n < 1 {
		return 16
	}
	return n
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// gaps are the holes before and between the fills, by a model that marks the edges.
func gaps(fs []fill) [][2]uint64 {
	var s []fill
	for _, f := range fs {
		if f.Len > 0 {
			s = append(s, f)
		}
	}
	slices.SortFunc(s, func(a, b fill) int {
		if a.Start < b.Start {
			return -1
		} else if a.Start > b.Start {
			return 1
		}
		return 0
	})
	var out [][2]uint64
	var upto uint64
	for _, f := range s {
		if f.Start > upto {
			out = append(out, [2]uint64{upto, f.Start})
		}
		upto = max(upto, f.Start+f.Len)
	}
	return out
}

var rx, tx, dead *net.UDPConn

func open() error {
	if rx != nil {
		return nil
	}
	var err error
	lo := net.IPv4(127, 0, 0, 1)
	if rx, err = net.ListenUDP("udp4", &net.UDPAddr{IP: lo}); err != nil {
		return err
	}
	rx.SetReadBuffer(4 << 20)
	to := rx.LocalAddr().(*net.UDPAddr)
	if tx, err = net.DialUDP("udp4", nil, to); err != nil {
		return err
	}
	if dead, err = net.DialUDP("udp4", nil, to); err != nil {
		return err
	}
	return dead.Close()
}

func run(x *pbt.Ctx, c tcase) (err error) {
	if err := open(); err != nil {
		return err
	}
	defer func() {
		if err != nil {
			rx.Close()
			tx.Close()
			rx = nil
		}
	}()
	old := sarflags.Mtu()
	defer sarflags.MtuSet(old)
	sarflags.MtuSet(c.Mtu)

	var fills holes.Holes
	for _, f := range c.Fills {
		fills = fills.Add(int(f.Start), int(f.Start+f.Len))
	}
	want := gaps(c.Fills)
	to := rx.LocalAddr().(*net.UDPAddr)
	tr := sarwin.Transfer{Direction: sarwin.Responder, Session: c.Session, Peer: to, Progress: c.Progress, Inrespto: c.Inrespto, Curfills: fills}
	switch c.Conn {
	case 0:
		tr.Conn = tx
	case 3:
		tr.Conn = dead
	}
	fl := make([]string, 0, len(c.Flags)+1)
	for _, kv := range c.Flags {
		fl = append(fl, kv.K+"="+kv.V)
	}
	from := time.Now()
	res := tr.WriteStatus(scr.G, strings.Join(fl, ","))
	till := time.Now()

	// All that was sent: a mark behind it tells when it is there
	mark := []byte(fmt.Sprintf("mark %d", till.UnixNano()))
	if _, err := tx.Write(mark); err != nil {
		return err
	}
	var got [][]byte
	for {
		b := make([]byte, 70000)
		rx.SetReadDeadline(time.Now().Add(20 * time.Second))
		n, _, err := rx.ReadFromUDP(b)
		if err != nil {
			return pbt.Errf("nothing arrives on the loopback: %v", err)
		}
		if bytes.Equal(b[:n], mark) {
			break
		}
		got = append(got, b[:n])
	}

	get := func(k string) string {
		for _, kv := range c.Flags {
			if kv.K == k {
				return kv.V
			}
		}
		return ""
	}
	d := get("descriptor")
	size := bytesOf(ref.DSize(d))
	stamp := ""
	if get("reqtstamp") == "yes" {
		stamp = "posix32"
	}
	if get("errcode") != "success" {
		want = nil
	}
	fits := c.Progress <= ref.DMax(d) && c.Inrespto <= ref.DMax(d)
	for _, h := range want {
		fits = fits && h[1] <= ref.DMax(d)
	}
	room := c.Mtu - 60 - 8
	need := 8 + 4*size // With one hole
	if stamp != "" {
		need += 16
	}
	must := c.Conn == 0 && d != "d128" && fits && room >= need
	x.Class("descriptor %s", d)
	x.Class("errcode success=%v", get("errcode") == "success")
	switch {
	case c.Conn != 0, d == "d128", !fits, room < 8+2*size, room < need && len(want) > 0:
		x.Class("cannot be sent")
		if res == "success" {
			return pbt.Errf("success (connection %d, fits %v, room for %d of at least %d bytes)", c.Conn, fits, room, need)
		}
		return nil
	case !must:
		x.Class("hardly any room")
		if res != "success" {
			return nil
		}
	}
	if res != "success" {
		return pbt.Errf("%d holes: %s", len(want), res)
	}
	if len(got) == 0 {
		return pbt.Errf("no status sent")
	}
	frames := "one frame"
	if len(got) > 1 {
		frames = "several frames"
	}
	x.Class("%s", frames)
	x.NontrivialIf(len(want) > 1)

	all := "yes"
	if len(got) > 1 {
		all = "no"
	}
	h := ref.Set(ref.Head("status"), "allholes", all)
	for _, kv := range c.Flags {
		if kv.K != "allholes" {
			h = ref.Set(h, kv.K, kv.V)
		}
	}
	if stamp != "" {
		h = ref.Set(h, "reqtstamp", "yes")
	}
	var flat []uint64
	for _, w := range want {
		flat = append(flat, w[0], w[1])
	}
	at := 0
	for i, b := range got {
		if len(b) > room {
			return pbt.Errf("status %d of %d has %d bytes, an MTU of %d leaves %d", i+1, len(got), len(b), c.Mtu, room)
		}
		var ts []byte
		head := 8
		if stamp != "" {
			if len(b) < 24 {
				return pbt.Errf("status %d of %d is too short: %x", i+1, len(got), b)
			}
			ts = b[8:24]
			head = 24
			if err := ref.NowStamp(ts, stamp, from, till); err != nil {
				return pbt.Errf("status %d of %d: %v", i+1, len(got), err)
			}
		}
		n := (len(b) - head - 2*size) / size
		if n < 0 || at+n > len(flat) || n%2 != 0 {
			return pbt.Errf("status %d of %d (%x) has %d numbers of holes, %d are left", i+1, len(got), b, n, len(flat)-at)
		}
		if n == 0 && len(got) > 1 {
			return pbt.Errf("status %d of %d names no hole, there are %d", i+1, len(got), len(want))
		}
		exp := ref.Status(h, c.Session, ts, c.Progress, c.Inrespto, flat[at:at+n])
		if !bytes.Equal(b, exp) {
			return pbt.Errf("status %d of %d is\n%x, should be\n%x", i+1, len(got), b, exp)
		}
		at += n
	}
	if at != len(flat) {
		return pbt.Errf("%d of %d holes in %d statuses", at/2, len(flat)/2, len(got))
	}
	return nil
}

// The connection is lost while statuses are sent: it is no success if not all holes are told.
type lcase struct {
	Holes, After int
	Desc         string
}

func genLost(t *rapid.T) lcase {
	return lcase{rapid.IntRange(40, 300).Draw(t, "holes"), rapid.IntRange(1, 10).Draw(t, "after"), gen.Pick(t, "desc", "d16", "d32", "d64")}
}

func runLost(x *pbt.Ctx, c lcase) error {
	lo := net.IPv4(127, 0, 0, 1)
	in, err := net.ListenUDP("udp4", &net.UDPAddr{IP: lo})
	if err != nil {
		return err
	}
	defer in.Close()
	in.SetReadBuffer(4 << 20)
	to := in.LocalAddr().(*net.UDPAddr)
	out, err := net.DialUDP("udp4", nil, to)
	if err != nil {
		return err
	}
	defer out.Close()
	end, err := net.DialUDP("udp4", nil, to)
	if err != nil {
		return err
	}
	defer end.Close()
	old := sarflags.Mtu()
	defer sarflags.MtuSet(old)
	sarflags.MtuSet(68 + 8 + 4*bytesOf(ref.DSize(c.Desc))) // One hole to a frame
	var fills holes.Holes
	for i := 0; i < c.Holes; i++ {
		fills = fills.Add(10*i+1, 10*i+2)
	}
	mark := []byte("end")
	frames := make(chan [][]byte)
	go func() {
		var got [][]byte
		for {
			b := make([]byte, 2000)
			in.SetReadDeadline(time.Now().Add(20 * time.Second))
			n, err := in.Read(b)
			if err != nil || bytes.Equal(b[:n], mark) {
				break
			}
			if got = append(got, b[:n]); len(got) == c.After {
				out.Close()
			}
		}
		frames <- got
	}()
	tr := sarwin.Transfer{Direction: sarwin.Responder, Session: 1, Peer: to, Conn: out, Curfills: fills}
	res := tr.WriteStatus(scr.G, "descriptor="+c.Desc+",errcode=success")
	if _, err := end.Write(mark); err != nil {
		return err
	}
	told := 0
	for _, b := range <-frames {
		told += (len(b)-8)/(2*bytesOf(ref.DSize(c.Desc))) - 1
	}
	if res == "success" && told != c.Holes {
		return pbt.Errf("success, and %d of %d holes were told before the connection was lost", told, c.Holes)
	}
	x.NontrivialIf(told > 0 && told < c.Holes)
	x.Class("all told=%v", told == c.Holes)
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	scr = gui.New(false)
	pbt.Main(t, "C28", pbt.NewPart("holes", 20000, 300000, genCase, run),
		pbt.NewPart("lost", 300, 5000, genLost, runLost))
}
