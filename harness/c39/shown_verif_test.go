// C39: what arrives at a node, and what comes of it, is shown to its user.
// This file is compiled into /repo's saratoga package through an overlay, with C37's that starts
// main, and with a copy of gocui that tells what gui main made.
package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/jroimartin/gocui"
	"pgregory.net/rapid"
)

// vsKind of a datagram, "" if it cannot be read
func vsKind(w []byte) string {
	if len(w) < 8 || ref.Name(binary.BigEndian.Uint32(w), "version") != "v1" {
		return ""
	}
	k := ref.Name(binary.BigEndian.Uint32(w), "frametype")
	if k == "" || dec.Refuse(k, w) != "" {
		return ""
	}
	return k
}

// vsShort describes it, as the packages do
func vsShort(kind string, w []byte) string {
	w = append([]byte{}, w...)
	switch kind {
	case "beacon":
		var f beacon.Beacon
		f.Decode(w)
		return f.ShortPrint()
	case "data":
		var f data.Data
		f.Decode(w)
		return f.ShortPrint()
	case "metadata":
		var f metadata.MetaData
		f.Decode(w)
		return f.ShortPrint()
	case "request":
		var f request.Request
		f.Decode(w)
		return f.ShortPrint()
	case "status":
		var f status.Status
		f.Decode(w)
		return f.ShortPrint()
	}
	return ""
}

func vsMeta(t *rapid.T) []byte {
	d := gen.Pick(t, "d", "d16", "d32", "d64")
	dh := ref.SetD(0x8000, "descriptor", d)
	n := rapid.StringMatching(`[ -~]{1,120}`).Draw(t, "path")
	return ref.Metadata(ref.Set(ref.Set(ref.Head("metadata"), "descriptor", d), "transfer", gen.Pick(t, "what", "file", "directory")),
		gen.U32(t, "msession"), nil, ref.Dirent(dh, gen.U64(t, "size", ref.DMax(d)), gen.U32(t, "mtime"), gen.U32(t, "ctime"), n))
}

// vsGen draws as C37 does. Text that is not plain is not looked for in the windows, and left out.
func vsGen(t *rapid.T) vmCase {
	c := vmGen(t)
	var last []vmGram // Beacons
	for i := range c.Steps {
		for j := range c.Steps[i] {
			g := &c.Steps[i][j]
			for _, b := range []byte(vsShort(vsKind(g.Wire), g.Wire)) {
				if (b < ' ' && b != '\n') || b > '~' {
					if gen.Bool(t, "meta") {
						g.Wire = vsMeta(t)
					} else {
						g.Wire = vmBeacon(t)
					}
					break
				}
			}
			if vsKind(g.Wire) == "request" {
				g.Wire = append(g.Wire, rapid.StringMatching(`[!-~]{0,12}`).Draw(t, "auth")...)
			}
			if vsKind(g.Wire) == "beacon" {
				if len(last) > 0 && gen.Bool(t, "again") { // one that is no news if nothing else came since
					*g = last[rapid.IntRange(0, len(last)-1).Draw(t, "which")]
				}
				last = append(last, *g)
			}
		}
		for _, g := range c.Steps[i] {
			if vsKind(g.Wire) == "request" && ref.Name(binary.BigEndian.Uint32(g.Wire), "reqtype") != "delete" && rapid.IntRange(0, 3).Draw(t, "twice") == 0 {
				c.Steps[i] = append(c.Steps[i], g)
			}
		}
	}
	return c
}

// vsText waits for what is on its way to the windows and tells what they show.
func vsText(clear bool) (map[string]string, error) {
	gui.Idle(time.Second)
	r := map[string]string{}
	done := make(chan bool)
	gocui.VerifGui.Load().(*gocui.Gui).Update(func(g *gocui.Gui) error {
		for _, n := range []string{"msg", "err", "packet"} {
			if v, err := g.View(n); err == nil {
				r[n] = v.Buffer()
				if clear {
					v.Clear()
					v.SetCursor(0, 0)
				}
			}
		}
		close(done)
		return nil
	})
	select {
	case <-done:
		return r, nil
	case s := <-vmOver:
		return nil, pbt.Errf("the node ended: %s", s)
	case <-time.After(20 * time.Second):
		return nil, pbt.Errf("the windows are not updated within 20 s")
	}
}

var vsMax = 10 * time.Second

type vsCount map[string]int

func (c vsCount) String() string {
	var r []string
	for k, n := range c {
		r = append(r, fmt.Sprintf("%d times %q", n, k))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

var (
	vsEntry  = regexp.MustCompile(`^(Listen )?Rx ?((Beacon|Data|Metadata|Request|Status): 0x)`)
	vsAnswer = regexp.MustCompile(`(?m)^Status: 0x[0-9a-f]+\n *session:(\d+)\n(?: *timestamp:.*\n)? *errcode:(\w+)$`)
	vsTold   = regexp.MustCompile(`(?m)^(Added New Peer|New transfer request from) +(\S+)$`)
	vsFamily = regexp.MustCompile(`(?m)^Need to send (v[46]) .*STATUS`)
	vsAddr   = regexp.MustCompile(`(\d+\.\d+\.\d+\.\d+|\[[0-9a-f:]+\]):\d+`)
)

// vsSeen is what the windows show, in terms of what is expected of them.
func vsSeen(w map[string]string) (vsCount, error) {
	c := vsCount{}
	var cur []string
	add := func() {
		if len(cur) > 0 {
			m := vsEntry.FindStringSubmatchIndex(cur[0])
			if m == nil {
				c["packet: "+strings.Join(cur, "\n")]++
			} else if m[2] < 0 {
				c["packet: "+strings.TrimRight(cur[0][m[4]:]+"\n"+strings.Join(cur[1:], "\n"), "\n")]++
			} else {
				c["also: "+strings.TrimRight(cur[0][m[4]:]+"\n"+strings.Join(cur[1:], "\n"), "\n")]++
			}
		}
		cur = nil
	}
	for _, l := range strings.Split(strings.TrimRight(w["packet"], "\n"), "\n") {
		if vsEntry.MatchString(l) {
			add()
		}
		if l != "" || len(cur) > 0 {
			cur = append(cur, l)
		}
	}
	add()
	for _, l := range strings.Split(strings.TrimRight(w["err"], "\n"), "\n") {
		if a := vsAddr.FindString(l); a != "" {
			c["error: of "+a]++
		} else if l != "" {
			c["error: of none"]++
		}
	}
	for _, m := range vsAnswer.FindAllStringSubmatch(w["msg"], -1) {
		c["answer: session "+m[1]+" "+m[2]]++
	}
	for _, m := range vsFamily.FindAllStringSubmatch(w["msg"], -1) {
		c["answer: over "+m[1]]++
	}
	for _, m := range vsTold.FindAllStringSubmatch(w["msg"], -1) {
		c["told: "+m[1]+" "+m[2]]++
	}
	return c, nil
}

func vsRun(x *pbt.Ctx, c vmCase) error {
	if vmDir == "" {
		if err := vmStart(); err != nil {
			return err
		}
	}
	there, err := vmSetup()
	if err != nil {
		return err
	}
	vmClear()
	peers := map[string]string{}
	trs := map[string]bool{}
	mh := ref.Set(ref.Set(ref.Set(ref.Head("beacon"), "descriptor", "d64"), "rxwilling", "yes"), "txwilling", "yes")
	for n, s := range c.Steps {
		if _, err := vsText(true); err != nil {
			return err
		}
		want := vsCount{}
		beac := func(from *net.UDPAddr, w []byte) {
			var b beacon.Beacon
			b.Decode(append([]byte{}, w...))
			is := fmt.Sprint(b.Freespace, " ", ref.Name(binary.BigEndian.Uint32(w), "descriptor"), ref.Name(binary.BigEndian.Uint32(w), "rxwilling"), ref.Name(binary.BigEndian.Uint32(w), "txwilling"), b.Eid)
			if was, ok := peers[from.IP.String()]; !ok || was != is {
				want["told: Added New Peer "+from.String()]++
				if !strings.HasPrefix(b.Eid, "mark") {
					x.Class("news")
				}
			} else {
				x.Class("no news")
			}
			peers[from.IP.String()] = is
		}
		for _, g := range s {
			i, over := 0, "v4"
			if g.V6 {
				i, over = 1, "v6"
			}
			con := vmTx[i][g.From]
			if _, err := con.Write(g.Wire); err != nil {
				return err
			}
			from := con.LocalAddr().(*net.UDPAddr)
			w := g.Wire
			kind := vsKind(w)
			if kind == "" {
				x.Class("broken v6=%v", g.V6)
				want["error: of "+from.String()]++
				if len(w) >= 8 {
					h := binary.BigEndian.Uint32(w)
					switch k := ref.Name(h, "frametype"); {
					case ref.Name(h, "version") != "v1":
						want["answer: session 0 badpacket"]++
						want["answer: over "+over]++
					case k == "data" || k == "metadata" || k == "status":
						want[fmt.Sprint("answer: session ", binary.BigEndian.Uint32(w[4:8]), " badpacket")]++
						want["answer: over "+over]++
					}
				}
				continue
			}
			x.Class("%s v6=%v", kind, g.V6)
			x.NontrivialIf(true)
			want["packet: "+strings.TrimRight(vsShort(kind, w), "\n")]++
			switch kind {
			case "beacon":
				beac(from, w)
			case "request":
				h := binary.BigEndian.Uint32(w)
				session := binary.BigEndian.Uint32(w[4:8])
				name, _, _ := strings.Cut(string(w[8:]), "\x00")
				ty := ref.Name(h, "reqtype")
				exists := name == "" || there[name]
				rx, tx := ref.Name(h, "rxwilling"), ref.Name(h, "txwilling")
				is := "success"
				switch {
				case ref.Name(h, "udplite") != "no" || ref.Name(h, "stream") != "no":
					is = "badrequest"
				case rx == "invalid":
					is = "cantreceive"
				case tx == "invalid":
					is = "cantsend"
				case ty == "get" || ty == "take" || ty == "getdir":
					if rx != "yes" {
						is = "cantreceive"
					} else if !exists {
						is = "filenotfound"
					}
				case ty == "put" || ty == "give":
					if tx != "yes" {
						is = "cantsend"
					} else if exists {
						is = "fileinuse"
					}
				case ty == "delete":
					switch {
					case name == "":
						is = "didnotdelete"
					case exists:
						delete(there, name)
					default:
						is = "filenotfound"
					}
				default:
					is = "badrequest"
				}
				x.Class("request: %s", is)
				want[fmt.Sprint("answer: session ", session, " ", is)]++
				want["answer: over "+over]++
				if is == "success" {
					if id := fmt.Sprint(from, session); ty == "delete" || !trs[id] {
						want["told: New transfer request from "+from.String()]++
						trs[id] = ty != "delete"
					} else {
						x.Class("asked again")
					}
				} else {
					want["error: of none"]++
				}
			}
		}
		for i, v6 := range []bool{false, true} {
			eid, err := vmSettle(v6, 20*time.Second)
			if err != nil {
				return pbt.Errf("after step %d: %v", n, err)
			}
			w := ref.Beacon(mh, 0, eid)
			want["packet: "+vsShort("beacon", w)]++
			beac(vmMark[i].LocalAddr().(*net.UDPAddr), w)
		}
		look := func() (string, error) {
			w, err := vsText(false)
			if err != nil {
				return "", err
			}
			got, err := vsSeen(w)
			if err != nil {
				return "", err
			}
			// Some are listed twice, once by who reads them
			for k := range got {
				if s, ok := strings.CutPrefix(k, "also: "); ok {
					if got[k] > got["packet: "+s] {
						return fmt.Sprintf("%s\nmore often than what came", got), nil
					}
					delete(got, k)
				}
			}
			if got.String() == want.String() {
				return "", nil
			}
			return got.String(), nil
		}
		bad := ""
		for end := time.Now().Add(vsMax); ; time.Sleep(time.Millisecond) {
			if bad, err = look(); err != nil {
				return err
			}
			if bad == "" || time.Now().After(end) {
				break
			}
		}
		if bad == "" {
			if bad, err = look(); err != nil {
				return err
			}
		}
		if bad != "" {
			vsMax = 2 * time.Second // It has failed, the rest looks for less that fails
			return pbt.Errf("after step %d the windows show\n%s\nwant\n%s", n, bad, want)
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	if vmReady(t) {
		pbt.Main(t, "C39", pbt.NewPart("windows", 1500, 15000, vsGen, vsRun))
	}
}
