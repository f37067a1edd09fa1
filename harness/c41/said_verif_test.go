// C41: what a node says of itself when it starts.
// This file is compiled into /repo's saratoga package through an overlay, with the terminal of C38.
package main

import (
	"fmt"
	"math"
	"net"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/pbt"

	"pgregory.net/rapid"
)

// vdIfaces is what a node can run on here.
var vdIfaces = func() []string {
	r := []string{"lo"}
	ifs, _ := net.Interfaces()
	for i := range ifs {
		c6, err := net.ListenMulticastUDP("udp6", &ifs[i], &net.UDPAddr{IP: net.ParseIP("ff02::6c")})
		if err != nil {
			continue
		}
		c6.Close()
		c4, err := net.ListenMulticastUDP("udp4", &ifs[i], &net.UDPAddr{IP: net.IPv4(224, 0, 0, 108)})
		if err != nil {
			continue
		}
		c4.Close()
		if ifs[i].Name != "lo" {
			r = append(r, ifs[i].Name)
		}
	}
	return r
}()

func vdGen(t *rapid.T) vtCase {
	c := vtCase{Cols: rapid.IntRange(160, 240).Draw(t, "cols"), Rows: rapid.IntRange(70, 110).Draw(t, "rows"), Rel: gen.Bool(t, "rel"), InConf: gen.Bool(t, "in config")}
	for i := rapid.IntRange(1, 3).Draw(t, "levels"); i > 0; i-- {
		if c.Name != "" {
			c.Name += "/"
		}
		c.Name += gen.Pick(t, "name", "a", "sardir", "%d", "100%", "%s%n", "with-dash", "x.y", "UPPER", "node", "a_b", "[1]", "~")
	}
	c.Iface = gen.Pick(t, "iface", vdIfaces...)
	c.Prompt = gen.Pick(t, "prompt", "saratoga", "s", "node", "%d", "a-long-prompt", "N1")
	return c
}

// vdSaid is what the terminal shows, without blanks and borders.
func vdSaid(p *vtProc) []string {
	var r []string
	for _, l := range strings.Split(p.scr.text(), "\n") {
		for _, f := range strings.FieldsFunc(strings.ReplaceAll(l, " ", ""), func(c rune) bool { return c >= 0x2500 && c < 0x2580 }) {
			r = append(r, f)
		}
	}
	return r
}

var (
	vdSpace = regexp.MustCompile(`^Availablespaceis([0-9]+)MB$`)
	vdGroup = regexp.MustCompile(`^Multicast(.*)Net:.*$`)
)

func vdRun(x *pbt.Ctx, c vtCase) error {
	if !slices.Contains(vdIfaces, c.Iface) {
		c.Iface = "lo"
	}
	groups := func() (r []string) {
		if ifi, err := net.InterfaceByName(c.Iface); err == nil {
			as, _ := ifi.MulticastAddrs()
			for _, a := range as {
				r = append(r, a.String())
			}
		}
		return r
	}
	space := func() (int64, error) {
		var fs syscall.Statfs_t
		err := syscall.Statfs(pbt.Scratch, &fs)
		return int64(uint64(fs.Bsize) * fs.Bavail / 1024 / 1024), err
	}
	dir, err := filepath.EvalSymlinks(pbt.Scratch)
	if err != nil {
		return err
	}
	if dir != pbt.Scratch {
		return fmt.Errorf("scratch is behind a link")
	}
	g0, ifi := groups(), (*net.Interface)(nil)
	if ifi, err = net.InterfaceByName(c.Iface); err != nil {
		return err
	}
	s0, err := space()
	if err != nil {
		return err
	}
	p, err := vtStart(c)
	if err != nil {
		return err
	}
	defer p.close()
	want := []string{
		"SaratogaDirectoryis" + pbt.Scratch + "/node/" + c.Name,
		fmt.Sprintf("%sMTU%d%s:", ifi.Name, ifi.MTU, ifi.Flags),
		fmt.Sprintf("SaratogaIPv6MulticastListenerstartedon[ff02::6c]:%d", p.port),
		fmt.Sprintf("SaratogaIPv4MulticastListenerstartedon224.0.0.108:%d", p.port),
		"MaximumDescriptoris:d64",
		c.Prompt + "[0]:",
	}
	for n, v := range map[string]uint64{"MaxInt": math.MaxInt, "MaxUint": math.MaxUint, "MaxInt16": math.MaxInt16, "MaxUint16": math.MaxUint16,
		"MaxInt32": math.MaxInt32, "MaxUint32": math.MaxUint32, "MaxInt64": math.MaxInt64, "MaxUint64": math.MaxUint64} {
		want = append(want, fmt.Sprintf("%s=%d", n, v))
	}
	as, err := ifi.Addrs()
	if err != nil {
		return err
	}
	for _, a := range as {
		want = append(want, "Unicast"+a.String()+a.Network())
	}
	var said []string
	lacks := ""
	was, end := "", time.Now().Add(vtWait)
	for ; ; time.Sleep(2 * time.Millisecond) {
		if err := p.alive(); err != nil {
			return err
		}
		if s := p.scr.text(); s != was && strings.Contains(s, "[0]:") { // It says more as long as more is shown
			was, end = s, time.Now().Add(3*time.Second)
		}
		said, lacks = vdSaid(p), ""
		for _, w := range want {
			if !slices.Contains(said, strings.ReplaceAll(w, " ", "")) {
				lacks = w
			}
		}
		if lacks == "" && slices.ContainsFunc(said, vdSpace.MatchString) {
			break
		}
		if time.Now().After(end) {
			return pbt.Errf("the node does not say %q, or its space; the terminal shows\n%s", lacks, p.scr.text())
		}
	}
	s1, err := space()
	if err != nil {
		return err
	}
	g1 := groups()
	shown := map[string]bool{}
	n := 0
	for _, l := range said {
		if m := vdSpace.FindStringSubmatch(l); m != nil {
			var is int64
			fmt.Sscan(m[1], &is)
			if is < min(s0, s1)-512 || is > max(s0, s1)+512 {
				return pbt.Errf("the space said is %d MB, there are %d, then %d", is, s0, s1)
			}
		}
		if m := vdGroup.FindStringSubmatch(l); m != nil {
			shown[m[1]] = true
			if a := m[1]; !slices.Contains(g0, a) && !slices.Contains(g1, a) && a != "224.0.0.108" && a != "ff02::6c" {
				return pbt.Errf("the node says that %s is a group of %s, where there are %q", a, c.Iface, g1)
			}
		}
		if strings.HasPrefix(l, "Unicast") {
			n++
		}
	}
	for _, a := range []string{"224.0.0.1", "ff02::1"} { // Others come and go with the other nodes of this check
		if slices.Contains(g0, a) && slices.Contains(g1, a) && !shown[a] {
			for end := time.Now().Add(5 * time.Second); !strings.Contains(p.scr.text(), "Multicast "+a+" ") && time.Now().Before(end); {
				time.Sleep(2 * time.Millisecond)
			}
			if s := p.scr.text(); !strings.Contains(s, "Multicast "+a+" ") {
				return pbt.Errf("the node does not say that %s is a group of %s; the terminal shows\n%s", a, c.Iface, s)
			}
		}
	}
	if n != len(as) {
		return pbt.Errf("%d addresses of %s are said, there are %d; the terminal shows\n%s", n, c.Iface, len(as), p.scr.text())
	}
	x.Class("on %s", c.Iface)
	x.Class("directory: relative %v, of the configuration %v", c.Rel, c.InConf)
	x.NontrivialIf(c.Rel || c.InConf || strings.ContainsAny(c.Name, "%/") || c.Iface != "lo" || c.Prompt != "saratoga")
	return nil
}

func TestProp(t *testing.T) {
	pbt.Main(t, "C41", pbt.NewPart("said", 100, 3000, vdGen, vdRun))
}
