// C29: addresses.
package c29

import (
	"fmt"
	"net"
	"net/netip"
	"slices"
	"strings"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/sarnet"
	"pgregory.net/rapid"
)

const port = 7542

type acase struct {
	S     string
	Valid bool // An address, as the generator wrote it
	IP    []byte
	Zone  string
}

// v6 writes an address in one of the forms it has.
func v6(t *rapid.T, b [16]byte) string {
	a := netip.AddrFrom16(b)
	switch rapid.IntRange(0, 4).Draw(t, "form") {
	case 0:
		return a.StringExpanded()
	case 1:
		return strings.ToUpper(a.StringExpanded())
	case 2: // groups without leading zeros
		var g []string
		for i := 0; i < 16; i += 2 {
			g = append(g, fmt.Sprintf("%x", uint(b[i])<<8|uint(b[i+1])))
		}
		return strings.Join(g, ":")
	case 3: // ends as IPv4 does
		var g []string
		for i := 0; i < 12; i += 2 {
			g = append(g, fmt.Sprintf("%x", uint(b[i])<<8|uint(b[i+1])))
		}
		return strings.Join(g, ":") + fmt.Sprintf(":%d.%d.%d.%d", b[12], b[13], b[14], b[15])
	}
	return a.String()
}

func genAddr(t *rapid.T) acase {
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0, 1:
		var b [4]byte
		for i := range b {
			b[i] = byte(gen.U64(t, "b", 255))
		}
		return acase{S: fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3]), Valid: true, IP: b[:]}
	case 2, 3:
		var b [16]byte
		switch rapid.IntRange(0, 2).Draw(t, "v6kind") {
		case 0:
			for i := range b {
				b[i] = byte(gen.U64(t, "b", 255))
			}
		case 1: // mostly zeros
			for n := rapid.IntRange(0, 4).Draw(t, "set"); n > 0; n-- {
				b[rapid.IntRange(0, 15).Draw(t, "at")] = rapid.Byte().Draw(t, "b")
			}
		case 2:
			b = netip.MustParseAddr(gen.Pick(t, "known", "::1", "::", "ff02::6c", "fe80::1", "2001:db8::8", "::ffff:1.2.3.4")).As16()
		}
		c := acase{S: v6(t, b), Valid: true, IP: b[:]}
		if rapid.IntRange(0, 3).Draw(t, "zoned") == 0 {
			c.S = netip.AddrFrom16(b).StringExpanded()
			c.Zone = gen.Pick(t, "zone", "lo", "eth0", "1", "no-such", "eth0.7")
			if netip.AddrFrom16(b).Is4In6() {
				c.Zone = ""
			} else {
				c.S += "%" + c.Zone
			}
		}
		return c
	}
	// Nothing that could be a name to look up
	return acase{S: gen.Pick(t, "bad", "", "foo", "1", "1.2", "1.2.3", "1:2", "12345", "v4", "v6", "off", "?", "-", "1,2,3", ":", "a:b",
		":::", "1::2::3", "1:2:3", "1:2:3:4:5:6:7:8:9", "::g", "12345::", "::1.2.3", "[::1]", "::1]", "::1 ", "1:2:3:4:5:6:7")}
}

func runAddr(x *pbt.Ctx, c acase) error {
	x.Class("valid %v, %d bytes, zone %v", c.Valid, len(c.IP), c.Zone != "")
	x.NontrivialIf(c.Valid)
	a, err := sarnet.UDPAddress(c.S)
	if !c.Valid {
		if err == nil {
			return pbt.Errf("%q is taken for %v", c.S, a)
		}
		return nil
	}
	if err != nil || a == nil {
		return pbt.Errf("%q: %v, %v", c.S, a, err)
	}
	if !a.IP.Equal(net.IP(c.IP)) || a.Port != port || a.Zone != c.Zone {
		return pbt.Errf("%q gives %v, not %v with the port %d", c.S, a, net.IP(c.IP), port)
	}
	if s := sarnet.UDPinfo(a); s != netip.AddrPortFrom(netip.MustParseAddr(net.IP(c.IP).String()).WithZone(c.Zone), port).String() {
		return pbt.Errf("%q is shown as %q", c.S, s)
	}
	return nil
}

type peer struct {
	A    int
	Port int
	Long bool // IPv4 in the form of 16 bytes
}

var ips = []string{"127.0.0.1", "127.0.0.11", "10.0.0.1", "::1", "::11", "fe80::1", "fe80::1%lo", "fe80::1%eth1"}

func (p peer) addr() net.UDPAddr {
	name, zone, _ := strings.Cut(ips[p.A], "%")
	ip := net.ParseIP(name)
	if i4 := ip.To4(); i4 != nil && !p.Long {
		ip = i4
	}
	return net.UDPAddr{IP: ip, Port: p.Port, Zone: zone}
}
func (p peer) key() string { return fmt.Sprint(ips[p.A], "/", p.Port) }

type rcase struct {
	In  []peer
	Val peer
	Cap int
}

func genPeer(t *rapid.T) peer {
	return peer{rapid.IntRange(0, len(ips)-1).Draw(t, "ip"), gen.Pick(t, "port", port, port, 1, 75), gen.Bool(t, "long")}
}

func genList(t *rapid.T) rcase {
	var c rcase
	c.Val = genPeer(t)
	for i := rapid.IntRange(0, 12).Draw(t, "n"); i > 0; i-- {
		if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
			c.In = append(c.In, c.Val)
		} else {
			c.In = append(c.In, genPeer(t))
		}
	}
	c.Cap = rapid.IntRange(0, 4).Draw(t, "cap")
	return c
}

func runList(x *pbt.Ctx, c rcase) error {
	in := make([]net.UDPAddr, 0, len(c.In)+c.Cap)
	var want, before []string
	for _, p := range c.In {
		a := p.addr()
		in = append(in, a)
		before = append(before, a.String())
		if p.key() != c.Val.key() {
			want = append(want, a.String())
		}
	}
	v := c.Val.addr()
	out := sarnet.RemoveUDPAddrValue(in, &v)
	var got []string
	for i := range out {
		got = append(got, out[i].String())
	}
	x.NontrivialIf(len(want) < len(c.In) && len(want) > 0)
	x.Class("%d removed", len(c.In)-len(want))
	for i := range in {
		if in[i].String() != before[i] {
			return pbt.Errf("taking %v off %v changed the list itself to %v", v.String(), before, in)
		}
	}
	if !slices.Equal(got, want) {
		return pbt.Errf("%v without %v is %v", before, v.String(), got)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C29", pbt.NewPart("address", 40000, 2000000, genAddr, runAddr), pbt.NewPart("list", 40000, 2000000, genList, runList))
}
