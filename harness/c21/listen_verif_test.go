// C21: the listener passes on each frame, from whom it came, and answers what it cannot read.
// This file is compiled into /repo's saratoga package through an overlay.
package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"testing"
	"time"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/ref"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarnet"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

const vfMtu = 1500

type vfGram struct {
	From int
	Wire []byte
}
type vfCase struct {
	Grams []vfGram
	V6    bool
	Multi bool // The socket is one for multicasts as well
}

var vfKinds = []string{"beacon", "request", "metadata", "data", "status"}

func vfGen(t *rapid.T) vfCase {
	c := vfCase{V6: gen.Bool(t, "v6"), Multi: gen.Bool(t, "multi")}
	for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
		k := rapid.SampledFrom(vfKinds).Draw(t, "kind")
		w := gen.Wire(t, k)
		switch rapid.IntRange(0, 9).Draw(t, "twist") {
		case 0: // about as long as is taken
			n := vfMtu - 60 + rapid.IntRange(-2, 2).Draw(t, "over")
			for len(w) < n {
				w = append(w, 'x')
			}
			w = w[:n]
		case 1: // far too long
			w = append(w, make([]byte, rapid.IntRange(1400, 3000).Draw(t, "far"))...)
		case 2: // another version or type
			if len(w) > 4 {
				w[0] = rapid.Byte().Draw(t, "first")
			}
		case 3:
			w = w[:min(len(w), rapid.IntRange(7, 13).Draw(t, "len"))]
		}
		c.Grams = append(c.Grams, vfGram{rapid.IntRange(0, 1).Draw(t, "from"), w})
	}
	return c
}

type vfOut struct {
	Ch, Kind, Addr, Says string
}

func (o vfOut) String() string { return fmt.Sprintf("%s %s %s %s", o.Ch, o.Kind, o.Addr, o.Says) }

// vfExpect is what becomes of a datagram, nil if it is dropped.
func vfExpect(w []byte, from string) *vfOut {
	if len(w) < 8 || len(w) > vfMtu-60 {
		return nil
	}
	h := binary.BigEndian.Uint32(w)
	bad := func(hdr, session uint32) *vfOut {
		return &vfOut{"tx", "status", from, fmt.Sprintf("%#x %d  0 0 []", hdr, session)}
	}
	if ref.Name(h, "version") != "v1" {
		return bad(ref.Set(ref.Head("status"), "errcode", "badpacket"), 0)
	}
	kind := ref.Name(h, "frametype")
	if kind == "" {
		return nil
	}
	if dec.Refuse(kind, w) == "" {
		f := dec.New(kind)
		if err := f.Decode(append([]byte{}, w...)); err != nil {
			return &vfOut{"?", kind, from, err.Error()}
		}
		return &vfOut{"rx", kind, from, dec.Meaning(f)}
	}
	if kind == "beacon" || kind == "request" {
		return nil
	}
	s := ref.Set(ref.Head("status"), "errcode", "badpacket")
	s = ref.Set(ref.Set(ref.Set(s, "metadatarecvd", "no"), "allholes", "yes"), "reqholes", "requested")
	s = ref.Set(s, "descriptor", ref.Name(h, "descriptor"))
	return bad(s, binary.BigEndian.Uint32(w[4:8]))
}

func vfSays(ch string, p interface{}) vfOut {
	switch v := p.(type) {
	case beacon.Packet:
		return vfOut{ch, "beacon", v.Addr.String(), dec.Meaning(&v.Info)}
	case request.Packet:
		return vfOut{ch, "request", v.Addr.String(), dec.Meaning(&v.Info)}
	case metadata.Packet:
		return vfOut{ch, "metadata", v.Addr.String(), dec.Meaning(&v.Info)}
	case data.Packet:
		return vfOut{ch, "data", v.Addr.String(), dec.Meaning(&v.Info)}
	case status.Packet:
		return vfOut{ch, "status", v.Addr.String(), dec.Meaning(&v.Info)}
	}
	return vfOut{ch, fmt.Sprintf("%T", p), "", ""}
}

var vfScreen *gui.Screen

func vfRun(x *pbt.Ctx, c vfCase) error {
	if vfScreen == nil {
		vfScreen = gui.New(false)
	}
	sarflags.MtuSet(vfMtu)
	nw, ip := "udp4", net.IPv4(127, 0, 0, 1)
	if c.V6 {
		nw, ip = "udp6", net.IPv6loopback
	}
	conn, err := net.ListenUDP(nw, &net.UDPAddr{IP: ip})
	if err != nil && c.V6 {
		x.Class("no IPv6 here")
		nw, ip = "udp4", net.IPv4(127, 0, 0, 1)
		conn, err = net.ListenUDP(nw, &net.UDPAddr{IP: ip})
	}
	if err != nil {
		return err
	}
	defer func() { go conn.Close() }()
	conn.SetReadBuffer(1 << 20)
	if c.Multi {
		if err := sarnet.SetMulticastLoop(conn); err != nil {
			return pbt.Errf("the socket is not made one for multicasts: %v", err)
		}
	}
	var tx []*net.UDPConn
	for i := 0; i < 2; i++ {
		s, err := net.DialUDP(nw, nil, conn.LocalAddr().(*net.UDPAddr))
		if err != nil {
			return err
		}
		defer s.Close()
		tx = append(tx, s)
	}
	rxc, txc, quit := make(chan interface{}), make(chan interface{}), make(chan error, 1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		listen(vfScreen.G, conn, rxc, txc, quit)
	}()
	// A beacon that is certainly fine marks the end
	mark := ref.Beacon(ref.Head("beacon"), 0, "the mark")
	good := 0
	var want []vfOut
	for _, g := range c.Grams {
		if _, err := tx[g.From].Write(g.Wire); err != nil {
			return err
		}
		if o := vfExpect(g.Wire, tx[g.From].LocalAddr().String()); o != nil {
			want = append(want, *o)
			if o.Ch == "rx" {
				good++
			}
			x.Class("%s %s", o.Ch, o.Kind)
		} else {
			x.Class("dropped")
		}
	}
	x.NontrivialIf(len(want) > 1)
	if _, err := tx[0].Write(mark); err != nil {
		return err
	}
	want = append(want, *vfExpect(mark, tx[0].LocalAddr().String()))
	for i, w := range want {
		var got vfOut
		select {
		case p := <-rxc:
			got = vfSays("rx", p)
		case p := <-txc:
			got = vfSays("tx", p)
		case err := <-quit:
			return pbt.Errf("the listener gave up: %v", err)
		case <-done:
			return pbt.Errf("the listener ended")
		case <-time.After(5 * time.Second):
			return pbt.Errf("nothing passed on, want\n%v", w)
		}
		if got != w {
			return pbt.Errf("passed on, as number %d,\n%v\nwant\n%v", i, got, w)
		}
	}
	// It ends when its socket does, and says so
	go conn.Close()
	select {
	case err := <-quit:
		if err == nil {
			return pbt.Errf("the listener ended without an error")
		}
	case p := <-rxc:
		return pbt.Errf("passed on besides: %v", vfSays("rx", p))
	case p := <-txc:
		return pbt.Errf("answered besides: %v", vfSays("tx", p))
	case <-time.After(5 * time.Second):
		return pbt.Errf("the listener goes on without a socket")
	}
	return nil
}

func TestProp(t *testing.T) {
	os.Setenv("SARDIR", os.Getenv("VERIF_SCRATCH"))
	c := new(sarflags.Cliflags)
	sarflags.Cliflag = c
	cfg := os.Getenv("VERIF_CONFIG")
	if cfg == "" {
		cfg = os.Getenv("VERIF_REPO") + "/saratoga/saratoga.json"
	}
	if err := c.ReadConfig(cfg); err != nil {
		t.Fatal(err)
	}
	pbt.Main(t, "C21", pbt.NewPart("listen", 4000, 60000, vfGen, vfRun))
}
