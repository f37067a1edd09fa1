// C33: sending a frame puts exactly its encoding, in one datagram, on the way to the peer.
package c33

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"testing"
	"time"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

type send struct {
	Kind string
	Wire []byte
	To   int // Which of the receivers
	Conn int // 0: not connected; else connected to it
	Bad  bool
}
type tcase struct{ Sends []send }

func genCase(t *rapid.T) tcase {
	var c tcase
	for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
		k := gen.Pick(t, "kind", "beacon", "request", "metadata", "data", "status")
		s := send{Kind: k, Wire: gen.Frame(t, k), To: rapid.IntRange(0, 2).Draw(t, "to"), Conn: rapid.IntRange(0, 1).Draw(t, "connected")}
		s.Bad = k != "request" && rapid.IntRange(0, 4).Draw(t, "bad") == 0
		c.Sends = append(c.Sends, s)
	}
	return c
}

var rx []*net.UDPConn         // receivers
var tx []*net.UDPConn         // connected to each of them
var free *net.UDPConn         // not connected
var dead *net.UDPConn         // closed
const quiet = 3 * time.Second // for what is on its way; loopback delivers at once

func open() error {
	if rx != nil {
		return nil
	}
	lo := net.IPv4(127, 0, 0, 1)
	for i := 0; i < 3; i++ {
		r, err := net.ListenUDP("udp4", &net.UDPAddr{IP: lo})
		if err != nil {
			return err
		}
		r.SetReadBuffer(1 << 20)
		rx = append(rx, r)
		c, err := net.DialUDP("udp4", nil, r.LocalAddr().(*net.UDPAddr))
		if err != nil {
			return err
		}
		tx = append(tx, c)
	}
	var err error
	if free, err = net.ListenUDP("udp4", &net.UDPAddr{IP: lo}); err != nil {
		return err
	}
	if dead, err = net.ListenUDP("udp4", &net.UDPAddr{IP: lo}); err != nil {
		return err
	}
	return dead.Close()
}

func do(x dec.Thing, conn *net.UDPConn, to *net.UDPAddr) error {
	switch f := x.(type) {
	case *beacon.Beacon:
		return f.Send(conn)
	case *request.Request:
		return f.Send(conn, to)
	case *metadata.MetaData:
		return f.Send(conn, to)
	case *data.Data:
		return f.Send(conn, to)
	case *status.Status:
		return f.Send(conn, to)
	}
	panic("kind")
}

// spoil gives a frame a number it has no room for.
func spoil(x dec.Thing) {
	switch f := x.(type) {
	case *beacon.Beacon:
		f.Header = ref.Set(ref.Set(f.Header, "freespace", "yes"), "freespaced", "d128")
	case *metadata.MetaData:
		f.Dir.Header = ref.SetD(f.Dir.Header, "descriptor", "d16")
		f.Dir.Size = 1 << 20
	case *data.Data:
		f.Header = ref.Set(f.Header, "descriptor", "d16")
		f.Offset = 1 << 20
	case *status.Status:
		f.Header = ref.Set(f.Header, "descriptor", "d32")
		f.Progress = 1 << 40
	}
}

// next is the next datagram at a receiver.
func next(r *net.UDPConn, wait time.Duration) ([]byte, net.Addr, error) {
	b := make([]byte, 70000)
	r.SetReadDeadline(time.Now().Add(wait))
	n, from, err := r.ReadFromUDP(b)
	return b[:n], from, err
}

func run(x *pbt.Ctx, c tcase) (err error) {
	if err := open(); err != nil {
		return err
	}
	defer func() {
		if err != nil { // Nothing of this case is left for the next one
			for i := range rx {
				rx[i].Close()
				tx[i].Close()
			}
			free.Close()
			rx, tx = nil, nil
		}
	}()
	type want struct {
		b    []byte
		from string
	}
	exp := make([][]want, len(rx))
	for i, s := range c.Sends {
		f := dec.New(s.Kind)
		if err := f.Decode(s.Wire); err != nil {
			return pbt.Errf("%s: Decode: %v", s.Kind, err)
		}
		if s.Bad {
			spoil(f)
		}
		before := dec.Meaning(f)
		enc, eerr := f.Encode()
		conn := free
		if s.Conn == 1 || s.Kind == "beacon" { // beacons go over connected sockets only
			conn = tx[s.To]
		}
		err := do(f, conn, rx[s.To].LocalAddr().(*net.UDPAddr))
		if (err == nil) != (eerr == nil) {
			return pbt.Errf("send %d: %s sent with %v, its encoding: %v", i, s.Kind, err, eerr)
		}
		if s.Bad != (err != nil) {
			return pbt.Errf("send %d: %s that can be encoded %v: %v", i, s.Kind, !s.Bad, err)
		}
		if dec.Meaning(f) != before {
			return pbt.Errf("send %d: sending changed the frame", i)
		}
		if err == nil {
			exp[s.To] = append(exp[s.To], want{enc, conn.LocalAddr().String()})
		}
		x.Class("%s connected=%v bad=%v", s.Kind, conn != free, s.Bad)
		if err := do(f, dead, rx[s.To].LocalAddr().(*net.UDPAddr)); err == nil {
			return pbt.Errf("send %d: %s sent over a closed socket without an error", i, s.Kind)
		}
	}
	x.NontrivialIf(len(c.Sends) > 1)
	// A mark behind them tells when all is there
	for r := range rx {
		mark := []byte(fmt.Sprintf("mark %d", time.Now().UnixNano()))
		if _, err := free.WriteTo(mark, rx[r].LocalAddr()); err != nil {
			return err
		}
		for k := 0; ; k++ {
			b, from, err := next(rx[r], quiet)
			if errors.Is(err, os.ErrDeadlineExceeded) {
				return pbt.Errf("receiver %d got %d datagrams of %d and no mark", r, k, len(exp[r]))
			}
			if err != nil {
				return err
			}
			if bytes.Equal(b, mark) {
				if k != len(exp[r]) {
					return pbt.Errf("receiver %d got %d datagrams, %d frames were sent to it", r, k, len(exp[r]))
				}
				break
			}
			if k >= len(exp[r]) {
				return pbt.Errf("receiver %d got %d bytes %x that were not to be sent to it", r, len(b), b)
			}
			if !bytes.Equal(b, exp[r][k].b) || from.String() != exp[r][k].from {
				return pbt.Errf("receiver %d got from %s\n%x\nwant from %s\n%x", r, from, b, exp[r][k].from, exp[r][k].b)
			}
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C33", pbt.NewPart("send", 5000, 60000, genCase, run))
}
