// Package dec reads bytes with the decoders under test and with the oracles' own rules.
package dec

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"verifharness/ref"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"
)

// Thing is anything with a decoder.
type Thing interface {
	Decode([]byte) error
	Encode() ([]byte, error)
	Print() string
	ShortPrint() string
}

type stamp struct{ t timestamp.Timestamp }

func (s *stamp) Decode(b []byte) error   { return s.t.Get(b) }
func (s *stamp) Encode() ([]byte, error) { return s.t.Put(), nil }
func (s *stamp) Print() string           { return s.t.Print() }
func (s *stamp) ShortPrint() string      { return s.t.Print() }

// New makes an empty thing of a kind.
func New(kind string) Thing {
	switch kind {
	case "beacon":
		return new(beacon.Beacon)
	case "request":
		return new(request.Request)
	case "metadata":
		return new(metadata.MetaData)
	case "data":
		return new(data.Data)
	case "status":
		return new(status.Status)
	case "dirent":
		return new(dirent.DirEnt)
	}
	return new(stamp)
}

// Meaning is everything a decoded thing says.
func Meaning(x Thing) string {
	switch f := x.(type) {
	case *beacon.Beacon:
		return fmt.Sprintf("%#x %d %q", f.Header, f.Freespace, f.Eid)
	case *request.Request:
		return fmt.Sprintf("%#x %d %q %x", f.Header, f.Session, f.Fname, f.Auth)
	case *metadata.MetaData:
		return fmt.Sprintf("%#x %d %x %s", f.Header, f.Session, f.Checksum, Meaning(&f.Dir))
	case *dirent.DirEnt:
		return fmt.Sprintf("%#x %d %d %d %q", f.Header, f.Size, f.Mtime.Secs(), f.Ctime.Secs(), f.Path)
	case *data.Data:
		ts := ""
		if ref.Name(f.Header, "reqtstamp") == "yes" {
			ts = hex.EncodeToString(f.Tstamp.Put())
		}
		return fmt.Sprintf("%#x %d %s %d %x", f.Header, f.Session, ts, f.Offset, f.Payload)
	case *status.Status:
		ts := ""
		if ref.Name(f.Header, "reqtstamp") == "yes" {
			ts = hex.EncodeToString(f.Tstamp.Put())
		}
		return fmt.Sprintf("%#x %d %s %d %d %v", f.Header, f.Session, ts, f.Progress, f.Inrespto, f.Holes)
	case *stamp:
		return hex.EncodeToString(f.t.Put())
	}
	panic("dec: unknown kind")
}

// Refuse says why the bytes are no such thing, "" if they are: something the header announces
// is missing, or is of a kind that is not supported.
func Refuse(kind string, b []byte) string {
	descr := func(h uint32, f string) int { return ref.DSize(ref.Name(h, f)) }
	head := func() uint32 { return uint32(ref.UNum(b[:4])) }
	switch kind {
	case "timestamp":
		if len(b) < 1 {
			return "empty"
		}
		if ref.TsLen(b[0]) == 0 {
			return "unknown timestamp type"
		}
		if len(b) < ref.TsLen(b[0]) {
			return "timestamp cut"
		}
		return ""
	case "beacon":
		if len(b) < 4 {
			return "header cut"
		}
		if ref.Name(head(), "freespace") == "yes" {
			n := descr(head(), "freespaced")
			if n == 0 {
				return "free space descriptor not supported"
			}
			if len(b) < 4+n {
				return "free space cut"
			}
		}
		return ""
	case "request":
		if len(b) < 8 {
			return "header cut"
		}
		if bytes.IndexByte(b[8:], 0) < 0 {
			return "name not ended"
		}
		return ""
	case "data", "status":
		if len(b) < 8 {
			return "header cut"
		}
		n := descr(head(), "descriptor")
		if n == 0 {
			return "descriptor not supported"
		}
		pos := 8
		if ref.Name(head(), "reqtstamp") == "yes" {
			if len(b) < 24 {
				return "timestamp cut"
			}
			if ref.TsLen(b[8]) == 0 {
				return "unknown timestamp type"
			}
			pos = 24
		}
		if kind == "status" {
			n *= 2
		}
		if len(b) < pos+n {
			return "offset cut"
		}
		return ""
	case "metadata":
		if len(b) < 8 {
			return "header cut"
		}
		n := 4 * int(ref.Get(head(), "csumlen"))
		if len(b) < 8+n {
			return "checksum cut"
		}
		return Refuse("dirent", b[8+n:])
	case "dirent":
		if len(b) < 2 {
			return "header cut"
		}
		n := ref.DSize(ref.NameD(uint16(ref.UNum(b[:2])), "descriptor"))
		if n == 0 {
			return "descriptor not supported"
		}
		if len(b) < 2+n+8 {
			return "size or times cut"
		}
		return ""
	}
	panic("dec: unknown kind")
}
