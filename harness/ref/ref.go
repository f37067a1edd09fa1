// Package ref is the oracles' own idea of the Saratoga wire format. It shares no code and no
// table with /repo: positions and values are written down here from the protocol description
// (the bit diagrams at the top of sarflags.go and the Saratoga draft).
package ref

import (
	"encoding/binary"
	"fmt"
	"sort"
	"time"
)

type Field struct {
	Len, Msb uint
	Opts     map[string]uint32
}

func seq(names ...string) map[string]uint32 {
	m := map[string]uint32{}
	for i, n := range names {
		m[n] = uint32(i)
	}
	return m
}

var noyes = seq("no", "yes")
var desc = seq("d16", "d32", "d64", "d128")
var willing = seq("no", "invalid", "capable", "yes")

// Flags of the 32 bit frame header.
var Flags = map[string]Field{
	"version":       {3, 0, seq("v0", "v1")},
	"frametype":     {5, 3, seq("beacon", "request", "metadata", "data", "status")},
	"descriptor":    {2, 8, desc},
	"stream":        {1, 11, noyes},
	"transfer":      {2, 10, seq("file", "directory", "bundle", "stream")},
	"reqtstamp":     {1, 12, noyes},
	"progress":      {1, 12, seq("inprogress", "terminated")},
	"txwilling":     {2, 12, willing},
	"metadatarecvd": {1, 13, seq("yes", "no")},
	"allholes":      {1, 14, seq("yes", "no")},
	"rxwilling":     {2, 14, willing},
	"reqholes":      {1, 15, seq("requested", "voluntarily")},
	"reqstatus":     {1, 15, noyes},
	"udplite":       {1, 16, noyes},
	"eod":           {1, 16, noyes},
	"freespace":     {1, 17, noyes},
	"freespaced":    {2, 18, desc},
	"reliability":   {1, 13, seq("udponly", "udplite")},
	"csumlen":       {4, 24, map[string]uint32{"none": 0, "crc32": 1, "md5": 4, "sha1": 5}},
	"csumtype":      {4, 28, seq("none", "crc32", "md5", "sha1")},
	"reqtype":       {8, 24, seq("noaction", "get", "put", "take", "give", "delete", "getdir")},
	"errcode": {8, 24, seq("success", "unspecified", "cantsend", "cantreceive", "filenotfound",
		"accessdenied", "unknownid", "didnotdelete", "filetobig", "badoffset", "badpacket",
		"badrequest", "internaltimeout", "baddataflag", "rxnotinterested", "fileinuse",
		"metadatarequired", "badstatus", "rxtimeout")},
}

// Fields of each frame, as far as they are given in its header.
var FrameFields = map[string][]string{
	"beacon":   {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"},
	"request":  {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite"},
	"metadata": {"version", "frametype", "descriptor", "transfer", "progress", "reliability", "csumlen", "csumtype"},
	"data":     {"version", "frametype", "descriptor", "transfer", "reqtstamp", "reqstatus", "eod"},
	"status":   {"version", "frametype", "descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"},
}

// DFlags of the 16 bit directory entry header.
var DFlags = map[string]Field{
	"sod":        {1, 0, map[string]uint32{"sod": 1}},
	"property":   {2, 6, seq("normalfile", "normaldirectory", "specialfile", "specialdirectory")},
	"descriptor": {2, 8, desc},
	"reserved":   {1, 10, map[string]uint32{"reserved": 0}},
}

// TTypes is the first byte of a timestamp.
var TTypes = map[string]uint8{"localinterp": 0, "posix32": 1, "posix64": 2, "posix32_32": 3, "posix64_32": 4, "epoch2000_32": 5}

func Opts(f string) []string { return keys(Flags[f].Opts) }
func keys(m map[string]uint32) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
func DOpts(f string) []string { return keys(DFlags[f].Opts) }
func FieldNames() []string {
	var s []string
	for k := range Flags {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func (f Field) shift(width uint) uint { return width - f.Msb - f.Len }
func (f Field) mask() uint64          { return 1<<f.Len - 1 }

// SetN puts n in a field.
func SetN(h uint32, field string, n uint32) uint32 {
	f := Flags[field]
	return h&^uint32(f.mask()<<f.shift(32)) | n<<f.shift(32)
}

// Set puts a named value in a field.
func Set(h uint32, field, opt string) uint32 {
	n, ok := Flags[field].Opts[opt]
	if !ok {
		panic("ref: " + field + "=" + opt)
	}
	return SetN(h, field, n)
}
func Get(h uint32, field string) uint32 {
	f := Flags[field]
	return uint32(uint64(h) >> f.shift(32) & f.mask())
}

// Name of the value a field has, "" if it has none.
func Name(h uint32, field string) string { return nameof(Flags[field].Opts, Get(h, field)) }
func nameof(m map[string]uint32, n uint32) string {
	for k, v := range m {
		if v == n {
			return k
		}
	}
	return ""
}
func SetD(h uint16, field, opt string) uint16 {
	n, ok := DFlags[field].Opts[opt]
	if !ok {
		panic("ref: dirent " + field + "=" + opt)
	}
	f := DFlags[field]
	return h&^uint16(f.mask()<<f.shift(16)) | uint16(n)<<f.shift(16)
}
func GetD(h uint16, field string) uint16 {
	f := DFlags[field]
	return uint16(uint64(h) >> f.shift(16) & f.mask())
}
func NameD(h uint16, field string) string { return nameof(DFlags[field].Opts, uint32(GetD(h, field))) }

// Head is a version 1 header of a kind of frame.
func Head(frametype string) uint32 { return Set(Set(0, "version", "v1"), "frametype", frametype) }

// DSize is the number of bytes of a descriptor, 0 if it is not supported.
func DSize(d string) int {
	switch d {
	case "d16":
		return 2
	case "d32":
		return 4
	case "d64":
		return 8
	}
	return 0
}

// DMax is the largest number a descriptor holds.
func DMax(d string) uint64 {
	switch d {
	case "d16":
		return 1<<16 - 1
	case "d32":
		return 1<<32 - 1
	}
	return 1<<64 - 1
}

// Num writes v in the n bytes of a descriptor, most significant first.
func Num(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	if v != 0 {
		panic("ref: number does not fit")
	}
	return b
}
func UNum(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func cat(p ...[]byte) []byte {
	b := []byte{}
	for _, x := range p {
		b = append(b, x...)
	}
	return b
}

// Data is the encoding of a data frame; ts is its 16 byte timestamp or empty.
func Data(h, session uint32, ts []byte, offset uint64, payload []byte) []byte {
	return cat(be32(h), be32(session), ts, Num(offset, DSize(Name(h, "descriptor"))), payload)
}

// Status is the encoding of a status frame, holes are start, end, start, end...
func Status(h, session uint32, ts []byte, progress, inrespto uint64, holes []uint64) []byte {
	n := DSize(Name(h, "descriptor"))
	b := cat(be32(h), be32(session), ts, Num(progress, n), Num(inrespto, n))
	for _, x := range holes {
		b = append(b, Num(x, n)...)
	}
	return b
}

// Request is the encoding of a request frame.
func Request(h, session uint32, fname string, auth []byte) []byte {
	return cat(be32(h), be32(session), []byte(fname), []byte{0}, auth)
}

// Beacon is the encoding of a beacon frame.
func Beacon(h uint32, free uint64, eid string) []byte {
	b := be32(h)
	if Name(h, "freespace") == "yes" {
		b = append(b, Num(free, DSize(Name(h, "freespaced")))...)
	}
	return append(b, eid...)
}

// Dirent is the encoding of a directory entry.
func Dirent(h uint16, size uint64, mtime, ctime uint32, path string) []byte {
	return cat(binary.BigEndian.AppendUint16(nil, h), Num(size, DSize(NameD(h, "descriptor"))),
		be32(mtime), be32(ctime), []byte(path), []byte{0})
}

// Metadata is the encoding of a metadata frame.
func Metadata(h, session uint32, csum, dir []byte) []byte {
	return cat(be32(h), be32(session), csum, dir)
}

// Epoch2000 is 2000-01-01 in Unix seconds.
const Epoch2000 = 946684800

// Tstamp is the encoding of an instant; ok is false if the type cannot hold it.
func Tstamp(ttype string, at time.Time) (b []byte, ok bool) {
	b = make([]byte, 16)
	b[0] = TTypes[ttype]
	s := at.Unix()
	switch ttype {
	case "posix32":
		if s < 0 || s > 1<<32-1 {
			return nil, false
		}
		copy(b[1:], Num(uint64(s), 4))
	case "posix64":
		copy(b[1:], Num(uint64(s), 8))
	case "posix32_32":
		if s < 0 || s > 1<<32-1 {
			return nil, false
		}
		copy(b[1:], Num(uint64(s), 4))
		copy(b[5:], Num(uint64(at.Nanosecond()), 4))
	case "posix64_32":
		copy(b[1:], Num(uint64(s), 8))
		copy(b[9:], Num(uint64(at.Nanosecond()), 4))
	case "epoch2000_32":
		s -= Epoch2000
		if s < 0 || s > 1<<32-1 {
			return nil, false
		}
		copy(b[1:], Num(uint64(s), 4))
	case "localinterp":
		copy(b[1:15], "localinterp")
	}
	return b, true
}

// TsLen is how many of the 16 bytes a timestamp of the type uses, 0 for an unknown type.
func TsLen(t byte) int {
	switch t {
	case 0:
		return 15
	case 1, 5:
		return 5
	case 2, 3:
		return 9
	case 4:
		return 13
	}
	return 0
}

// TsCanon is the 16 bytes with what the type does not use zeroed.
func TsCanon(b []byte) []byte {
	c := make([]byte, 16)
	copy(c, b[:TsLen(b[0])])
	return c
}

// NowStamp says whether the 16 bytes are a timestamp of the type for an instant between from
// and to.
func NowStamp(b []byte, ttype string, from, to time.Time) error {
	if len(b) != 16 {
		return fmt.Errorf("timestamp of %d bytes", len(b))
	}
	if b[0] != TTypes[ttype] {
		return fmt.Errorf("timestamp type byte %d is not %s", b[0], ttype)
	}
	if ttype == "localinterp" {
		return nil
	}
	var s int64
	switch ttype {
	case "posix32", "posix32_32":
		s = int64(UNum(b[1:5]))
	case "posix64", "posix64_32":
		s = int64(UNum(b[1:9]))
	case "epoch2000_32":
		s = int64(UNum(b[1:5])) + Epoch2000
	}
	if s < from.Unix() || s > to.Unix() {
		return fmt.Errorf("timestamp %x says second %d, it was made in [%d,%d]", b, s, from.Unix(), to.Unix())
	}
	switch ttype {
	case "posix32_32":
		s = int64(UNum(b[5:9]))
	case "posix64_32":
		s = int64(UNum(b[9:13]))
	default:
		s = 0
	}
	if s > 999999999 {
		return fmt.Errorf("timestamp %x has %d nanoseconds", b, s)
	}
	for _, x := range b[TsLen(b[0]):] {
		if x != 0 {
			return fmt.Errorf("timestamp %x has bytes set its type does not use", b)
		}
	}
	return nil
}
