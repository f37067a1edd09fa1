package gen

import (
	"verifharness/ref"

	"pgregory.net/rapid"
)

// Kinds of things that are decoded.
var Kinds = []string{"beacon", "request", "metadata", "data", "status", "dirent", "timestamp"}

// Frame draws the bytes of a well formed frame (or directory entry, or timestamp).
func Frame(t *rapid.T, kind string) []byte {
	h := U32(t, "header")
	if kind != "dirent" && kind != "timestamp" {
		h = ref.Set(ref.Set(h, "version", "v1"), "frametype", kind)
	}
	s := U32(t, "session")
	d := Pick(t, "d", "d16", "d32", "d64")
	stamp := func() []byte {
		b := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "stamp")
		b[0] = byte(rapid.IntRange(0, 5).Draw(t, "ts"))
		return b
	}
	dir := func() []byte {
		dh := ref.SetD(uint16(U64(t, "dh", 1<<16-1)), "descriptor", d)
		return ref.Dirent(dh, U64(t, "size", ref.DMax(d)), U32(t, "mtime"), U32(t, "ctime"), string(Name(t, "path", 1024)))
	}
	switch kind {
	case "beacon":
		h = ref.Set(h, "freespaced", d)
		return ref.Beacon(h, U64(t, "free", ref.DMax(d)), string(Name(t, "eid", 1200)))
	case "request":
		return ref.Request(h, s, string(Name(t, "fname", 1300)), Bytes(t, "auth", 600))
	case "metadata":
		c := Pick(t, "csum", "none", "crc32", "md5", "sha1")
		h = ref.Set(ref.Set(h, "csumtype", c), "csumlen", c)
		n := 4 * int(ref.Get(h, "csumlen"))
		return ref.Metadata(h, s, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "sum"), dir())
	case "data", "status":
		h = ref.Set(h, "descriptor", d)
		var ts []byte
		if ref.Name(h, "reqtstamp") == "yes" {
			ts = stamp()
		}
		if kind == "data" {
			return ref.Data(h, s, ts, U64(t, "offset", ref.DMax(d)), Bytes(t, "payload", 9000))
		}
		var holes []uint64
		for i := 2 * rapid.IntRange(0, 5).Draw(t, "holes"); i > 0; i-- {
			holes = append(holes, U64(t, "hole", ref.DMax(d)))
		}
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			a := rapid.Uint64().Draw(t, "holes.pat")
			for i := 2 * Len(t, "holes.n", 500); i > 0; i-- {
				a = a*6364136223846793005 + 1442695040888963407
				holes = append(holes, (a^a>>32)%(ref.DMax(d)/2+1))
			}
		}
		return ref.Status(h, s, ts, U64(t, "progress", ref.DMax(d)), U64(t, "inrespto", ref.DMax(d)), holes)
	case "dirent":
		return dir()
	}
	return stamp()
}

// Wire draws bytes as they may come off the network: well formed, cut short, damaged,
// extended, or noise.
func Wire(t *rapid.T, kind string) []byte {
	k := rapid.IntRange(0, 7).Draw(t, "wire.kind")
	if k == 0 {
		b := Bytes(t, "noise", 200)
		if len(b) >= 4 && kind != "dirent" && kind != "timestamp" && Bool(t, "noise.head") {
			b[0] = byte(ref.Head(kind) >> 24)
		}
		return b
	}
	b := Frame(t, kind)
	switch k {
	case 1, 2: // cut anywhere, but mostly in the fixed part
		n := len(b)
		if Bool(t, "cut.early") {
			n = min(n, 48)
		}
		b = b[:rapid.IntRange(0, n).Draw(t, "cut")]
	case 3, 4: // damaged
		for i := rapid.IntRange(1, 4).Draw(t, "flips"); i > 0 && len(b) > 0; i-- {
			p := rapid.IntRange(0, min(len(b), 40)-1).Draw(t, "at")
			b[p] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
		}
	case 5: // damaged, then cut
		if len(b) > 0 {
			p := rapid.IntRange(0, min(len(b), 12)-1).Draw(t, "at")
			b[p] = rapid.Byte().Draw(t, "byte")
		}
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
	case 6: // extended
		b = append(b, Bytes(t, "more", 60)...)
	}
	return b
}
