// C34: a frame is not made of flags that do not exist or do not apply.
package c34

import (
	"os"
	"slices"
	"strings"
	"sync"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

// The flags each frame can be made with.
var takes = map[string][]string{
	"beacon":   {"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"},
	"request":  {"descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite"},
	"metadata": {"descriptor", "progress", "reliability", "csumtype"},
	"data":     {"descriptor", "transfer", "reqtstamp", "reqstatus", "eod"},
	"status":   {"descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"},
	"dirent":   {"descriptor", "property"},
}

// Names whose standing in some frame is not clear cut: not used as bad ones there.
var leave = map[string][]string{
	"beacon":   {},
	"request":  {"fileordir"},
	"metadata": {"csumlen", "transfer"},
	"data":     {},
	"status":   {"stream"},
	"dirent":   {"sod", "reserved"},
}

var kinds = []string{"beacon", "request", "metadata", "data", "status", "dirent"}
var tstypes = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

func opts(kind, k string) []string {
	switch {
	case kind == "dirent" && k == "descriptor":
		return []string{"d64"}
	case kind == "dirent":
		return []string{"normalfile"}
	case kind == "metadata" && k == "descriptor":
		return []string{"d16", "d32", "d64"}
	case kind == "data" && k == "transfer":
		return []string{"file", "directory", "stream"}
	case k == "freespaced":
		return []string{"d16", "d32", "d64"}
	case kind == "data" && k == "reqtstamp":
		return append([]string{"no", "yes"}, tstypes...)
	}
	return ref.Opts(k)
}

// bare stands for no value, and no =, at all.
const bare = "<none>"

func list(f []gen.KV, spaced bool) string {
	return strings.ReplaceAll(gen.FlagStr(f, spaced), "="+bare, "")
}

type tcase struct {
	Kind   string
	Good   []gen.KV
	Bad    gen.KV
	Why    string
	At     int
	Spaced bool
}

func word(t *rapid.T, label string) string {
	if gen.Bool(t, label+".mut") {
		// Something that looks like a name there is
		all := append(ref.FieldNames(), tstypes...)
		all = append(all, "yes", "no", "d16", "d32", "d64", "get", "crc32", "file", "capable")
		s := rapid.SampledFrom(all).Draw(t, label+".like")
		switch rapid.IntRange(0, 4).Draw(t, label+".how") {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return s + "x"
		case 2:
			return s[:len(s)-1]
		case 3:
			return strings.ToUpper(s[:1]) + s[1:]
		}
		return s
	}
	return rapid.StringMatching(`[a-z_0-9]{1,12}`).Draw(t, label)
}

func genCase(t *rapid.T) tcase {
	c := tcase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Spaced: gen.Bool(t, "spaced")}
	c.Good = gen.Flags(t, "good", takes[c.Kind], func(k string) []string { return opts(c.Kind, k) })
	known := append(append(append([]string{"version", "frametype"}, takes[c.Kind]...), leave[c.Kind]...), tstypes...)
	switch rapid.IntRange(0, 3).Draw(t, "why") {
	case 0:
		c.Why = "unknown name"
		c.Bad = gen.KV{K: word(t, "name"), V: word(t, "value")}
		if _, ok := ref.Flags[c.Bad.K]; ok || slices.Contains(known, c.Bad.K) {
			c.Bad.K = "no" + c.Bad.K
		}
		if c.Bad.K == "" {
			c.Bad.K = "none"
		}
	case 1:
		c.Why = "name of another frame"
		var o []string
		for _, k := range ref.FieldNames() {
			if !slices.Contains(known, k) {
				o = append(o, k)
			}
		}
		k := rapid.SampledFrom(o).Draw(t, "other")
		c.Bad = gen.KV{K: k, V: rapid.SampledFrom(ref.Opts(k)).Draw(t, "value")}
	case 2:
		c.Why = "value it cannot have"
		k := rapid.SampledFrom(takes[c.Kind]).Draw(t, "flag")
		v := word(t, "value")
		has := append([]string{"invalid"}, opts(c.Kind, k)...)
		if c.Kind == "dirent" {
			has = append(has, ref.DOpts(k)...)
		} else if k != "transfer" && k != "freespaced" {
			has = append(has, ref.Opts(k)...)
		}
		for slices.Contains(has, v) {
			v += "z"
		}
		if c.Kind == "data" && k == "transfer" && gen.Bool(t, "bundle") {
			v = "bundle"
		}
		if k == "freespaced" && gen.Bool(t, "d128") {
			v = "d128"
		}
		c.Bad = gen.KV{K: k, V: v}
	case 3:
		c.Why = "name without a value"
		k := gen.Pick(t, "bare", append(ref.FieldNames(), takes[c.Kind]...)...)
		if rapid.IntRange(0, 3).Draw(t, "bareword") == 0 {
			k = word(t, "name")
		}
		if slices.Contains(tstypes, k) {
			k = "reqtstamp"
		}
		c.Bad = gen.KV{K: k, V: bare}
	}
	c.At = rapid.IntRange(0, len(c.Good)).Draw(t, "at")
	return c
}

func build(kind, flags string) error {
	switch kind {
	case "beacon":
		return new(beacon.Beacon).New(flags, &beacon.Binfo{Freespace: 1000, Eid: "me"})
	case "request":
		return new(request.Request).New(flags, &request.Rinfo{Session: 1, Fname: "f", Auth: []byte("a")})
	case "metadata":
		return new(metadata.MetaData).New(flags, &metadata.Minfo{Session: 1, Fname: "afile"})
	case "data":
		return new(data.Data).New(flags, &data.Dinfo{Session: 1, Offset: 2, Payload: []byte("p")})
	case "status":
		return new(status.Status).New(flags, &status.Sinfo{Session: 1})
	}
	return new(dirent.DirEnt).New(flags, "afile")
}

var prepare = sync.OnceValue(func() error {
	if _, err := sar.Sardir("dir"); err != nil {
		return err
	}
	return os.WriteFile("afile", []byte("content"), 0o644)
})

func run(x *pbt.Ctx, c tcase) error {
	if err := prepare(); err != nil {
		return err
	}
	x.Class("%s: %s", c.Kind, c.Why)
	x.NontrivialIf(len(c.Good) > 0)
	good := slices.Clone(c.Good)
	if c.Kind == "metadata" && !slices.ContainsFunc(good, func(f gen.KV) bool { return f.K == "csumtype" }) {
		good = append(good, gen.KV{K: "csumtype", V: "none"})
	}
	if len(good) > 0 {
		if err := build(c.Kind, gen.FlagStr(good, c.Spaced)); err != nil {
			return pbt.Errf("%s frame with %q refused: %v", c.Kind, gen.FlagStr(good, c.Spaced), err)
		}
	}
	bad := slices.Insert(slices.Clone(good), c.At, c.Bad)
	if err := build(c.Kind, list(bad, c.Spaced)); err == nil {
		return pbt.Errf("%s frame made of %q, where %s=%s is a %s", c.Kind, list(bad, c.Spaced), c.Bad.K, c.Bad.V, c.Why)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C34", pbt.NewPart("flags", 20000, 300000, genCase, run))
}
