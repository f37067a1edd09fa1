// C11: header fields are independent: setting one changes its bits and no others.
package c11

import (
	"slices"
	"sort"
	"strings"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/sarflags"
	"pgregory.net/rapid"
)

type op struct{ Field, Opt string }

type histCase struct {
	Header uint32
	Ops    []op
}

func genBad(t *rapid.T) string {
	return gen.Pick(t, "bad", "", "bogus", "Version", "d16 ", "yes,no", "v2", "d256", "0", "descriptor", "\xff")
}

func genHist(t *rapid.T) histCase {
	c := histCase{Header: gen.U32(t, "header")}
	if rapid.IntRange(0, 3).Draw(t, "ones") == 0 {
		c.Header = 0xffffffff
	}
	for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
		o := op{Field: gen.Pick(t, "field", ref.FieldNames()...)}
		o.Opt = gen.Pick(t, "opt", ref.Opts(o.Field)...)
		switch rapid.IntRange(0, 9).Draw(t, "mess") {
		case 0:
			o.Field = genBad(t)
		case 1:
			o.Opt = genBad(t)
		case 2:
			o.Opt = gen.Pick(t, "other", ref.Opts(gen.Pick(t, "of", ref.FieldNames()...))...)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func known(f, o string) bool {
	_, ok := ref.Flags[f].Opts[o]
	return ok
}

// look compares everything the accessors say about a header with the reference.
func look(h uint32) error {
	for _, f := range ref.FieldNames() {
		if g := sarflags.Get(h, f); g != ref.Get(h, f) {
			return pbt.Errf("%s of %#08x is %d, want %d", f, h, g, ref.Get(h, f))
		}
		n := ref.Name(h, f)
		if n == "" && f == "csumlen" {
			continue // Two lengths are called invalid
		}
		if g := sarflags.GetStr(h, f); g != n {
			return pbt.Errf("%s of %#08x is called %q, want %q", f, h, g, n)
		}
		if g := sarflags.Name(h, f); g != n {
			return pbt.Errf("%s of %#08x is named %q, want %q", f, h, g, n)
		}
		for o, v := range ref.Flags[f].Opts {
			if g := sarflags.Test(h, f, "", o); g != (v == ref.Get(h, f)) {
				return pbt.Errf("test of %s=%s in %#08x gives %v", f, o, h, g)
			}
		}
	}
	return nil
}

func runHist(x *pbt.Ctx, c histCase) error {
	h := c.Header
	good := 0
	if err := look(h); err != nil {
		return err
	}
	for _, o := range c.Ops {
		ok := known(o.Field, o.Opt)
		g, err := sarflags.Set(h, o.Field, o.Opt)
		want := h
		if ok {
			good++
			want = ref.Set(h, o.Field, o.Opt)
		} else {
			x.Class("refused")
		}
		if g != want {
			return pbt.Errf("setting %q=%q in %#08x gives %#08x, want %#08x", o.Field, o.Opt, h, g, want)
		}
		if (err == nil) != ok {
			return pbt.Errf("setting %q=%q: error is %v", o.Field, o.Opt, err)
		}
		if v := sarflags.Valid(o.Field, o.Opt); v != ok {
			return pbt.Errf("%q=%q valid: %v", o.Field, o.Opt, v)
		}
		if _, f := ref.Flags[o.Field]; sarflags.Good(o.Field) != f {
			return pbt.Errf("%q good: %v", o.Field, !f)
		}
		v := -1
		if ok {
			v = int(ref.Flags[o.Field].Opts[o.Opt])
		}
		if g := sarflags.Value(o.Field, o.Opt); g != v {
			return pbt.Errf("value of %q=%q is %d, want %d", o.Field, o.Opt, g, v)
		}
		h = g
		if err := look(h); err != nil {
			return err
		}
	}
	x.Class("%d set", min(good, 8))
	x.NontrivialIf(good >= 2)
	return nil
}

type setCase struct {
	Header uint32
	Frame  string
	Flags  []gen.KV
}

func genSet(t *rapid.T) setCase {
	c := setCase{Header: gen.U32(t, "header"), Frame: gen.Pick(t, "frame", "beacon", "request", "metadata", "data", "status")}
	c.Flags = gen.Flags(t, "flags", ref.FrameFields[c.Frame], ref.Opts)
	if rapid.IntRange(0, 3).Draw(t, "bad") == 0 { // Refused, and the others are set all the same
		k := genBad(t)
		if gen.Bool(t, "badval") {
			k = gen.Pick(t, "field", ref.FrameFields[c.Frame]...)
		}
		c.Flags = slices.DeleteFunc(c.Flags, func(f gen.KV) bool { return f.K == k })
		c.Flags = append(c.Flags, gen.KV{K: k, V: "bogus"})
	}
	return c
}

// The fields of one kind of frame do not overlap: set together they are all there.
func runSet(x *pbt.Ctx, c setCase) error {
	m := map[string]string{}
	want := c.Header
	for _, f := range c.Flags {
		m[f.K] = f.V
		if known(f.K, f.V) {
			want = ref.Set(want, f.K, f.V)
		}
	}
	x.Class("%s", c.Frame)
	x.NontrivialIf(len(m) >= 2)
	h := sarflags.SetFlags(c.Header, m)
	if h != want {
		return pbt.Errf("%v set in %#08x give %#08x, want %#08x", m, c.Header, h, want)
	}
	for k, v := range m {
		if g := sarflags.GetStr(h, k); known(k, v) && g != v {
			return pbt.Errf("%v set in %#08x, %s is %s", m, c.Header, k, g)
		}
	}
	for _, get := range []func(string) []string{sarflags.Values, sarflags.Fields} {
		has := map[string]bool{}
		for _, f := range get(c.Frame) {
			has[f] = true
		}
		for _, f := range ref.FrameFields[c.Frame] {
			if !has[f] {
				return pbt.Errf("%s is not among the fields of a %s: %v", f, c.Frame, get(c.Frame))
			}
		}
	}
	return nil
}

type dirCase struct {
	Header uint16
	Ops    []op
}

func genDir(t *rapid.T) dirCase {
	c := dirCase{Header: uint16(gen.U64(t, "header", 1<<16-1))}
	for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
		o := op{Field: gen.Pick(t, "field", "sod", "property", "descriptor", "reserved")}
		o.Opt = gen.Pick(t, "opt", ref.DOpts(o.Field)...)
		switch rapid.IntRange(0, 9).Draw(t, "mess") {
		case 0:
			o.Field = genBad(t)
		case 1:
			o.Opt = genBad(t)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runDir(x *pbt.Ctx, c dirCase) error {
	h := c.Header
	good := 0
	lookD := func() error {
		for f := range ref.DFlags {
			if g := sarflags.GetD(h, f); g != ref.GetD(h, f) {
				return pbt.Errf("%s of entry %#04x is %d, want %d", f, h, g, ref.GetD(h, f))
			}
			n := ref.NameD(h, f)
			if a, b := sarflags.GetDStr(h, f), sarflags.NameD(h, f); a != n || b != n {
				return pbt.Errf("%s of entry %#04x is %q and %q, want %q", f, h, a, b, n)
			}
			for o, v := range ref.DFlags[f].Opts {
				if g := sarflags.TestD(h, f, o); g != (uint16(v) == ref.GetD(h, f)) {
					return pbt.Errf("test of %s=%s in entry %#04x gives %v", f, o, h, g)
				}
			}
			if s := sarflags.FrameD(f); strings.Join(sorted(s), ",") != strings.Join(ref.DOpts(f), ",") {
				return pbt.Errf("values of %s are %v", f, s)
			}
		}
		if s := sorted(sarflags.FlagD()); strings.Join(s, ",") != "descriptor,property,reserved,sod" {
			return pbt.Errf("fields of an entry are %v", s)
		}
		return nil
	}
	if err := lookD(); err != nil {
		return err
	}
	for _, o := range c.Ops {
		_, ok := ref.DFlags[o.Field].Opts[o.Opt]
		g, err := sarflags.SetD(h, o.Field, o.Opt)
		want := h
		if ok {
			good++
			want = ref.SetD(h, o.Field, o.Opt)
		}
		if g != want || (err == nil) != ok {
			return pbt.Errf("setting %q=%q in entry %#04x gives %#04x, %v, want %#04x", o.Field, o.Opt, h, g, err, want)
		}
		if v := sarflags.ValidD(o.Field, o.Opt); v != ok {
			return pbt.Errf("entry %q=%q valid: %v", o.Field, o.Opt, v)
		}
		if _, f := ref.DFlags[o.Field]; sarflags.GoodD(o.Field) != f {
			return pbt.Errf("entry %q good: %v", o.Field, !f)
		}
		h = g
		if err := lookD(); err != nil {
			return err
		}
	}
	x.NontrivialIf(good >= 2)
	return nil
}

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

type tsCase struct {
	Header uint8
	Opt    string
}

func genTs(t *rapid.T) tsCase {
	o := gen.Pick(t, "opt", "localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32", "?")
	if o == "?" {
		o = genBad(t)
	}
	return tsCase{rapid.Byte().Draw(t, "header"), o}
}

func runTs(x *pbt.Ctx, c tsCase) error {
	n := ""
	for k, v := range ref.TTypes {
		if v == c.Header {
			n = k
		}
	}
	if a, b, d := sarflags.GetTStr(c.Header), sarflags.NameT(c.Header), sarflags.GetT(c.Header); a != n || b != n || d != c.Header {
		return pbt.Errf("timestamp header %d is %q, %q, %d, want %q", c.Header, a, b, d, n)
	}
	v, ok := ref.TTypes[c.Opt]
	g, err := sarflags.SetT(c.Header, c.Opt)
	want := c.Header
	if ok {
		want = v
		x.Nontrivial()
	}
	if g != want || (err == nil) != ok || sarflags.GoodT(c.Opt) != ok {
		return pbt.Errf("setting timestamp type %q in %d gives %d, %v, good %v", c.Opt, c.Header, g, err, sarflags.GoodT(c.Opt))
	}
	if s := sarflags.FrameT(); len(s) != len(ref.TTypes) {
		return pbt.Errf("timestamp types are %v", s)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C11",
		pbt.NewPart("header", 3000, 40000, genHist, runHist),
		pbt.NewPart("together", 10000, 100000, genSet, runSet),
		pbt.NewPart("dirent", 4000, 50000, genDir, runDir),
		pbt.NewPart("timestamp", 4000, 20000, genTs, runTs))
}
