// C12: a list of flags edited by any history of adds and replaces says what was last set.
package c12

import (
	"strings"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

var conf *sarflags.Cliflags

type op struct {
	Replace bool
	K, V    string
}

type histCase struct {
	Dirent bool
	Spaced bool // blanks after the commas when a value is asked for
	Ops    []op
}

var bad = []string{"", "nosuchflag", "d8", "Yes", "descriptor ", "yes,no", "=", ",", "version=v1"}

func genHist(t *rapid.T) histCase {
	c := histCase{Dirent: gen.Bool(t, "dirent"), Spaced: gen.Bool(t, "spaced")}
	names, opts := ref.FieldNames(), ref.Opts
	if c.Dirent {
		names, opts = []string{"sod", "property", "descriptor", "reserved"}, ref.DOpts
	}
	// A few names, so that they meet again
	few := rapid.SliceOfN(rapid.SampledFrom(names), 1, 5).Draw(t, "few")
	for i := rapid.IntRange(1, 14).Draw(t, "n"); i > 0; i-- {
		k := rapid.SampledFrom(few).Draw(t, "k")
		o := op{gen.Bool(t, "replace"), k, rapid.SampledFrom(opts(k)).Draw(t, "v")}
		switch rapid.IntRange(0, 9).Draw(t, "odd") {
		case 0:
			o.V = rapid.SampledFrom(bad).Draw(t, "badv")
		case 1:
			o.K = rapid.SampledFrom(bad).Draw(t, "badk")
		case 2: // the value of another flag
			o.V = rapid.SampledFrom(opts(rapid.SampledFrom(names).Draw(t, "other"))).Draw(t, "otherv")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runHist(x *pbt.Ctx, c histCase) error {
	add, replace, names := sarflags.AddFlag, sarflags.ReplaceFlag, ref.FieldNames()
	valid := func(k, v string) bool { _, ok := ref.Flags[k].Opts[v]; return ok }
	isok := sarflags.Valid
	if c.Dirent {
		add, replace, names = sarflags.AddFlagD, sarflags.ReplaceFlagD, []string{"sod", "property", "descriptor", "reserved"}
		valid = func(k, v string) bool { _, ok := ref.DFlags[k].Opts[v]; return ok }
		isok = sarflags.ValidD
	}
	var model []gen.KV
	cur := ""
	for i, o := range c.Ops {
		at := -1
		for j := range model {
			if model[j].K == o.K {
				at = j
			}
		}
		if at >= 0 && !o.Replace {
			continue // a flag is added once
		}
		was := cur
		if o.Replace {
			cur = replace(cur, o.K, o.V)
		} else {
			cur = add(cur, o.K, o.V)
		}
		ok := valid(o.K, o.V)
		if isok(o.K, o.V) != ok {
			return pbt.Errf("Valid(%q, %q) is not %v", o.K, o.V, ok)
		}
		switch {
		case !ok:
			x.Class("invalid")
			if cur != was {
				return pbt.Errf("op %d: invalid %s=%s changed %q to %q", i, o.K, o.V, was, cur)
			}
		case at >= 0:
			x.Class("replaced")
			x.Nontrivial()
			model[at].V = o.V
		default:
			x.NontrivialIf(len(model) > 0)
			model = append(model, gen.KV{K: o.K, V: o.V})
		}
		if want := gen.FlagStr(model, false); !sameList(cur, want) {
			return pbt.Errf("op %d (%+v): %q became %q, want the flags %q", i, o, was, cur, want)
		}
		ask := cur
		if c.Spaced {
			ask = strings.ReplaceAll(cur, ",", ", ")
		}
		for _, n := range names {
			want := ""
			for _, m := range model {
				if m.K == n {
					want = m.V
				}
			}
			if got := sarflags.FlagValue(ask, n); got != want {
				return pbt.Errf("op %d: value of %s in %q is %q, want %q", i, n, ask, got, want)
			}
		}
	}
	x.Class("flags=%d", len(model))
	return nil
}

// sameList: the same flags, each as often; their order says nothing.
func sameList(a, b string) bool {
	n := map[string]int{}
	for _, f := range strings.Split(a, ",") {
		n[f]++
	}
	for _, f := range strings.Split(b, ",") {
		n[f]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

// Frame flags out of the global settings

type globCase struct {
	Frame string
	Set   []gen.KV
	Drop  []string
}

var globals = []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}

func genGlob(t *rapid.T) globCase {
	c := globCase{Frame: gen.Pick(t, "frame", "beacon", "request", "metadata", "data", "status", "nosuch")}
	c.Set = gen.Flags(t, "set", globals, func(k string) []string {
		if k == "descriptor" {
			return []string{"d16", "d32", "d64"}
		}
		return ref.Opts(k)
	})
	if gen.Bool(t, "dropping") {
		c.Drop = rapid.SliceOfNDistinct(rapid.SampledFrom(globals), 0, 9, rapid.ID[string]).Draw(t, "drop")
	}
	return c
}

func runGlob(x *pbt.Ctx, c globCase) error {
	cl, err := conf.CopyCliflags()
	if err != nil {
		return err
	}
	for _, s := range c.Set {
		cl.Global[s.K] = s.V
	}
	for _, d := range c.Drop {
		delete(cl.Global, d)
	}
	got := sarflags.Setglobal(c.Frame, cl)
	var want []gen.KV
	for _, f := range ref.FrameFields[c.Frame] {
		if v, ok := cl.Global[f]; ok {
			want = append(want, gen.KV{K: f, V: v})
		}
	}
	if !sameList(got, gen.FlagStr(want, false)) {
		return pbt.Errf("flags of a %s are %q, want %q", c.Frame, got, gen.FlagStr(want, false))
	}
	x.Class(c.Frame)
	if len(want) == 0 {
		return nil
	}
	x.Nontrivial()
	// The frame made with them has them in its header
	var h uint32
	switch c.Frame {
	case "beacon":
		var f beacon.Beacon
		err, h = f.New(got, &beacon.Binfo{Freespace: 1000}), f.Header
		h = f.Header
	case "request":
		var f request.Request
		err = f.New(got, &request.Rinfo{Session: 1, Fname: "a"})
		h = f.Header
	case "data":
		var f data.Data
		err = f.New(got, &data.Dinfo{Session: 1, Offset: 5, Payload: []byte("x")})
		h = f.Header
	case "status":
		var f status.Status
		err = f.New(got, &status.Sinfo{Session: 1})
		h = f.Header
	default:
		return nil
	}
	if err != nil {
		return pbt.Errf("no %s out of the settings %q: %v", c.Frame, got, err)
	}
	for _, w := range want {
		if n := ref.Name(h, w.K); n != w.V {
			return pbt.Errf("the %s made with %q has %s=%s", c.Frame, got, w.K, n)
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	conf = sar.Load(t)
	pbt.Main(t, "C12",
		pbt.NewPart("history", 30000, 300000, genHist, runHist),
		pbt.NewPart("settings", 20000, 200000, genGlob, runGlob))
}
