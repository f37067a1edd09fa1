// C23: a copy of the settings has all of them, and is a copy.
package c23

import (
	"maps"
	"reflect"
	"sort"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"

	"github.com/charlesetsmith/saratoga/sarflags"
	"pgregory.net/rapid"
)

type kv struct{ K, V pbt.B }

type edit struct {
	Orig bool // Which of the two is edited
	Path int
	N    int
	S    pbt.B
}

type tcase struct {
	Global []kv
	Strs   []pbt.B
	Nums   []int
	Edits  []edit
}

// slots are the settable fields of the settings, found by reflection so that a field added is
// looked at too; the map is apart.
func slots(c *sarflags.Cliflags) (strs, nums []reflect.Value) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.String:
			strs = append(strs, v)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			nums = append(nums, v)
		}
	}
	walk(reflect.ValueOf(c).Elem())
	return
}

func set(v reflect.Value, n int) {
	if v.CanInt() {
		v.SetInt(int64(n))
	} else {
		v.SetUint(uint64(n))
	}
}

func genCase(t *rapid.T) tcase {
	var z sarflags.Cliflags
	s, n := slots(&z)
	var c tcase
	for i := rapid.IntRange(0, 12).Draw(t, "globals"); i > 0; i-- {
		g := kv{gen.Name(t, "k", 20), gen.Name(t, "v", 20)}
		if rapid.IntRange(0, 2).Draw(t, "real") > 0 { // One there really is
			k := gen.Pick(t, "flag", ref.FieldNames()...)
			g = kv{pbt.B(k), pbt.B(gen.Pick(t, "opt", ref.Opts(k)...))}
		}
		c.Global = append(c.Global, g)
	}
	for range s {
		s := gen.Name(t, "s", 30)
		if gen.Bool(t, "reals") {
			s = pbt.B(gen.Pick(t, "str", "", "utc", "local", "posix32", "posix64", "saratoga", "224.0.0.108", "ff02::6c", "/tmp"))
		}
		c.Strs = append(c.Strs, s)
	}
	for range n {
		c.Nums = append(c.Nums, rapid.IntRange(0, 1<<20).Draw(t, "n"))
	}
	for i := rapid.IntRange(0, 8).Draw(t, "edits"); i > 0; i-- {
		c.Edits = append(c.Edits, edit{gen.Bool(t, "orig"), rapid.IntRange(0, 60).Draw(t, "path"), rapid.IntRange(0, 1<<20).Draw(t, "en"), gen.Name(t, "es", 12)})
	}
	return c
}

func build(c tcase) *sarflags.Cliflags {
	f := new(sarflags.Cliflags)
	f.Global = map[string]string{}
	for _, g := range c.Global {
		f.Global[string(g.K)] = string(g.V)
	}
	s, n := slots(f)
	for i, v := range s {
		v.SetString(string(c.Strs[i%len(c.Strs)]))
	}
	for i, v := range n {
		k := c.Nums[i%len(c.Nums)]
		if v.Type().Bits() == 8 {
			k &= 0x7f
		} else if v.Type().Bits() == 16 {
			k &= 0x7fff
		}
		set(v, k)
	}
	return f
}

func apply(f *sarflags.Cliflags, e edit) {
	s, n := slots(f)
	switch p := e.Path % 3; {
	case p == 0:
		s[e.Path/3%len(s)].SetString(string(e.S))
	case p == 1:
		set(n[e.Path/3%len(n)], e.N&0x7f)
	default:
		var ks []string
		for k := range f.Global {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		switch {
		case len(ks) == 0 || e.Path%2 == 0:
			f.Global[string(e.S)] = "added"
		case e.N%2 == 0:
			delete(f.Global, ks[e.N/2%len(ks)])
		default:
			f.Global[ks[e.N/2%len(ks)]] = string(e.S)
		}
	}
}

func run(x *pbt.Ctx, c tcase) error {
	a, model := build(c), build(c)
	b, err := a.CopyCliflags()
	if len(a.Global) == 0 {
		x.Class("no flags")
		if err == nil {
			return pbt.Errf("settings without any flag were copied")
		}
		return nil
	}
	if err != nil || b == nil {
		return pbt.Errf("copy: %v, %v", b, err)
	}
	if a == b {
		return pbt.Errf("the copy is the original")
	}
	if !reflect.DeepEqual(a, model) {
		return pbt.Errf("copying changed the settings: %+v, were %+v", *a, *model)
	}
	if !reflect.DeepEqual(b, model) {
		return pbt.Errf("the copy is %+v, the settings are %+v", *b, *model)
	}
	x.Class("%d edits", len(c.Edits))
	x.NontrivialIf(len(c.Edits) > 0)
	ma, mb := build(c), build(c)
	for _, e := range c.Edits {
		if e.Orig {
			apply(a, e)
			apply(ma, e)
		} else {
			apply(b, e)
			apply(mb, e)
		}
		if !reflect.DeepEqual(a, ma) || !maps.Equal(a.Global, ma.Global) {
			return pbt.Errf("the settings are %+v, want %+v: changed through their copy", *a, *ma)
		}
		if !reflect.DeepEqual(b, mb) {
			return pbt.Errf("the copy is %+v, want %+v: changed with the original", *b, *mb)
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	pbt.Main(t, "C23", pbt.NewPart("copy", 20000, 200000, genCase, run))
}
