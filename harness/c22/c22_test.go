// C22: the settings are what the configuration file says, or an error says what is wrong with it.
package c22

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/sarflags"
	"pgregory.net/rapid"
)

var strkeys = []string{"v4multicast", "v6multicast", "descriptor", "csumtype", "freespace", "txwilling", "rxwilling", "stream",
	"reqtstamp", "reqstatus", "udplite", "timestamp", "timezone", "sardir", "prompt"}
var globals = []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}
var numkeys = []string{"udpport", "ppad", "buffersize", "bcount"}
var timekeys = []string{"metadata", "request", "status", "transfer", "binterval", "datacounter"}

type field struct {
	Len, Msb uint
	Opts     map[string]uint32
}

type confCase struct {
	Str    map[string]string
	Num    map[string]int
	Time   map[string]int
	Cmds   map[string][2]string // help, usage
	Frames map[string][]string
	Extra  map[string]field // Flags besides those of the protocol
	Dextra map[string]field
	Env    string // SARDIR
	Fault  string
	Path   []string // What the fault is at
	Bad    string   // JSON put there
	Cut    int
	Other  bool // Keys nobody knows
}

func genStr(t *rapid.T, l string) string {
	return rapid.StringMatching(`[ -~]{0,20}|[a-zé日/."\\]{0,8}`).Draw(t, l)
}

func genField(t *rapid.T, width uint) field {
	f := field{Len: rapid.UintRange(1, min(width, 12)).Draw(t, "len"), Opts: map[string]uint32{}}
	f.Msb = rapid.UintRange(0, width-f.Len).Draw(t, "msb")
	vals := rapid.SliceOfNDistinct(rapid.Uint32Range(0, 1<<f.Len-1), 1, int(min(1<<f.Len, 6)), rapid.ID[uint32]).Draw(t, "vals")
	for i, v := range vals {
		f.Opts[fmt.Sprintf("o%d", i)] = v
	}
	return f
}

func genConf(t *rapid.T) confCase {
	c := confCase{Str: map[string]string{}, Num: map[string]int{}, Time: map[string]int{}, Cmds: map[string][2]string{}, Frames: map[string][]string{}, Extra: map[string]field{}, Dextra: map[string]field{}}
	for _, k := range strkeys {
		c.Str[k] = genStr(t, k)
	}
	for _, k := range globals {
		c.Str[k] = gen.Pick(t, k, ref.Opts(k)...)
	}
	for _, k := range numkeys {
		c.Num[k] = int(gen.U64(t, k, 1<<31-1))
	}
	for _, k := range timekeys {
		c.Time[k] = int(gen.U64(t, k, 1<<31-1))
	}
	for i := rapid.IntRange(0, 4).Draw(t, "cmds"); i > 0; i-- {
		c.Cmds[fmt.Sprint(gen.Pick(t, "cmd", "get", "beacon", "x", "?"), i)] = [2]string{genStr(t, "help"), genStr(t, "usage")}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
		n := fmt.Sprint("extra", i)
		c.Extra[n] = genField(t, 32)
		for _, f := range []string{"beacon", "data", "odd"} {
			if gen.Bool(t, "in "+f) {
				c.Frames[f] = append(c.Frames[f], n)
			}
		}
	}
	for i := rapid.IntRange(0, 2).Draw(t, "dextra"); i > 0; i-- {
		c.Dextra[fmt.Sprint("dextra", i)] = genField(t, 16)
	}
	if gen.Bool(t, "env?") {
		c.Env = gen.Pick(t, "env", "/some/where", "x", "/with space/")
	}
	c.Other = gen.Bool(t, "other")
	switch c.Fault = gen.Pick(t, "fault", "", "", "", "", "type", "type", "type", "value", "missing", "cut", "nofile", "directory", "noise"); c.Fault {
	case "type":
		var all [][]string
		for _, k := range append(append([]string{"timeout", "commands", "frameflags", "flags", "direntflags", "timestamps"}, strkeys...), numkeys...) {
			all = append(all, []string{k})
		}
		for _, k := range timekeys {
			all = append(all, []string{"timeout", k})
		}
		for k := range c.Cmds {
			all = append(all, []string{"commands", k}, []string{"commands", k, "help"}, []string{"commands", k, "usage"})
		}
		for _, k := range []string{"beacon", "request", "status"} {
			all = append(all, []string{"frameflags", k})
		}
		for _, k := range []string{"version", "errcode", "csumtype"} {
			for _, x := range []string{"", "len", "msb", "options", "frametypes"} {
				p := []string{"flags", k}
				if x != "" {
					p = append(p, x)
				}
				all = append(all, p)
			}
		}
		all = append(all, []string{"flags", "version", "options", "v1"}, []string{"direntflags", "property"}, []string{"direntflags", "property", "len"}, []string{"direntflags", "property", "msb"},
			[]string{"direntflags", "property", "options"}, []string{"direntflags", "property", "options", "normalfile"}, []string{"timestamps", "len"}, []string{"timestamps", "msb"},
			[]string{"timestamps", "options"}, []string{"timestamps", "options", "posix32"})
		sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
		c.Path = gen.Pick(t, "path", all...)
		c.Bad = gen.Pick(t, "bad", "null", "true", `"text"`, "3", "{}", "[]", `["a"]`, "[1]", `{"a":1}`)
	case "value":
		c.Path = []string{gen.Pick(t, "which", globals...)}
		b, _ := json.Marshal(gen.Pick(t, "bad", "", "bogus", "YES", "d256", "yes "))
		c.Bad = string(b)
	case "missing":
		c.Path = []string{gen.Pick(t, "which", globals...)}
	case "cut":
		c.Cut = rapid.IntRange(0, 999).Draw(t, "cut")
	case "noise":
		c.Bad = gen.Pick(t, "noise", "", " ", "[]", "3", `"a"`, "{", "}", "nonsense", "{}{}", `{"a":1}x`)
	}
	return c
}

func opts(f field) map[string]any {
	o := map[string]any{}
	for k, v := range f.Opts {
		o[k] = v
	}
	return map[string]any{"len": f.Len, "msb": f.Msb, "options": o, "frametypes": []any{"beacon"}}
}

// doc builds the configuration. The tables of the protocol are always in it.
func (c confCase) doc() map[string]any {
	d := map[string]any{}
	for k, v := range c.Str {
		d[k] = v
	}
	for k, v := range c.Num {
		d[k] = v
	}
	tm := map[string]any{}
	for k, v := range c.Time {
		tm[k] = v
	}
	cmds := map[string]any{}
	for k, v := range c.Cmds {
		cmds[k] = map[string]any{"help": v[0], "usage": v[1]}
	}
	fr := map[string]any{}
	for k, v := range c.frames() {
		var l []any
		for _, x := range v {
			l = append(l, x)
		}
		fr[k] = l
	}
	fl, dfl := map[string]any{}, map[string]any{}
	for k, v := range c.flags() {
		fl[k] = opts(v)
	}
	for k, v := range c.dflags() {
		dfl[k] = opts(v)
	}
	ts := map[string]uint32{}
	for k, v := range ref.TTypes {
		ts[k] = uint32(v)
	}
	d["timeout"], d["commands"], d["frameflags"], d["flags"], d["direntflags"] = tm, cmds, fr, fl, dfl
	d["timestamps"] = opts(field{3, 5, ts})
	if c.Other {
		d["zz"] = map[string]any{"a": []any{1, nil}}
		d["comment"] = 3
		tm["zz"] = "x"
	}
	return d
}

func (c confCase) flags() map[string]field {
	r := map[string]field{}
	for k, f := range ref.Flags {
		r[k] = field{f.Len, f.Msb, f.Opts}
	}
	for k, f := range c.Extra {
		r[k] = f
	}
	return r
}

func (c confCase) dflags() map[string]field {
	r := map[string]field{}
	for k, f := range ref.DFlags {
		r[k] = field{f.Len, f.Msb, f.Opts}
	}
	for k, f := range c.Dextra {
		r[k] = f
	}
	return r
}

func (c confCase) frames() map[string][]string {
	r := map[string][]string{}
	for k, v := range ref.FrameFields {
		r[k] = v
	}
	for k, v := range c.Frames {
		r[k] = append(append([]string{}, r[k]...), v...)
	}
	return r
}

func kind(v any) string {
	switch v := v.(type) {
	case string:
		return "string"
	case int, uint, uint32, float64:
		return "number"
	case map[string]any:
		return "map"
	case []any:
		return "list"
	case nil:
		return "null"
	case bool:
		return "bool"
	default:
		panic(fmt.Sprintf("%T", v))
	}
}

func run(x *pbt.Ctx, c confCase) error {
	dir := pbt.Scratch + "/c22"
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	name := dir + "/conf.json"
	d := c.doc()
	if c.Fault == "type" || c.Fault == "value" {
		var bad any
		if err := json.Unmarshal([]byte(c.Bad), &bad); err != nil {
			return err
		}
		at := d
		for _, p := range c.Path[:len(c.Path)-1] {
			at = at[p].(map[string]any)
		}
		last := c.Path[len(c.Path)-1]
		was := kind(at[last])
		at[last] = bad
		ok := kind(bad) != was
		switch { // A value of the right type somewhere in the middle is another configuration, not judged here
		case c.Fault == "type" && !ok && was == "list" && c.Bad == "[1]": // lists are of text
		case c.Fault == "type" && !ok && was == "map" && c.Bad == `{"a":1}` && (c.Path[0] == "commands" || c.Path[0] == "frameflags" || c.Path[0] == "flags" || c.Path[0] == "direntflags") && len(c.Path) == 1: // maps of maps or lists
		case c.Fault == "type" && !ok:
			x.Class("same type")
			return nil
		}
	}
	if c.Fault == "missing" {
		delete(d, c.Path[0])
	}
	js, err := json.MarshalIndent(d, "", " ")
	if err != nil {
		return err
	}
	switch c.Fault {
	case "cut":
		js = js[:len(js)*c.Cut/1000]
	case "noise":
		js = []byte(c.Bad)
	case "directory":
		name = dir
	}
	if c.Fault == "nofile" {
		name = dir + "/nosuch.json"
	} else if c.Fault != "directory" {
		if err := os.WriteFile(name, js, 0o644); err != nil {
			return err
		}
	}
	if c.Env == "" {
		os.Unsetenv("SARDIR")
	} else {
		os.Setenv("SARDIR", c.Env)
	}
	defer os.Unsetenv("SARDIR")
	x.Class("fault=%s", c.Fault)
	x.Nontrivial()
	cl := sarflags.Cliflags{Global: map[string]string{"old": "old"}, V4Multicast: "old", V6Multicast: "old", Port: 1, Timestamp: "old", Timezone: "old", Prompt: "old", Ppad: 2,
		Sardir: "old", Buffersize: 3, Bcount: 4, Timeout: sarflags.Timeouts{Metadata: 5, Request: 6, Status: 7, Transfer: 8, Binterval: 9, Datacounter: 10}}
	err = cl.ReadConfig(name)
	if c.Fault != "" {
		if err == nil {
			return pbt.Errf("%s at %v (%s): no error", c.Fault, c.Path, c.Bad)
		}
		// Nothing stays locked or half set: the shipped configuration can be read afterwards
		var again sarflags.Cliflags
		if err := again.ReadConfig(sar.Config()); err != nil {
			return pbt.Errf("after %s at %v the shipped configuration does not load: %v", c.Fault, c.Path, err)
		}
		for f, v := range ref.Flags {
			for o, n := range v.Opts {
				if got := sarflags.Value(f, o); got != int(n) {
					return pbt.Errf("after %s at %v: value of %s=%s is %d, want %d", c.Fault, c.Path, f, o, got, n)
				}
			}
		}
		return nil
	}
	if err != nil {
		return pbt.Errf("a good configuration is refused: %v", err)
	}
	want := sarflags.Cliflags{Global: map[string]string{}, V4Multicast: c.Str["v4multicast"], V6Multicast: c.Str["v6multicast"], Port: c.Num["udpport"], Timestamp: c.Str["timestamp"],
		Timezone: c.Str["timezone"], Prompt: c.Str["prompt"], Ppad: c.Num["ppad"], Sardir: c.Str["sardir"], Buffersize: c.Num["buffersize"], Bcount: uint(c.Num["bcount"]),
		Timeout: sarflags.Timeouts{Metadata: c.Time["metadata"], Request: c.Time["request"], Status: c.Time["status"], Transfer: c.Time["transfer"], Binterval: uint(c.Time["binterval"]), Datacounter: c.Time["datacounter"]}}
	if c.Env != "" {
		want.Sardir = c.Env
	}
	for _, g := range globals {
		want.Global[g] = c.Str[g]
	}
	if !reflect.DeepEqual(cl, want) {
		return pbt.Errf("settings are %+v, want %+v", cl, want)
	}
	if len(sarflags.Commands) != len(c.Cmds) {
		return pbt.Errf("%d commands, want %d", len(sarflags.Commands), len(c.Cmds))
	}
	for k, v := range c.Cmds {
		if got := sarflags.Commands[k]; got.Help != v[0] || got.Usage != v[1] {
			return pbt.Errf("command %s has %+v, want %q", k, got, v)
		}
	}
	for k, v := range c.frames() {
		a := append([]string{}, sarflags.Fields(k)...)
		if !reflect.DeepEqual(a, v) || !reflect.DeepEqual(append([]string{}, sarflags.Values(k)...), v) {
			return pbt.Errf("flags of a %s are %v, want %v", k, a, v)
		}
	}
	for k, f := range c.flags() {
		if !sarflags.Good(k) {
			return pbt.Errf("flag %s is not known", k)
		}
		for o, n := range f.Opts {
			if sarflags.Value(k, o) != int(n) || !sarflags.Valid(k, o) {
				return pbt.Errf("%s=%s is %d, want %d", k, o, sarflags.Value(k, o), n)
			}
			sh := 32 - f.Len - f.Msb
			mask := uint32(1<<f.Len-1) << sh
			for _, h := range []uint32{0, 0xffffffff} {
				got, err := sarflags.Set(h, k, o)
				if w := h&^mask | n<<sh; err != nil || got != w {
					return pbt.Errf("%s=%s in %#x is %#x, %v; want %#x", k, o, h, got, err, w)
				}
				if g := sarflags.Get(got, k); g != n {
					return pbt.Errf("%s in %#x is %d, want %d", k, got, g, n)
				}
			}
		}
		if sarflags.Valid(k, "nosuch") || sarflags.Value(k, "nosuch") >= 0 {
			return pbt.Errf("%s=nosuch is valid", k)
		}
	}
	if sarflags.Good("nosuch") || sarflags.GoodD("nosuch") || sarflags.GoodT("nosuch") {
		return pbt.Errf("a flag that is not there is good")
	}
	for k, f := range c.dflags() {
		if !sarflags.GoodD(k) {
			return pbt.Errf("directory flag %s is not known", k)
		}
		for o, n := range f.Opts {
			sh := 16 - f.Len - f.Msb
			mask := uint16(1<<f.Len-1) << sh
			for _, h := range []uint16{0, 0xffff} {
				got, err := sarflags.SetD(h, k, o)
				if w := h&^mask | uint16(n)<<sh; err != nil || got != w || sarflags.GetD(got, k) != uint16(n) || !sarflags.ValidD(k, o) {
					return pbt.Errf("directory %s=%s in %#x is %#x, %v; want %#x", k, o, h, got, err, w)
				}
			}
		}
	}
	for o, n := range ref.TTypes {
		if got, err := sarflags.SetT(0, o); err != nil || got != n || !sarflags.GoodT(o) {
			return pbt.Errf("timestamp %s is %d, %v; want %d", o, got, err, n)
		}
	}
	x.Class("env=%v extra=%v", c.Env != "", len(c.Extra)+len(c.Dextra) > 0)
	return nil
}

// The file that comes with the program is one it reads, however often.
type shippedCase struct{ Times int }

func genShipped(t *rapid.T) shippedCase { return shippedCase{rapid.IntRange(1, 4).Draw(t, "times")} }

func runShipped(x *pbt.Ctx, c shippedCase) error {
	os.Setenv("SARDIR", pbt.Scratch)
	for i := 0; i < c.Times; i++ {
		if err := new(sarflags.Cliflags).ReadConfig(sar.Config()); err != nil {
			return pbt.Errf("the configuration that is shipped is refused: %v", err)
		}
	}
	x.NontrivialIf(c.Times > 1)
	return nil
}

func TestProp(t *testing.T) {
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = devnull // ReadConfig talks
	sarflags.Cliflag = new(sarflags.Cliflags)
	pbt.Main(t, "C22", pbt.NewPart("config", 4000, 40000, genConf, run), pbt.NewPart("shipped", 20, 20, genShipped, runShipped))
}
