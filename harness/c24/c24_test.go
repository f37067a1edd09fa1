// C24: commands change the setting they name, to what they say, and nothing else.
package c24

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"pgregory.net/rapid"
)

var (
	silent, drawn *gui.Screen
	shipped       *sarflags.Cliflags
)

// A named setting: the words a command takes and the value each stands for.
var named = map[string]map[string]string{
	"checksum":   {"off": "none", "none": "none", "crc32": "crc32", "md5": "md5", "sha1": "sha1"},
	"descriptor": {"auto": "d64", "d16": "d16", "d32": "d32", "d64": "d64"},
	"freespace":  {"yes": "yes", "no": "no"},
	"reqtstamp":  {"yes": "yes", "no": "no"},
	"stream":     {"yes": "yes", "no": "no"},
	"rxwilling":  {"on": "yes", "off": "no", "capable": "capable"},
	"txwilling":  {"on": "yes", "off": "no", "capable": "capable"},
	"timezone":   {"local": "local", "utc": "utc"},
	"timestamp":  {"32": "posix32", "32_32": "posix32_32", "64": "posix64", "64_32": "posix64_32", "32_y2k": "epoch2000_32", "local": "localinterp", "off": ""},
}

var namedKeys = slices.Sorted(maps.Keys(named))
var timeouts = []string{"metadata", "request", "status", "transfer", "datacounter"}

// Commands that set nothing.
var others = []string{"help", "?", "usage", "files", "tran", "peers", "history", "home", "ls", "cancel", "rmtran", "get", "put", "take", "give", "delete", "putblind", "getdir", "beacon"}

func number(t *rapid.T) string {
	if rapid.IntRange(0, 7).Draw(t, "zero") == 0 {
		return "0"
	}
	return strconv.FormatUint(gen.U64(t, "n", 1<<40), 10)
}

// A valid line that sets something.
func setline(t *rapid.T) string {
	switch gen.Pick(t, "kind", "named", "named", "named", "bcount", "interval", "timeout", "timeout") {
	case "named":
		c := gen.Pick(t, "cmd", namedKeys...)
		return c + " " + gen.Pick(t, "val", slices.Sorted(maps.Keys(named[c]))...)
	case "bcount":
		return "bcount " + number(t)
	case "interval":
		if rapid.IntRange(0, 4).Draw(t, "off") == 0 {
			return "interval off"
		}
		return "interval " + number(t)
	}
	if rapid.IntRange(0, 7).Draw(t, "off") == 0 {
		return "timeout " + gen.Pick(t, "which", timeouts...) + " off"
	}
	return "timeout " + gen.Pick(t, "which", timeouts...) + " " + number(t)
}

func word(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "wk") {
	case 0:
		return gen.Pick(t, "bad", "-1", "1.5", "0x10", "99999999999999999999", "1e3", "-", "?", "d128", "d8", "Yes", "YES", "yes,", "=no", "ON", "md4", "sha256", "posix32", "maybe", "\u0661")
	case 1:
		return number(t)
	case 2:
		return gen.Pick(t, "cmdw", append(append([]string{}, namedKeys...), timeouts...)...)
	case 3:
		return gen.Pick(t, "valw", "on", "off", "yes", "no", "auto", "d16", "md5", "utc", "64", "local", "capable", "none")
	}
	return rapid.StringMatching(`[a-z0-9_?:.]{1,8}`).Draw(t, "w")
}

// Any line, mostly one that sets nothing.
func anyline(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "lk") {
	case 0:
		return gen.Pick(t, "other", others...) + gen.Pick(t, "q", "", " ?")
	case 1:
		return rapid.StringMatching(`[ \t]{0,3}`).Draw(t, "blank")
	case 2:
		return rapid.StringMatching(`[a-zA-Z?]{1,10}`).Draw(t, "cmdx") + gen.Pick(t, "arg", "", " on", " off", " 5", " d16")
	case 3:
		return gen.Pick(t, "cmdq", append(append([]string{}, namedKeys...), "bcount", "interval", "timeout")...) + gen.Pick(t, "q", "", " ?")
	case 4:
		return setline(t) + " " + word(t) // A word too many
	case 5:
		return "timeout " + word(t) + gen.Pick(t, "third", "", " -1", " x", " 7", " 99999999999999999999")
	}
	return gen.Pick(t, "cmdw1", append(append([]string{}, namedKeys...), "bcount", "interval")...) + " " + word(t)
}

// spaced puts white space where none matters.
func spaced(t *rapid.T, s string) string {
	if rapid.IntRange(0, 5).Draw(t, "sp") != 0 {
		return s
	}
	return gen.Pick(t, "lead", "", " ", "\t  ") + strings.ReplaceAll(s, " ", gen.Pick(t, "sep", " ", "  ", "\t", " \t ")) + gen.Pick(t, "trail", "", " ", "  \t")
}

func canon(s string) (int, bool) {
	n, err := strconv.ParseUint(s, 10, 62)
	return int(n), err == nil && strconv.FormatUint(n, 10) == s
}

// apply is the model: what a line does to the settings.
func apply(c *sarflags.Cliflags, line string) (known, set bool) {
	f := strings.Fields(line)
	if len(f) == 0 {
		return true, false
	}
	if _, ok := sarflags.Commands[f[0]]; !ok {
		return false, false
	}
	global := map[string]string{"checksum": "csumtype"}
	switch {
	case named[f[0]] != nil && len(f) == 2:
		v, ok := named[f[0]][f[1]]
		if !ok {
			break
		}
		switch f[0] {
		case "timezone":
			c.Timezone = v
		case "timestamp":
			if v == "" {
				c.Global["reqtstamp"] = "no"
			} else {
				c.Global["reqtstamp"], c.Timestamp = "yes", v
			}
		default:
			n := f[0]
			if g := global[n]; g != "" {
				n = g
			}
			c.Global[n] = v
		}
		return true, true
	case f[0] == "interval" && len(f) == 2 && f[1] == "off":
		c.Timeout.Binterval = 0
		return true, true
	case (f[0] == "interval" || f[0] == "bcount") && len(f) == 2:
		n, ok := canon(f[1])
		if !ok {
			break
		}
		if f[0] == "bcount" {
			c.Bcount = uint(n)
		} else {
			c.Timeout.Binterval = uint(n)
		}
		return true, true
	case f[0] == "timeout" && len(f) == 3:
		n, ok := canon(f[2])
		if f[2] == "off" { // None, for this node that is a minute
			n, ok = 60, true
			if f[1] == "datacounter" {
				n = 100
			}
		}
		if !ok {
			break
		}
		switch f[1] {
		case "metadata":
			c.Timeout.Metadata = n
		case "request":
			c.Timeout.Request = n
		case "status":
			c.Timeout.Status = n
		case "transfer":
			c.Timeout.Transfer = n
		case "datacounter":
			if n == 0 {
				n = 100
			}
			c.Timeout.Datacounter = n
		default:
			return true, false
		}
		return true, true
	}
	return true, false
}

// unclear lines are ones the property says nothing about.
func unclear(line string) bool {
	if strings.HasPrefix(strings.TrimSpace(line), "clear") {
		return true // Not for the race detector, and it sets nothing
	}
	f := strings.Fields(line)
	if len(f) == 0 {
		return false
	}
	switch f[0] {
	case "exit", "quit":
		return true
	case "timeout":
		if len(f) > 3 && f[2] == "off" {
			return true
		}
	case "put", "putblind", "give", "delete", "getdir", "get", "take", "beacon":
		return len(f) > 2 || len(f) == 2 && f[1] != "?"
	}
	// Numbers in other writings may be read or refused
	for _, w := range f[1:] {
		if named[f[0]][w] != "" { // Like 64_32
			continue
		}
		if _, ok := canon(w); ok {
			continue
		}
		if _, err := strconv.ParseInt(w, 0, 64); err == nil && !strings.HasPrefix(w, "-") {
			return true
		}
		if w == "-0" || strings.HasPrefix(w, "+") || strings.HasPrefix(w, "0") {
			return true
		}
	}
	return false
}

func fresh() (got, model *sarflags.Cliflags) {
	cp := func() *sarflags.Cliflags {
		d := *shipped
		d.Global = maps.Clone(shipped.Global)
		return &d
	}
	got, model = cp(), cp()
	use(got)
	return
}

// What commands did before is over, but the race detector does not know.
//
//go:norace
func use(c *sarflags.Cliflags) { sarflags.Cliflag = c }

func same(got, want *sarflags.Cliflags) error {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
	if !reflect.DeepEqual(got, want) {
		return pbt.Errf("the settings are\n%+v\nand should be\n%+v", *got, *want)
	}
	return nil
}

func do(s *gui.Screen, line string) (bool, error) {
	ok := sarwin.Run(s.G, line)
	if !gui.Idle(30 * time.Second) {
		return ok, pbt.Errf("%q does not end", line)
	}
	return ok, nil
}

type tcase struct{ Lines []pbt.B }

func genLines(t *rapid.T) tcase {
	var c tcase
	for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
		l := ""
		if gen.Bool(t, "set") {
			l = setline(t)
		} else {
			l = anyline(t)
		}
		c.Lines = append(c.Lines, pbt.B(spaced(t, l)))
	}
	return c
}

func runLines(x *pbt.Ctx, c tcase) error {
	got, model := fresh()
	sets := 0
	for _, l := range c.Lines {
		line := string(l)
		if unclear(line) {
			continue
		}
		known, set := apply(model, line)
		ok, err := do(silent, line)
		if err != nil {
			return err
		}
		if ok != known {
			return pbt.Errf("%q: taken as a command: %v", line, ok)
		}
		if err := same(got, model); err != nil {
			return pbt.Errf("after %q: %v", line, err)
		}
		if set {
			sets++
			x.Class("set")
		} else {
			x.Class("nothing set")
		}
	}
	x.NontrivialIf(sets > 1)
	return nil
}

// What a question for a setting has to show.
func shown(c *sarflags.Cliflags, q string) string {
	num := func(n int) string {
		if n == 0 {
			return ""
		}
		return strconv.Itoa(n)
	}
	switch q {
	case "checksum":
		return c.Global["csumtype"]
	case "descriptor", "rxwilling", "txwilling":
		return c.Global[q]
	case "timezone":
		return c.Timezone
	case "timestamp":
		return c.Timestamp
	case "bcount":
		return strconv.Itoa(int(c.Bcount))
	case "interval":
		return num(int(c.Timeout.Binterval))
	case "timeout metadata":
		return num(c.Timeout.Metadata)
	case "timeout request":
		return num(c.Timeout.Request)
	case "timeout status":
		return num(c.Timeout.Status)
	case "timeout transfer":
		return num(c.Timeout.Transfer)
	case "timeout datacounter":
		return num(c.Timeout.Datacounter)
	}
	return ""
}

var questions = []string{"checksum", "descriptor", "rxwilling", "txwilling", "timezone", "timestamp", "bcount", "interval",
	"timeout metadata", "timeout request", "timeout status", "timeout transfer", "timeout datacounter", "timeout"}

type showCase struct {
	Lines []pbt.B
	Ask   string
}

func genShow(t *rapid.T) showCase {
	c := showCase{Ask: gen.Pick(t, "ask", questions...)}
	for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
		c.Lines = append(c.Lines, pbt.B(setline(t)))
	}
	return c
}

func runShow(x *pbt.Ctx, c showCase) error {
	got, model := fresh()
	for _, l := range c.Lines {
		apply(model, string(l))
		if _, err := do(drawn, string(l)); err != nil {
			return err
		}
	}
	drawn.Wait()
	drawn.Clear()
	if _, err := do(drawn, c.Ask); err != nil {
		return err
	}
	drawn.Wait()
	text := drawn.Text("msg") + drawn.Text("err")
	drawn.Clear()
	qs := []string{c.Ask}
	if c.Ask == "timeout" {
		for _, q := range timeouts {
			qs = append(qs, "timeout "+q)
		}
	}
	for _, q := range qs {
		v := shown(model, q)
		in := text
		// A timeout is shown in the line naming it
		if name, ok := strings.CutPrefix(q, "timeout "); ok {
			in = ""
			for _, l := range strings.Split(text, "\n") {
				if hasWord(l, name) {
					in = l
				}
			}
			if v == "" && (in == "" || strings.ContainsAny(in, "0123456789")) {
				return pbt.Errf("%q after %q shows %q, not that there is no %s timeout", c.Ask, c.Lines, text, name)
			}
		}
		if v != "" {
			x.Nontrivial()
			if !hasWord(in, v) {
				return pbt.Errf("%q after %q shows %q, without %q", c.Ask, c.Lines, text, v)
			}
		}
	}
	x.Class("%s", c.Ask)
	return same(got, model)
}

// hasWord: is w in text, not as a part of a longer word?
func hasWord(text, w string) bool {
	part := func(b byte) bool {
		return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	for i := 0; i+len(w) <= len(text); i++ {
		if text[i:i+len(w)] == w && (i == 0 || !part(text[i-1])) && (i+len(w) == len(text) || !part(text[i+len(w)])) {
			return true
		}
	}
	return false
}

// Commands at once: each setting ends with one of the values given for it.
type onceCase struct {
	Lines []pbt.B
	Gets  int // Transfers started meanwhile
}

func genOnce(t *rapid.T) onceCase {
	c := onceCase{Gets: rapid.IntRange(0, 2).Draw(t, "gets")}
	for i := rapid.IntRange(2, 10).Draw(t, "n"); i > 0; i-- {
		c.Lines = append(c.Lines, pbt.B(setline(t)))
	}
	return c
}

func runOnce(x *pbt.Ctx, c onceCase) error {
	got, _ := fresh()
	dir := filepath.Join(pbt.Scratch, "once")
	if err := os.RemoveAll(dir); err != nil {
		return err
	}
	if err := os.Mkdir(dir, 0o755); err != nil {
		return err
	}
	got.Sardir = dir
	model := *got
	model.Global = maps.Clone(got.Global)
	// Settings by name, and the values each may have
	flat := func(c *sarflags.Cliflags) map[string]string {
		m := map[string]string{}
		for k, v := range c.Global {
			m["global "+k] = v
		}
		d := *c
		d.Global = nil
		v := reflect.ValueOf(d)
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Struct {
				for j := 0; j < v.Field(i).NumField(); j++ {
					m[v.Type().Field(i).Name+"."+v.Field(i).Type().Field(j).Name] = fmt.Sprint(v.Field(i).Field(j))
				}
				continue
			}
			m[v.Type().Field(i).Name] = fmt.Sprint(v.Field(i))
		}
		return m
	}
	start := flat(&model)
	given := map[string][]string{}
	for _, l := range c.Lines {
		one := model
		one.Global = maps.Clone(model.Global)
		apply(&one, string(l))
		f := strings.Fields(string(l))
		for k, v := range flat(&one) {
			// A setting a line names counts also if it names the value there was
			if v != start[k] {
				given[k] = append(given[k], v)
			}
		}
		switch f[0] {
		case "timestamp", "reqtstamp":
			given["global reqtstamp"] = append(given["global reqtstamp"], one.Global["reqtstamp"])
			if f[0] == "timestamp" && f[1] != "off" {
				given["Timestamp"] = append(given["Timestamp"], one.Timestamp)
			}
		default:
			for k, v := range flat(&one) {
				if v == start[k] && names(f, k) {
					given[k] = append(given[k], v)
				}
			}
		}
	}
	sarwin.Trmu.Lock()
	sarwin.Transfers = nil
	sarwin.Trmu.Unlock()
	var wg sync.WaitGroup
	gate := make(chan bool)
	for _, l := range c.Lines {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; sarwin.Run(silent.G, string(l)) }()
	}
	for i := 0; i < c.Gets; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; sarwin.Run(silent.G, fmt.Sprintf("get 127.0.0.1 file%d", i)) }()
	}
	close(gate)
	wg.Wait()
	if !gui.Idle(30 * time.Second) {
		return pbt.Errf("the commands do not end")
	}
	allowed := func(k, v string, also bool) bool {
		if len(given[k]) == 0 || also {
			if v == start[k] {
				return true
			}
		}
		return slices.Contains(given[k], v)
	}
	sarflags.Climu.Lock()
	end := flat(got)
	sarflags.Climu.Unlock()
	for k, v := range end {
		if !allowed(k, v, false) {
			return pbt.Errf("%s is %s at the end, was %s and was set to %q", k, v, start[k], given[k])
		}
	}
	if len(end) != len(start) {
		return pbt.Errf("settings at the end: %v", end)
	}
	sarwin.Trmu.Lock()
	ts := slices.Clone(sarwin.Transfers)
	sarwin.Transfers = nil
	sarwin.Trmu.Unlock()
	if len(ts) != c.Gets {
		return pbt.Errf("%d transfers started, there are %d", c.Gets, len(ts))
	}
	for _, t := range ts {
		for k, v := range flat(t.Cliflags) {
			if !allowed(k, v, true) {
				return pbt.Errf("a transfer has %s %s, it was %s and was set to %q", k, v, start[k], given[k])
			}
		}
		if t.Tstamptype != t.Cliflags.Timestamp {
			return pbt.Errf("a transfer has the timestamp %q, its settings have %q", t.Tstamptype, t.Cliflags.Timestamp)
		}
		t.Conn.Close()
		t.Fp.Close()
	}
	x.Class("%d transfers", c.Gets)
	x.Nontrivial()
	return nil
}

// names: is the setting k the one the command is for?
func names(f []string, k string) bool {
	switch f[0] {
	case "checksum":
		return k == "global csumtype"
	case "timezone":
		return k == "Timezone"
	case "bcount":
		return k == "Bcount"
	case "interval":
		return k == "Timeout.Binterval"
	case "timeout":
		return strings.EqualFold(k, "Timeout."+f[1])
	}
	return k == "global "+f[0]
}

func TestProp(t *testing.T) {
	shipped = sar.Load(t)
	silent, drawn = gui.New(false), gui.New(true)
	pbt.Main(t, "C24",
		pbt.NewPart("lines", 1500, 20000, genLines, runLines),
		pbt.NewPart("show", 800, 10000, genShow, runShow),
		pbt.NewPart("at once", 600, 10000, genOnce, runOnce),
	)
}
