// C32: the command line, driven by the keys of a terminal.
package c32

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/sar"
	"verifharness/tty"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
	"pgregory.net/rapid"
)

const cols, rows = 120, 40

var (
	events  chan termbox.Event // What the keyboard sends
	g       *gocui.Gui
	asked   bool // The next drawing is to be told of; only the main loop uses it
	drawn   = make(chan bool, 1)
	ended   = make(chan error, 1)
	packets bool // Is the packet window shown?
	shipped *sarflags.Cliflags
)

var keys = map[string]termbox.Key{
	"left": termbox.KeyArrowLeft, "right": termbox.KeyArrowRight, "up": termbox.KeyArrowUp, "down": termbox.KeyArrowDown,
	"enter": termbox.KeyEnter, "backspace": termbox.KeyBackspace2, "backspace2": termbox.KeyBackspace, "delete": termbox.KeyDelete,
	"window": termbox.KeyCtrlSpace, "packets": termbox.KeyCtrlP, "drawn": termbox.KeyF12,
}

// start the terminal, once.
func start(t *testing.T) error {
	var err error
	if g, err = gocui.NewGui(gocui.OutputNormal); err != nil {
		return err
	}
	g.SetManagerFunc(func(g *gocui.Gui) error {
		err := sarwin.Layout(g)
		if asked {
			asked = false
			drawn <- true
		}
		return err
	})
	if err := sarwin.Keybindings(g); err != nil {
		return err
	}
	if err := g.SetKeybinding("", gocui.KeyF12, gocui.ModNone, func(*gocui.Gui, *gocui.View) error { asked = true; return nil }); err != nil {
		return err
	}
	f := reflect.ValueOf(g).Elem().FieldByName("tbEvents")
	events = *(*chan termbox.Event)(unsafe.Pointer(f.UnsafeAddr()))
	go func() { ended <- g.MainLoop() }()
	return nil
}

// send an event as the terminal would.
func send(k termbox.Key, r rune) { events <- termbox.Event{Type: termbox.EventKey, Key: k, Ch: r} }

// press keys, and wait until what they did is on the screen.
func press(k key) error {
	if n, ok := keys[k.Name]; ok {
		send(n, 0)
	}
	for _, r := range k.Text {
		if r == ' ' {
			send(termbox.KeySpace, 0)
		} else if r == '\n' {
			send(termbox.KeyEnter, 0)
		} else {
			send(0, r)
		}
	}
	send(keys["drawn"], 0)
	select {
	case <-drawn:
		return nil
	case err := <-ended:
		ended <- err
		return pbt.Errf("after %v the screen is given up: %v", k, err)
	case <-time.After(20 * time.Second):
		return pbt.Errf("after %v nothing is drawn any more", k)
	}
}

// settle waits until the commands have ended and what they print is on the screen.
func settle() error {
	// What was done before is to be drawn first: a drawing can print, too
	if err := press(key{}); err != nil {
		return err
	}
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("the command does not end")
	}
	return press(key{})
}

// in runs f in the main loop.
func in(f func(*gocui.Gui)) {
	done := make(chan bool)
	g.Update(func(g *gocui.Gui) error { f(g); close(done); return nil })
	<-done
}

// key is a key, or text when it is no name of one. A \n in text is enter: what comes after it is typed before
// anything else can happen.
type key struct {
	Name string
	Text string `json:",omitempty"`
}

type tcase struct {
	Prompt string
	Keys   []key
}

func genText(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "kind") {
	case 0, 1:
		return gen.Pick(t, "command", "bcount ", "interval ", "timezone utc", "stream yes", "peers", "bogus") + gen.Pick(t, "more", "", "", " 7", "?")
	case 2:
		return "interval " + strconv.Itoa(rapid.IntRange(1, 9999).Draw(t, "interval"))
	case 3:
		return gen.Pick(t, "word", "a:b", ":", "::1", "x y", " ", "  z", "é", "naïve", "[3]:", "saratoga[1]:", "世")
	case 4:
		if rapid.IntRange(0, 3).Draw(t, "wide") == 0 { // Wider than the window, maybe
			return "bogus " + rapid.StringOfN(rapid.RuneFrom([]rune("abz019:. é")), 20, 90, -1).Draw(t, "text")
		}
		var s string
		for i := rapid.IntRange(2, 4).Draw(t, "pasted"); i > 0; i-- {
			s += gen.Pick(t, "line", "bogus", "interval 5", "é", "x y", "", "peers") + gen.Pick(t, "nl", "\n", "\n", "")
		}
		return s
	default:
		return rapid.StringOfN(rapid.RuneFrom([]rune("abz019:. []=é")), 1, 6, -1).Draw(t, "text")
	}
}

func genCase(t *rapid.T) tcase {
	c := tcase{Prompt: gen.Pick(t, "prompt", "saratoga", "saratoga", "s", "node:1", "sär", "")}
	long := rapid.IntRange(0, 3).Draw(t, "long") == 0 // Enough lines to scroll
	n := rapid.IntRange(1, 25).Draw(t, "n")
	if long {
		for i := rapid.IntRange(5, 14).Draw(t, "lines"); i > 0; i-- {
			c.Keys = append(c.Keys, key{Text: gen.Pick(t, "line", "bogus", "interval 5", "é", "x")}, key{Name: "enter"})
		}
	}
	if rapid.IntRange(0, 39).Draw(t, "longer") == 0 { // More than any terminal shows
		for i := rapid.IntRange(50, 150).Draw(t, "many lines"); i > 0; i-- {
			c.Keys = append(c.Keys, key{Text: "x"}, key{Name: "enter"})
		}
	}
	for ; n > 0; n-- {
		if rapid.IntRange(0, 19).Draw(t, "walk") == 0 { // To the first line or back
			k := gen.Pick(t, "way", "up", "up", "down")
			for i := rapid.IntRange(3, 15).Draw(t, "steps"); i > 0; i-- {
				c.Keys = append(c.Keys, key{Name: k})
			}
		}
		switch k := rapid.IntRange(0, 13).Draw(t, "what"); {
		case k < 5:
			c.Keys = append(c.Keys, key{Text: genText(t)})
		case k < 8 || long && k < 10:
			c.Keys = append(c.Keys, key{Name: "enter"})
		default:
			c.Keys = append(c.Keys, key{Name: gen.Pick(t, "key", "left", "left", "left", "right", "up", "up", "down", "backspace", "backspace2", "delete", "window", "packets")})
		}
	}
	return c
}

// split is the keys that k is, one after the other.
func (k key) split() []key {
	if !strings.Contains(k.Text, "\n") {
		return []key{k}
	}
	var r []key
	for i, s := range strings.Split(k.Text, "\n") {
		if i > 0 {
			r = append(r, key{Name: "enter"})
		}
		if s != "" {
			r = append(r, key{Text: s})
		}
	}
	return r
}

// model is what the command line should be.
type model struct {
	prompt   string
	lines    [][]rune // With their prompts
	row, col int
	hist     []string
	window   string
	height   int
}

func (m *model) plen(row int) int { return len([]rune(m.prompt)) + len(strconv.Itoa(row)) + 3 }

func (m *model) open() {
	n := len(m.lines)
	m.lines = append(m.lines, []rune(fmt.Sprintf("%s[%d]:", m.prompt, n)))
	m.row, m.col = n, m.plen(n)
}

// press is what a key does; it tells the line to be run.
func (m *model) press(k key, shown *bool) (run string, runs bool) {
	cur := len(m.lines) - 1
	switch k.Name {
	case "packets":
		*shown = !*shown
		return
	case "window":
		next := map[string]string{"cmd": "msg", "msg": "err", "err": "cmd", "packet": "err"}
		if m.window == "msg" && *shown {
			m.window = "packet"
		} else {
			m.window = next[m.window]
		}
		if m.window == "cmd" {
			m.row = cur
		}
		return
	}
	if m.window != "cmd" {
		return
	}
	l := &m.lines[m.row]
	switch k.Name {
	case "left":
		if m.col > m.plen(cur) {
			m.col--
		}
	case "right":
		m.col = min(m.col+1, len(*l))
	case "up":
		m.row = max(m.row-1, max(0, len(m.lines)-m.height))
	case "down":
		m.row = min(m.row+1, cur)
	case "backspace", "backspace2", "delete":
		if m.col > m.plen(cur) {
			m.col--
			if m.col < len(*l) {
				*l = append(append([]rune{}, (*l)[:m.col]...), (*l)[m.col+1:]...)
			}
		}
	case "enter":
		text := string((*l)[m.plen(m.row):])
		if text == "" {
			return
		}
		m.hist = append(m.hist, text)
		if m.row == cur {
			m.open()
		}
		return text, true
	default:
		for _, r := range k.Text {
			for len(*l) <= m.col {
				*l = append(*l, ' ')
			}
			(*l)[m.col] = r
			m.col++
		}
	}
	return
}

func (m *model) is() error {
	var err error
	in(func(g *gocui.Gui) {
		v, e := g.View("cmd")
		if e != nil {
			err = e
			return
		}
		got := v.BufferLines()
		if len(got) != len(m.lines) {
			err = pbt.Errf("lines %q, should be %q", got, m.lines)
			return
		}
		for i := range got {
			if got[i] != string(m.lines[i]) {
				err = pbt.Errf("line %d is %q, should be %q", i, got[i], string(m.lines[i]))
				return
			}
		}
		cx, cy := v.Cursor()
		ox, oy := v.Origin()
		if ox+cx != m.col || oy+cy != m.row {
			err = pbt.Errf("the cursor is at line %d, column %d, should be at %d, %d", oy+cy, ox+cx, m.row, m.col)
			return
		}
		if cur := g.CurrentView(); cur == nil || cur.Name() != m.window {
			err = pbt.Errf("the window is not %s", m.window)
			return
		}
		at := map[string]int{}
		for i, v := range g.Views() {
			at[v.Name()] = i
		}
		if packets != (at["packet"] > at["msg"]) {
			err = pbt.Errf("the packet window is switched on: %v; the windows, from the back: %v", packets, at)
			return
		}
		if len(sarwin.Cinfo.Commands) != len(m.hist) {
			err = pbt.Errf("remembered are %q, should be %q", sarwin.Cinfo.Commands, m.hist)
			return
		}
		for i, h := range m.hist {
			if sarwin.Cinfo.Commands[i] != h {
				err = pbt.Errf("remembered are %q, should be %q", sarwin.Cinfo.Commands, m.hist)
				return
			}
		}
	})
	return err
}

func run(x *pbt.Ctx, c tcase) error {
	m := &model{prompt: c.Prompt, window: "cmd"}
	cl, err := shipped.CopyCliflags()
	if err != nil {
		return err
	}
	*sarflags.Cliflag = *cl
	if packets { // It was switched on in the case before
		packets = false
		if err := press(key{Name: "packets"}); err != nil {
			return err
		}
	}
	// What was printed before, if only the first prompt of all, is not to come later
	if err := settle(); err != nil {
		return err
	}
	in(func(g *gocui.Gui) {
		for _, v := range []string{"cmd", "msg", "err", "packet"} {
			g.DeleteView(v)
		}
		sarwin.Cinfo = sarwin.Cmdinfo{Prompt: c.Prompt, Ppad: 3}
		sarwin.FirstPass = true
	})
	if err := settle(); err != nil {
		return err
	}
	m.open()
	if err := settle(); err != nil {
		return err
	}
	in(func(g *gocui.Gui) {
		v, _ := g.View("cmd")
		_, m.height = v.Size()
	})
	if err := m.is(); err != nil {
		return pbt.Errf("at the start: %v", err)
	}
	ran, again, edits := 0, 0, 0
	for i, k := range c.Keys {
		if w := len(m.lines) - 1; m.window == "cmd" && m.col <= m.plen(w) && m.plen(m.row) < m.plen(w) &&
			(k.Name == "left" || strings.HasPrefix(k.Name, "backspace") || k.Name == "delete") {
			continue // Whether these go on to the shorter prompt of an earlier line is open
		}
		what := fmt.Sprintf("key %d (%s%s)", i, k.Name, k.Text)
		before := strings.Count(text("err"), "Invalid command:")
		var lines []string
		for _, sub := range k.split() {
			last := m.row == len(m.lines)-1
			line, runs := m.press(sub, &packets)
			if runs {
				lines = append(lines, line)
				ran++
				if !last {
					again++
				}
			}
		}
		if err := press(k); err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		if k.Name == "enter" || k.Name == "window" || strings.Contains(k.Text, "\n") {
			if err := settle(); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
		}
		if err := m.is(); err != nil {
			return pbt.Errf("after %s: %v", what, err)
		}
		if k.Name == "delete" || k.Name == "left" || strings.HasPrefix(k.Name, "backspace") {
			edits++
		}
		e := text("err")
		n := strings.Count(e, "Invalid command:") - before
		invalid, sets := 0, 0
		for _, line := range lines {
			f := strings.Fields(line)
			if len(f) == 0 {
				continue
			}
			if f[0] == "interval" {
				sets++
			}
			if _, known := sarflags.Commands[f[0]]; known {
				continue
			}
			invalid++
			if !strings.Contains(e, "Invalid command:"+f[0]) {
				return pbt.Errf("%s: %q was run, errors: %q", what, line, e)
			}
		}
		if n != invalid {
			return pbt.Errf("%s: %q was run, with %d errors, not %d: %q", what, lines, n, invalid, e)
		}
		for _, line := range lines {
			f := strings.Fields(line)
			if sets != 1 || len(f) != 2 || f[0] != "interval" {
				continue
			}
			if v, err := strconv.Atoi(f[1]); err == nil && v > 0 && strconv.Itoa(v) == f[1] && v < 1<<30 {
				x.Class("a setting")
				sarflags.Climu.Lock()
				got := sarflags.Cliflag.Timeout.Binterval
				sarflags.Climu.Unlock()
				if int(got) != v {
					return pbt.Errf("%s: %q was run and the interval is %v", what, line, got)
				}
			}
		}
	}
	for _, l := range m.lines {
		if len(l) >= cols/2-2 {
			x.Class("wider than the window")
		}
	}
	x.Class("%d run", min(ran, 5))
	if again > 0 {
		x.Class("a line is run again")
	}
	if len(m.lines) > m.height {
		x.Class("scrolled")
	}
	x.NontrivialIf(ran > 0 && edits > 0)
	return nil
}

func text(w string) string {
	var s string
	in(func(g *gocui.Gui) {
		if v, err := g.View(w); err == nil {
			s = v.Buffer()
		}
	})
	return s
}

func TestProp(t *testing.T) {
	if !tty.Own(t, cols, rows) {
		return
	}
	var err error
	if shipped, err = sar.Load(t).CopyCliflags(); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	if err := start(t); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	for i := 0; i < 2; i++ { // The screen is drawn, and with what that printed
		if err := settle(); err != nil {
			t.Fatal("TROUBLE: ", err)
		}
	}
	pbt.Main(t, "C32",
		pbt.NewPart("keys", 400, 6000, genCase, run),
	)
}
