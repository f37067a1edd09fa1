// C40: the windows as they are drawn on a terminal of any size.
package c40

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/sar"
	"verifharness/tty"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
	"pgregory.net/rapid"
)

const prompt = "saratoga"

var (
	events  chan termbox.Event // What the keyboard sends
	g       *gocui.Gui
	asked   bool // The next drawing is to be told of; only the main loop uses it
	drawn   = make(chan bool, 1)
	ended   = make(chan error, 1)
	packets bool // Is the packet window shown?
	shipped *sarflags.Cliflags
	term    = os.NewFile(3, "tty")
)

var keys = map[string]termbox.Key{
	"up": termbox.KeyArrowUp, "down": termbox.KeyArrowDown, "enter": termbox.KeyEnter, "backspace": termbox.KeyBackspace2,
	"window": termbox.KeyCtrlSpace, "packets": termbox.KeyCtrlP, "drawn": termbox.KeyF12,
}

var names = []string{"cmd", "err", "msg", "packet"}

func start() error {
	var err error
	if g, err = gocui.NewGui(gocui.OutputNormal); err != nil {
		return err
	}
	g.SetManagerFunc(func(g *gocui.Gui) error {
		err := sarwin.Layout(g)
		if asked {
			asked = false
			drawn <- true
		}
		return err
	})
	if err := sarwin.Keybindings(g); err != nil {
		return err
	}
	if err := g.SetKeybinding("", gocui.KeyF12, gocui.ModNone, func(*gocui.Gui, *gocui.View) error { asked = true; return nil }); err != nil {
		return err
	}
	f := reflect.ValueOf(g).Elem().FieldByName("tbEvents")
	events = *(*chan termbox.Event)(unsafe.Pointer(f.UnsafeAddr()))
	go func() { ended <- g.MainLoop() }()
	return nil
}

func press(name, text string) error {
	if n, ok := keys[name]; ok {
		events <- termbox.Event{Type: termbox.EventKey, Key: n}
	}
	for _, r := range text {
		if r == ' ' {
			events <- termbox.Event{Type: termbox.EventKey, Key: termbox.KeySpace}
		} else {
			events <- termbox.Event{Type: termbox.EventKey, Ch: r}
		}
	}
	events <- termbox.Event{Type: termbox.EventKey, Key: keys["drawn"]}
	select {
	case <-drawn:
		return nil
	case err := <-ended:
		ended <- err
		return pbt.Errf("the screen is given up: %v", err)
	case <-time.After(20 * time.Second):
		return pbt.Errf("nothing is drawn any more")
	}
}

// settle waits until all that is to come is on the screen.
func settle() error {
	if err := press("", ""); err != nil {
		return err
	}
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("the command does not end")
	}
	return press("", "")
}

// in runs f in the main loop.
func in(f func(*gocui.Gui)) {
	done := make(chan bool)
	g.Update(func(g *gocui.Gui) error { f(g); close(done); return nil })
	<-done
}

func resize(w, h int) error {
	ws := [4]uint16{uint16(h), uint16(w)}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, term.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws))); e != 0 {
		return e
	}
	return settle()
}

// op is one thing done.
type op struct {
	Kind   string // print, burst, clear, type, enter, resize, window, packets, up, down, backspace
	Window string `json:",omitempty"`
	Colour string `json:",omitempty"`
	Text   string `json:",omitempty"`
	Line   bool   `json:",omitempty"` // Println
	Bare   bool   `json:",omitempty"` // Printf of the format alone
	N      int    `json:",omitempty"`
	W, H   int    `json:",omitempty"`
}

type tcase struct {
	W, H int
	Ops  []op
}

var hues = []string{"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"}

func genColour(t *rapid.T) string {
	f := gen.Pick(t, "style", "", "", "u", "i") + gen.Pick(t, "fg", hues...)
	switch rapid.IntRange(0, 9).Draw(t, "colour") {
	case 0:
		return f
	case 1:
		return gen.Pick(t, "odd", "pink", "red_pink", "pink_red", "red_green_blue", "_", "red_", "_red", "Red_black", "bred_black", "red_ired")
	case 2:
		return ""
	}
	return f + "_" + gen.Pick(t, "bright", "", "", "b") + gen.Pick(t, "bg", hues...)
}

func genSize(t *rapid.T) (int, int) {
	switch rapid.IntRange(0, 5).Draw(t, "size") {
	case 0:
		return rapid.IntRange(16, 60).Draw(t, "w"), rapid.IntRange(16, 40).Draw(t, "h")
	case 1:
		return rapid.IntRange(1, 24).Draw(t, "w"), rapid.IntRange(1, 24).Draw(t, "h")
	}
	return rapid.IntRange(40, 200).Draw(t, "w"), rapid.IntRange(20, 70).Draw(t, "h")
}

func genText(t *rapid.T) string {
	n := 30
	if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
		n = 150
	}
	return rapid.StringOfN(rapid.RuneFrom([]rune("abcxyz0189:.,%\\[]()_- é")), 0, n, -1).Draw(t, "text")
}

func genCase(t *rapid.T) tcase {
	var c tcase
	c.W, c.H = genSize(t)
	for n := rapid.IntRange(1, 14).Draw(t, "ops"); n > 0; n-- {
		o := op{Kind: gen.Pick(t, "kind", "print", "print", "print", "burst", "burst", "clear", "type", "type", "enter", "lines", "resize", "resize", "resize", "window", "packets", "up", "down", "backspace")}
		switch o.Kind {
		case "print", "burst":
			o.Window = gen.Pick(t, "window", "msg", "msg", "err", "packet")
			o.Colour, o.Text, o.Line, o.Bare = genColour(t), genText(t), gen.Bool(t, "line"), gen.Bool(t, "bare")
			o.N = 1
			if o.Kind == "burst" {
				o.N = rapid.IntRange(2, 70).Draw(t, "n")
				o.Window = gen.Pick(t, "burst window", "msg", "err", "packet")
			}
		case "clear":
			o.Window, o.Line = gen.Pick(t, "window", "msg", "err", "packet", ""), gen.Bool(t, "at once")
		case "type":
			o.Text = genText(t)
		case "lines":
			o.N = rapid.IntRange(2, 20).Draw(t, "n")
		case "resize":
			o.W, o.H = genSize(t)
			switch rapid.IntRange(0, 3).Draw(t, "way") { // Only one of them, maybe by little
			case 0:
				o.W = 0
				if gen.Bool(t, "more") {
					o.H = -rapid.IntRange(1, 12).Draw(t, "by")
				}
			case 1:
				o.H = 0
			}
		}
		c.Ops = append(c.Ops, o)
		if o.Kind == "burst" && rapid.IntRange(0, 1).Draw(t, "scroll") == 0 {
			// Scrolled, then there is less to show or more space to show it
			c.Ops = append(c.Ops, op{Kind: "into", Window: o.Window})
			for k := rapid.IntRange(0, 4).Draw(t, "keys"); k > 0; k-- {
				c.Ops = append(c.Ops, op{Kind: gen.Pick(t, "key", "down", "up")})
			}
			if gen.Bool(t, "clear it") {
				c.Ops = append(c.Ops, op{Kind: "clear", Window: o.Window, Line: gen.Bool(t, "at once")})
			} else {
				c.Ops = append(c.Ops, op{Kind: "resize", W: rapid.IntRange(120, 240).Draw(t, "w"), H: rapid.IntRange(60, 100).Draw(t, "h")})
			}
			c.Ops = append(c.Ops, op{Kind: "print", Window: o.Window, Colour: genColour(t), Text: genText(t), Line: true, N: 1})
		}
	}
	return c
}

// shade is how a colour is to be drawn.
type shade struct {
	fg, bg             int
	reverse, underline bool
	any                bool // Without a colour
}

func shadeOf(colour string) shade {
	odd := shade{fg: 7, bg: 1}
	if colour == "" {
		return shade{any: true}
	}
	at := func(s string) int {
		for i, h := range hues {
			if h == s {
				return i
			}
		}
		return -1
	}
	f, b, two := strings.Cut(colour, "_")
	if !two {
		b = "black"
	}
	var s shade
	s.fg, s.bg = at(f), at(b)
	if s.fg < 0 && f != "" {
		s.fg, s.underline, s.reverse = at(f[1:]), f[0] == 'u', f[0] == 'i'
		if !s.underline && !s.reverse {
			s.fg = -1
		}
	}
	if s.bg < 0 && strings.HasPrefix(b, "b") {
		s.bg = at(b[1:])
	}
	if s.fg < 0 || s.bg < 0 {
		return odd
	}
	return s
}

func (s shade) is(c termbox.Cell) bool {
	if s.any {
		return true
	}
	const hue = 0xff
	return int(c.Fg&hue) == s.fg+1 && int(c.Bg&hue) == s.bg+1 && (c.Fg&termbox.AttrReverse != 0) == s.reverse &&
		(!s.underline || c.Fg&termbox.AttrUnderline != 0)
}

type line struct {
	text   string
	colour string
}

// state is what should be seen.
type state struct {
	w, h     int
	lines    map[string][]line
	only     map[string]bool // The window has nothing else
	cmd      string          // What is typed
	prompts  int
	window   string
	cmdLines int
}

func wide(r rune) bool { return r > 0xff }

type screen struct {
	w, h    int
	cells   []termbox.Cell
	rect    map[string][4]int
	plain   map[string][2]gocui.Attribute
	cx, cy  int // In the cmd window
	ox, oy  int
	current string
}

func look() screen {
	s := screen{rect: map[string][4]int{}, plain: map[string][2]gocui.Attribute{}}
	in(func(g *gocui.Gui) {
		s.w, s.h = termbox.Size()
		s.cells = append([]termbox.Cell{}, termbox.CellBuffer()...)
		for _, n := range names {
			if x0, y0, x1, y1, err := g.ViewPosition(n); err == nil {
				s.rect[n] = [4]int{x0, y0, x1, y1}
				v, _ := g.View(n)
				s.plain[n] = [2]gocui.Attribute{v.FgColor, v.BgColor}
			}
		}
		if v, err := g.View("cmd"); err == nil {
			s.cx, s.cy = v.Cursor()
			s.ox, s.oy = v.Origin()
		}
		if v := g.CurrentView(); v != nil {
			s.current = v.Name()
		}
	})
	return s
}

func (s screen) at(x, y int) termbox.Cell { return s.cells[y*s.w+x] }

func (s screen) row(n string, y int) string {
	r := s.rect[n]
	var b strings.Builder
	for x := r[0] + 1; x < r[2]; x++ {
		b.WriteRune(s.at(x, r[1]+1+y).Ch)
	}
	return strings.TrimRight(b.String(), " \x00")
}

func (s screen) all() string {
	var b strings.Builder
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			if c := s.at(x, y).Ch; c == 0 {
				b.WriteByte(' ')
			} else {
				b.WriteRune(c)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// places checks where the windows are.
func (s screen) places() error {
	for _, n := range names {
		r, ok := s.rect[n]
		if !ok {
			return pbt.Errf("there is no window %s", n)
		}
		if r[0] < 0 || r[1] < 0 || r[2] >= s.w || r[3] >= s.h || r[2]-r[0] < 2 || r[3]-r[1] < 2 {
			return pbt.Errf("window %s is at %v in a terminal of %d by %d", n, r, s.w, s.h)
		}
		for _, o := range names {
			q := s.rect[o]
			if n == o || n == "msg" && o == "packet" || n == "packet" && o == "msg" {
				continue
			}
			if r[0] <= q[2] && q[0] <= r[2] && r[1] <= q[3] && q[1] <= r[3] {
				return pbt.Errf("window %s is at %v, %s at %v", n, r, o, q)
			}
		}
		if n == "packet" && !packets || r[2]-r[0] < 30 {
			continue
		}
		var top strings.Builder
		for x := r[0]; x <= r[2]; x++ {
			top.WriteRune(s.at(x, r[1]).Ch)
		}
		if !strings.Contains(top.String(), n) {
			return pbt.Errf("the top of window %s is %q", n, top.String())
		}
		if mark := s.at(r[0], r[3]).Fg != s.at(s.rect["cmd"][0], s.rect["cmd"][3]).Fg; mark != ((n == s.current) != (s.current == "cmd")) {
			return pbt.Errf("keys go to window %s, and the edge of %s is not as it should be", s.current, n)
		}
	}
	return nil
}

// shown checks what is in a window that shows the latest.
func (s screen) shown(n string, want []line, only bool) error {
	r := s.rect[n]
	w, h := r[2]-r[0]-1, r[3]-r[1]-1
	if h < 3 {
		return nil
	}
	covered := func(x, y int) bool {
		p := s.rect["packet"]
		return n == "msg" && packets && x >= p[0] && x <= p[2] && y >= p[1] && y <= p[3]
	}
	y := h - 1
	blank := func(y int) bool {
		for x := r[0] + 1; x < r[2]; x++ {
			if c := s.at(x, r[1]+1+y).Ch; !covered(x, r[1]+1+y) && c != ' ' && c != 0 {
				return false
			}
		}
		return true
	}
	for y >= 0 && blank(y) {
		y--
	}
	for i := len(want) - 1; i >= 0; i-- {
		text := []rune(want[i].text)
		if len(text)%w == 0 && i < len(want)-1 { // A line that is just full
			for y >= 0 && blank(y) {
				y--
			}
		}
		sh := shadeOf(want[i].colour)
		for k := (len(text) - 1) / w; k >= 0; k-- {
			if y < 0 {
				all := (len(text)-1)/w + 1
				space := h - 1 // The row after the last line
				if len(text)%w == 0 {
					space--
				}
				if i == len(want)-1 && all-1-k < min(all, space) {
					return pbt.Errf("window %s does not show all of %q", n, want[i].text)
				}
				return nil
			}
			part := text[k*w : min(len(text), (k+1)*w)]
			for x := 0; x < w; x++ {
				if covered(r[0]+1+x, r[1]+1+y) {
					continue
				}
				c := s.at(r[0]+1+x, r[1]+1+y)
				e := ' '
				if x < len(part) {
					e = part[x]
				}
				if c.Ch == 0 {
					c.Ch = ' '
				}
				if c.Ch != e {
					return pbt.Errf("window %s, row %d is %q, should have %q of line %q", n, y, s.row(n, y), string(part), want[i].text)
				}
				if x < len(part) && (!sh.is(c) || sh.any && (gocui.Attribute(c.Fg) != s.plain[n][0] || gocui.Attribute(c.Bg) != s.plain[n][1])) {
					return pbt.Errf("window %s, row %d: %q of %q is drawn in %x on %x, not %q", n, y, string(part[x]), want[i].text, c.Fg, c.Bg, want[i].colour)
				}
			}
			y--
		}
	}
	if only {
		for ; y >= 0; y-- {
			if !blank(y) {
				return pbt.Errf("window %s still has %q, it should have nothing but %d lines", n, s.row(n, y), len(want))
			}
		}
	}
	return nil
}

// rows is how many rows lines take in a window so wide.
func rows(l []line, w int) int {
	n := 0
	for _, x := range l {
		n += len([]rune(x.text))/w + 1
	}
	return n + 1
}

func (m *state) check(x *pbt.Ctx) error {
	s := look()
	if s.w != m.w || s.h != m.h {
		return pbt.Errf("the terminal has %d by %d, drawn is %d by %d", m.w, m.h, s.w, s.h)
	}
	if m.w < 16 || m.h < 16 {
		x.Class("no space")
		return nil
	}
	err := s.places()
	if err == nil {
		err = s.shown("msg", m.lines["msg"], m.only["msg"])
	}
	if err == nil {
		err = s.shown("err", m.lines["err"], m.only["err"])
	}
	r := s.rect["packet"]
	if err == nil && packets && m.only["packet"] && rows(m.lines["packet"], r[2]-r[0]-1) <= r[3]-r[1]-1 {
		err = s.shown("packet", m.lines["packet"], m.only["packet"])
	}
	r = s.rect["cmd"]
	w, h := r[2]-r[0]-1, r[3]-r[1]-1
	if err == nil && (s.cx < 0 || s.cx >= w || s.cy < 0 || s.cy >= h) {
		err = pbt.Errf("the cursor is in row %d, column %d of the command window of %d by %d", s.cy, s.cx, w, h)
	}
	if err == nil && m.window == "cmd" {
		l := []rune(fmt.Sprintf("%s[%d]:%s", prompt, m.prompts, m.cmd))
		if len(l) >= w {
			l = l[len(l)-w+1:]
			x.Class("a command wider than its window")
		}
		if got := s.row("cmd", s.cy); got != strings.TrimRight(string(l), " ") {
			err = pbt.Errf("the row the cursor is in is %q, should be %q", got, string(l))
		} else if s.cx != len(l) {
			err = pbt.Errf("the cursor is in column %d of %q", s.cx, string(l))
		}
	}
	if err != nil {
		return pbt.Errf("%v; the screen is\n%s", err, s.all())
	}
	return nil
}

func run(x *pbt.Ctx, c tcase) error {
	cl, err := shipped.CopyCliflags()
	if err != nil {
		return err
	}
	*sarflags.Cliflag = *cl
	if packets { // It was switched on in the case before
		packets = false
		if err := press("packets", ""); err != nil {
			return err
		}
	}
	if err := settle(); err != nil {
		return err
	}
	if err := resize(c.W, c.H); err != nil {
		return err
	}
	in(func(g *gocui.Gui) {
		for _, v := range names {
			g.DeleteView(v)
		}
		sarwin.Cinfo = sarwin.Cmdinfo{Prompt: prompt, Ppad: 3}
		sarwin.FirstPass = true
	})
	if err := settle(); err != nil {
		return err
	}
	m := &state{w: c.W, h: c.H, window: "cmd", lines: map[string][]line{}, only: map[string]bool{"msg": true, "err": true, "packet": true}}
	if err := m.check(x); err != nil {
		return pbt.Errf("at the start: %v", err)
	}
	serial, printed, sized := 0, 0, 0
	for i, o := range c.Ops {
		what := fmt.Sprintf("operation %d, %s", i, o.Kind)
		x.Class("%s %s", o.Kind, o.Window)
		switch o.Kind {
		case "print", "burst":
			f := map[string]func(*gocui.Gui, string, string, ...any){"msg": sarwin.MsgPrintf, "err": sarwin.ErrPrintf, "packet": sarwin.PacketPrintf}[o.Window]
			ln := map[string]func(*gocui.Gui, string, ...any){"msg": sarwin.MsgPrintln, "err": sarwin.ErrPrintln, "packet": sarwin.PacketPrintln}[o.Window]
			for k := 0; k < o.N; k++ {
				serial++
				l := line{fmt.Sprintf("%d<%s>", serial, o.Text), o.Colour}
				m.lines[o.Window] = append(m.lines[o.Window], l)
				if o.Bare && !o.Line && !strings.Contains(o.Text, "%") {
					f(g, o.Colour, l.text+"\n")
				} else if o.Line {
					ln(g, o.Colour, l.text)
				} else {
					f(g, o.Colour, "%d<%s>\n", serial, o.Text)
				}
				gui.Idle(20 * time.Second) // They come in any order else
			}
			printed += o.N
		case "clear":
			if o.Line && o.Window != "" {
				sarwin.Clearwin(g, o.Window)
			} else {
				sarwin.Run(g, strings.TrimSpace("clear "+o.Window))
			}
			for _, n := range names {
				if n == o.Window || o.Window == "" {
					if len(m.lines[n]) > m.h {
						x.Class("cleared when scrolled")
					}
					m.lines[n], m.only[n] = nil, true
				}
			}
			if !o.Line || o.Window == "" { // Told of in the messages
				m.lines["msg"], m.only["msg"] = nil, false
			}
		case "type":
			if m.window == "cmd" {
				m.cmd += o.Text
			}
			if err := press("", o.Text); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
		case "enter":
			if m.window != "cmd" {
				break // It scrolls there
			}
			if err := press("enter", ""); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			if m.cmd != "" {
				m.prompts++
				m.cmd = ""
				// What the line did is the matter of others
				m.lines["err"], m.only["err"] = nil, false
				m.lines["msg"], m.only["msg"] = nil, false
				m.lines["packet"], m.only["packet"] = nil, false
			}
		case "lines":
			if m.window != "cmd" {
				break
			}
			for k := 0; k < o.N; k++ {
				if err := press("", "x"); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				if err := press("enter", ""); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				m.prompts++
				m.cmd = ""
			}
			m.lines["err"], m.only["err"] = nil, false
		case "backspace":
			if m.window == "cmd" && m.cmd != "" {
				r := []rune(m.cmd)
				m.cmd = string(r[:len(r)-1])
			}
			if err := press("backspace", ""); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
		case "resize":
			if o.W > 0 {
				m.w = o.W
			}
			if o.H > 0 {
				m.h = o.H
			} else if m.h += o.H; m.h < 1 {
				m.h = 1
			}
			if err := resize(m.w, m.h); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			sized++
		case "packets":
			packets = !packets
			if err := press("packets", ""); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
		case "window":
			if err := press("window", ""); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			m.lines["err"], m.only["err"] = nil, false // It is told of there
			m.window = look().current
		case "into":
			if o.Window == "packet" && !packets {
				packets = true
				if err := press("packets", ""); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
			}
			for k := 0; k < len(names) && m.window != o.Window; k++ {
				if err := press("window", ""); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				if err := settle(); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				m.window = look().current
			}
			if m.window != o.Window {
				return pbt.Errf("%s: no way to window %s", what, o.Window)
			}
			m.lines["err"], m.only["err"] = nil, false
		case "up", "down":
			if m.window == "cmd" {
				break
			}
			if err := press(o.Kind, ""); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
		}
		if err := settle(); err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		if err := m.check(x); err != nil {
			return pbt.Errf("after %s: %v", what, err)
		}
	}
	x.NontrivialIf(printed > 0 && sized+len(c.Ops) > 2)
	return nil
}

func TestProp(t *testing.T) {
	if !tty.Own(t, 120, 40) {
		return
	}
	var err error
	if shipped, err = sar.Load(t).CopyCliflags(); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	if err := start(); err != nil {
		t.Fatal("TROUBLE: ", err)
	}
	for i := 0; i < 2; i++ {
		if err := settle(); err != nil {
			t.Fatal("TROUBLE: ", err)
		}
	}
	pbt.Main(t, "C40", pbt.NewPart("screen", 300, 5000, genCase, run))
}
