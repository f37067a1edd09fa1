// C35: what the node is asked to show, of its transfers and of its commands.
package c35

import (
	"fmt"
	"net"
	"slices"
	"strings"
	"testing"
	"time"

	"verifharness/gen"
	"verifharness/gui"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"pgregory.net/rapid"
)

var scr *gui.Screen
var names []string

var kinds = []string{"get", "take", "getdir", "put", "putblind", "give", "delete"}

// show runs a line and tells what is in the windows afterwards.
func show(line string) (msg, errs string, err error) {
	scr.Clear()
	if !sarwin.Run(scr.G, line) {
		return "", "", pbt.Errf("%q is no command", line)
	}
	if !gui.Idle(20 * time.Second) {
		return "", "", pbt.Errf("%q does not end", line)
	}
	scr.Wait()
	return scr.Text("msg"), scr.Text("err"), nil
}

type transfer struct{ Kind, Peer, File string }

type tranCase struct {
	Table []transfer
	Lines []string
}

func genTran(t *rapid.T) tranCase {
	var c tranCase
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		x := transfer{
			gen.Pick(t, "kind", kinds...),
			gen.Pick(t, "peer", "127.0.0.1:7542", "127.0.0.2:7542", "127.0.0.1:7543", "10.1.2.3:7542", "[::1]:7542", "[fe80::1:2]:7542"),
			gen.Pick(t, "file", "a", "b.txt", "dir/b", "100%s", "name with blanks", "put", "get", "é", "%d", "a/very/long/name/that/goes/on/and/on/and/on.txt", "Fname", "---",
				strings.Repeat("d234567/", 12)+"x", strings.Repeat("0123456789", 25)),
		}
		if slices.ContainsFunc(c.Table, func(y transfer) bool { return x.Peer == y.Peer && x.File == y.File }) {
			continue
		}
		c.Table = append(c.Table, x)
	}
	for i := rapid.IntRange(1, 4).Draw(t, "lines"); i > 0; i-- {
		k := gen.Pick(t, "asked", kinds...)
		c.Lines = append(c.Lines, gen.Pick(t, "line", "tran", "files", "tran "+k, k))
	}
	return c
}

func runTran(x *pbt.Ctx, c tranCase) error {
	sarwin.Trmu.Lock()
	sarwin.Transfers = nil
	for i, y := range c.Table {
		a, err := net.ResolveUDPAddr("udp", y.Peer)
		if err != nil {
			return err
		}
		sarwin.Transfers = append(sarwin.Transfers, sarwin.Transfer{Direction: sarwin.Initiator, Session: uint32(i + 1), Peer: a, Ttype: y.Kind, Filename: y.File})
	}
	before := slices.Clone(sarwin.Transfers)
	sarwin.Trmu.Unlock()
	some, all := false, true
	for _, line := range c.Lines {
		kind := ""
		if f := strings.Fields(line); len(f) == 2 {
			kind = f[1]
		} else if f[0] != "tran" && f[0] != "files" {
			kind = f[0]
		}
		var want []string
		for _, y := range c.Table {
			if kind == "" || y.Kind == kind {
				want = append(want, y.Kind+"|"+y.Peer+"|"+y.File)
			}
		}
		msg, errs, err := show(line)
		if err != nil {
			return err
		}
		if strings.TrimSpace(errs) != "" {
			return pbt.Errf("%q is refused: %s", line, errs)
		}
		var got []string
		for _, l := range strings.Split(msg, "\n") {
			var cells []string
			for _, w := range strings.Split(l, "|") {
				if w = strings.TrimSpace(w); w != "" {
					cells = append(cells, w)
				}
			}
			// Headings and borders have no address
			if i := slices.IndexFunc(cells, func(s string) bool { _, err := net.ResolveUDPAddr("udp", s); return err == nil }); i > 0 && i+1 < len(cells) {
				got = append(got, cells[i-1]+"|"+cells[i]+"|"+cells[i+1])
			}
		}
		slices.Sort(want)
		slices.Sort(got)
		if !slices.Equal(got, want) {
			return pbt.Errf("%q shows\n%s\nthat is %q, should be %q", line, msg, got, want)
		}
		if len(want) == 0 && strings.TrimSpace(msg) == "" {
			return pbt.Errf("%q says nothing", line)
		}
		some, all = some || len(want) > 0, all && len(want) == len(c.Table)
		x.Class("%s: %d", strings.Fields(line)[0], min(len(want), 3))
	}
	if !slices.EqualFunc(before, sarwin.Transfers, func(a, b sarwin.Transfer) bool {
		return a.Session == b.Session && a.Ttype == b.Ttype && a.Filename == b.Filename && a.Peer == b.Peer
	}) {
		return pbt.Errf("showing the transfers changed them")
	}
	x.NontrivialIf(some && !all)
	return nil
}

// The texts of the commands.
type helpCase struct {
	Texts []pbt.B // Two for each command
	Line  string
}

// bare are the commands that say nothing of their own when asked.
var bare = []string{"cancel", "exit", "quit", "usage", "help", "?"}

func genHelp(t *rapid.T) helpCase {
	var c helpCase
	for range names {
		for i := 0; i < 2; i++ {
			c.Texts = append(c.Texts, pbt.B(rapid.StringMatching(`[a-zA-Z0-9%<>\[\]|. -]{0,20}`).Draw(t, "text")))
		}
	}
	own := gen.Pick(t, "command", names...)
	if slices.Contains(bare, own) {
		own = "help"
	}
	c.Line = gen.Pick(t, "line", "help", "?", "help ?", "? ?", "usage", own+" ?", own+" ?", own+" ?", own+" ?")
	return c
}

func runHelp(x *pbt.Ctx, c helpCase) error {
	if len(c.Texts) != 2*len(names) {
		return nil // Of another configuration
	}
	keep := sarflags.Commands
	defer func() { sarflags.Commands = keep }()
	sarflags.Commands = map[string]sarflags.Cmdtype{}
	for i, n := range names {
		// The texts are told apart by their numbers
		sarflags.Commands[n] = sarflags.Cmdtype{Usage: fmt.Sprintf("%s#%dU", c.Texts[2*i], i), Help: fmt.Sprintf("%s#%dH", c.Texts[2*i+1], i)}
	}
	msg, errs, err := show(c.Line)
	if err != nil {
		return err
	}
	if strings.TrimSpace(errs) != "" {
		return pbt.Errf("%q is refused: %s", c.Line, errs)
	}
	f := strings.Fields(c.Line)
	about := f[0]
	if about == "?" {
		about = "help"
	}
	lines := strings.Split(msg, "\n")
	count := func(parts ...string) int {
		n := 0
		for _, l := range lines {
			if !slices.ContainsFunc(parts, func(p string) bool { return !strings.Contains(l, p) }) {
				n++
			}
		}
		return n
	}
	for n, k := range sarflags.Commands {
		var help, usage int // How often they are to be there
		switch {
		case about == "help" && len(f) == 2:
			help, usage = 1, 1
		case about == "help":
			help = 1
		case about == "usage":
			usage = 1
		case n == about:
			help, usage = 1, 1
		}
		if got := count(k.Help); got != help {
			return pbt.Errf("%q shows the help of %s %d times, not %d:\n%s", c.Line, n, got, help, msg)
		}
		if got := count(k.Usage); got != usage {
			return pbt.Errf("%q shows the usage of %s %d times, not %d:\n%s", c.Line, n, got, usage, msg)
		}
		if help > 0 && count(n, k.Help) != 1 {
			return pbt.Errf("%q shows the help of %s with another name:\n%s", c.Line, n, msg)
		}
	}
	x.Class("%s", about)
	x.NontrivialIf(about != "help" && about != "usage")
	return nil
}

// Clearing windows.
type clearCase struct {
	Lines []int // Written to msg, err and packet
	Words []string
}

func genClear(t *rapid.T) clearCase {
	c := clearCase{Lines: []int{0, 0, 0}}
	for i := range c.Lines {
		c.Lines[i] = rapid.IntRange(0, 60).Draw(t, "lines")
	}
	switch n := rapid.IntRange(0, 4).Draw(t, "words"); n {
	case 4:
		c.Words = []string{gen.Pick(t, "bad", "cmd", "all", "Msg", "?")}
	default:
		for ; n > 0; n-- {
			c.Words = append(c.Words, gen.Pick(t, "window", "msg", "err", "packet"))
		}
	}
	return c
}

func runClear(x *pbt.Ctx, c clearCase) error {
	wins := []string{"msg", "err", "packet"}
	scr.Clear()
	print := []func(int){
		func(i int) { sarwin.MsgPrintln(scr.G, "green_black", "line ", i, " of msg.") },
		func(i int) { sarwin.ErrPrintf(scr.G, "red_black", "line %d of %s.\n", i, "err") },
		func(i int) { sarwin.PacketPrintln(scr.G, "cyan_black", "line ", i, " of packet.") },
	}
	for w := range wins {
		for i := 0; i < c.Lines[w]; i++ {
			print[w](i)
		}
	}
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("printing does not end")
	}
	scr.Wait()
	has := func(gone func(string) bool) error {
		for w, n := range wins {
			text := scr.Text(n)
			for i := 0; i < c.Lines[w]; i++ {
				want := 1
				if gone(n) {
					want = 0
				}
				if got := strings.Count(text, fmt.Sprintf("line %d of %s.", i, n)); got != want {
					return pbt.Errf("line %d is in %s %d times, not %d:\n%s", i, n, got, want, text)
				}
			}
			for _, o := range wins {
				if o != n && strings.Contains(text, " of "+o+".") {
					return pbt.Errf("what is for %s is in %s", o, n)
				}
			}
		}
		return nil
	}
	if err := has(func(string) bool { return false }); err != nil {
		return pbt.Errf("after printing: %v", err)
	}
	line := strings.Join(append([]string{"clear"}, c.Words...), " ")
	sarwin.Run(scr.G, line)
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("%q does not end", line)
	}
	scr.Wait()
	if err := has(func(n string) bool { return len(c.Words) == 0 || slices.Contains(c.Words, n) }); err != nil {
		return pbt.Errf("after %q: %v", line, err)
	}
	if v := scr.G.CurrentView(); v == nil || v.Name() != "cmd" {
		return pbt.Errf("after %q the window of the commands is left", line)
	}
	x.Class("%d words", len(c.Words))
	x.NontrivialIf(c.Lines[0]+c.Lines[1]+c.Lines[2] > 0)
	return nil
}

// Lines run at once.
type onceCase struct {
	Table []transfer
	Lines []string
}

func genOnce(t *rapid.T) onceCase {
	c := onceCase{Table: genTran(t).Table}
	for i := rapid.IntRange(2, 6).Draw(t, "lines"); i > 0; i-- {
		c.Lines = append(c.Lines, gen.Pick(t, "line", "tran", "get", "help", "usage", "clear err", "clear packet", "clear err packet", "put ?", "peers"))
	}
	return c
}

func runOnce(x *pbt.Ctx, c onceCase) error {
	if err := runTran(x, tranCase{Table: c.Table}); err != nil {
		return err
	}
	scr.Clear()
	for _, l := range c.Lines {
		sarwin.Run(scr.G, l)
	}
	if !gui.Idle(20 * time.Second) {
		return pbt.Errf("%q do not end", c.Lines)
	}
	scr.Wait()
	msg := scr.Text("msg")
	shown := 0
	for _, l := range c.Lines {
		if l == "tran" {
			shown++
		}
	}
	for _, y := range c.Table {
		want := shown
		if y.Kind == "get" {
			for _, l := range c.Lines {
				if l == "get" {
					want++
				}
			}
		}
		n := 0
		for _, l := range strings.Split(msg, "\n") {
			if f := strings.Split(l, "|"); len(f) > 5 && strings.TrimSpace(f[3]) == y.Peer && strings.TrimSpace(f[4]) == y.File {
				n++
			}
		}
		if n != want {
			return pbt.Errf("%q show %v %d times, not %d:\n%s", c.Lines, y, n, want, msg)
		}
	}
	x.Class("%d lines", len(c.Lines))
	x.Nontrivial()
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	for n := range sarflags.Commands {
		names = append(names, n)
	}
	slices.Sort(names)
	scr = gui.New(true)
	pbt.Main(t, "C35",
		pbt.NewPart("transfers", 600, 10000, genTran, runTran),
		pbt.NewPart("help", 500, 8000, genHelp, runHelp),
		pbt.NewPart("clear", 300, 4000, genClear, runClear),
		pbt.NewPart("at once", 300, 5000, genOnce, runOnce),
	)
}
