// C38: a node on a terminal does what is typed until it is told to exit, and gives the terminal back.
// This file is compiled into /repo's saratoga package through an overlay. Each case runs main in a
// process of its own, on a terminal of its own that is typed on and looked at here.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"

	"pgregory.net/rapid"
)

const (
	vtPort  = 7542 // Beacons are sent to
	vtNode  = "VERIF_NODE"
	vtWait  = 20 * time.Second
	vtPeers = 4
	vtMax   = 256 // Columns and rows, at most
)

// One thing done at the terminal, or to it
type vtOp struct {
	Kind  string // set, beacon, stay, blank, peer, resize, packets
	Text  string `json:",omitempty"` // The line that is meant, without addresses
	Typos []int  `json:",omitempty"` // Where a character too many is typed, and taken back
	To    []int  `json:",omitempty"` // Receivers of beacons
	Peer  int    `json:",omitempty"`
	Cols  int    `json:",omitempty"`
	Rows  int    `json:",omitempty"`
	Keep  bool   `json:",omitempty"` // The terminal stays of this size
}

type vtCase struct {
	Cols, Rows int
	Break      string `json:",omitempty"` // Why it cannot start
	Rel        bool   `json:",omitempty"` // Its directory is named from where it is started
	Fail       int    `json:",omitempty"` // At the end its sockets of this kind of network fail
	Ops        []vtOp
	End        string // The line, or ^C
	Typos      []int

	// What it says when it starts (C41)
	Name   string `json:",omitempty"` // Of its directory
	Iface  string `json:",omitempty"`
	Prompt string `json:",omitempty"`
	InConf bool   `json:",omitempty"` // The configuration file names its directory, not the environment
}

var vtFlags = map[string][]string{
	"rxwilling":  {"on", "off", "capable"},
	"txwilling":  {"on", "off", "capable"},
	"descriptor": {"d16", "d32", "d64"},
	"bcount":     {"1", "2", "3"},
}

func vtTypos(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 12), 0, 3).Draw(t, "typos")
}

func vtGen(t *rapid.T) vtCase {
	c := vtCase{Cols: rapid.IntRange(80, 240).Draw(t, "cols"), Rows: rapid.IntRange(24, 100).Draw(t, "rows")}
	if rapid.IntRange(0, 9).Draw(t, "break?") == 0 {
		c.Break = gen.Pick(t, "break", "v4multicast", "v6multicast", "iface", "sardir", "no config", "cut config", "0 words", "1 word", "3 words", "terminal")
		return c
	}
	c.Rel = gen.Bool(t, "rel")
	for i := rapid.IntRange(0, 10).Draw(t, "ops"); i > 0; i-- {
		op := vtOp{Kind: gen.Pick(t, "kind", "set", "set", "beacon", "beacon", "stay", "blank", "peer", "resize", "packets", "delete"), Typos: vtTypos(t)}
		switch op.Kind {
		case "set":
			f := gen.Pick(t, "flag", "rxwilling", "txwilling", "descriptor", "bcount")
			op.Text = f + " " + gen.Pick(t, f, vtFlags[f]...)
		case "beacon":
			op.To = rapid.SliceOfNDistinct(rapid.IntRange(0, 2), 1, 3, rapid.ID[int]).Draw(t, "to")
		case "stay":
			op.Text = gen.Pick(t, "stay", "exit 2", "exit ?", "quit ?", "exit 0 1", "quit -1", "exits", "exit exit", "quit quit 0", "?", "help", "home", "tran", "files", "ls", "peers ?", "beacon", "timeout", "clear", "history", "usage", "nosuch", "quit 00")
		case "peer", "delete":
			op.Peer = rapid.IntRange(0, vtPeers-1).Draw(t, "peer")
		case "resize":
			op.Cols, op.Rows = rapid.IntRange(1, 250).Draw(t, "cols"), rapid.IntRange(1, 110).Draw(t, "rows")
			if gen.Bool(t, "keep") {
				op.Keep = true
				if gen.Bool(t, "wide") {
					op.Cols, op.Rows = max(op.Cols, 40), max(op.Rows, 16)
				}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	c.End = gen.Pick(t, "end", "exit", "quit", "exit 0", "exit 1", "quit 0", "quit 1", " exit  1", "quit ", "^C")
	c.Typos = vtTypos(t)
	if rapid.IntRange(0, 9).Draw(t, "fail?") == 0 {
		c.Fail = gen.Pick(t, "fail", 4, 6)
		c.End = "failure"
	}
	return c
}

// Terminals

func vtIoctl(fd, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

func vtModes(f *os.File) (t syscall.Termios, err error) {
	err = vtIoctl(f.Fd(), syscall.TCGETS, unsafe.Pointer(&t))
	return
}

// vtScreen is what a terminal shows, as far as a node makes use of it.
type vtScreen struct {
	mu         sync.Mutex
	cols, rows int
	cell       [][]rune
	x, y       int
	alt        bool
	left       []byte // Of a sequence not complete
	raw        []byte // All of it
}

func (s *vtScreen) size(cols, rows int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cols, s.rows = cols, rows
	if s.cell == nil {
		s.wipe()
	}
}

// All there is space for: what is outside of a terminal made smaller is there if it grows again, before
// the node has seen any of that.
func (s *vtScreen) wipe() {
	s.cell = make([][]rune, vtMax)
	for i := range s.cell {
		s.cell[i] = []rune(strings.Repeat(" ", vtMax))
	}
}

func (s *vtScreen) write(b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.raw = append(s.raw, b...)
	b = append(s.left, b...)
	for len(b) > 0 {
		n := s.one(b)
		if n == 0 {
			break
		}
		b = b[n:]
	}
	s.left = append([]byte{}, b...)
}

// one takes the first character or sequence of b, 0 if there is more to come of it.
func (s *vtScreen) one(b []byte) int {
	switch {
	case b[0] == 0x1b && len(b) == 1:
		return 0
	case b[0] == 0x1b && b[1] == '[':
		i := 2
		for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
			i++
		}
		if i == len(b) {
			return 0
		}
		arg := string(b[2:i])
		switch b[i] {
		case 'H':
			s.x, s.y = 0, 0
			if n, _ := fmt.Sscanf(arg, "%d;%d", &s.y, &s.x); n == 2 {
				s.x--
				s.y--
			}
		case 'J':
			s.wipe()
		case 'h', 'l':
			if arg == "?1049" {
				s.alt = b[i] == 'h'
			}
		}
		return i + 1
	case b[0] == 0x1b && strings.IndexByte("()*+", b[1]) >= 0:
		if len(b) < 3 {
			return 0
		}
		return 3
	case b[0] == 0x1b:
		return 2
	case b[0] == '\r':
		s.x = 0
		return 1
	case b[0] == '\n':
		s.y++
		return 1
	case b[0] < 0x20:
		return 1
	}
	n := 1
	if b[0] >= 0xc0 {
		n = 2
		if b[0] >= 0xe0 {
			n = 3
		}
		if len(b) < n {
			return 0
		}
	}
	if s.y >= 0 && s.y < vtMax && s.x >= 0 && s.x < vtMax {
		s.cell[s.y][s.x] = []rune(string(b[:n]))[0]
	}
	s.x++
	return n
}

func (s *vtScreen) text() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r []string
	for _, l := range s.cell[:s.rows] {
		r = append(r, strings.TrimRight(string(l[:s.cols]), " "))
	}
	return strings.Join(r, "\n")
}

func (s *vtScreen) until(max time.Duration, text string) bool {
	for end := time.Now().Add(max); ; time.Sleep(2 * time.Millisecond) {
		if strings.Contains(s.text(), text) {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

var vtNext = os.Getpid()

// vtFree is a port nobody has, and that nobody is given before the node takes it.
func vtFree() (int, error) {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	for i := 0; i < 2000; i++ {
		vtNext++
		p := 10000 + shard%8*2000 + vtNext%2000
		l6, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6unspecified, Port: p})
		if err != nil {
			continue
		}
		l4, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4zero, Port: p})
		l6.Close()
		if err != nil {
			continue
		}
		l4.Close()
		return p, nil
	}
	return 0, fmt.Errorf("no port is free")
}

// vtProc is a node that runs.
type vtProc struct {
	m, s   *os.File // Both ends of the terminal
	before syscall.Termios
	scr    *vtScreen
	c      *exec.Cmd
	err    *bytes.Buffer
	over   chan struct{}
	port   int
	dir    string
}

func (p *vtProc) winsize(cols, rows int) error {
	ws := [4]uint16{uint16(rows), uint16(cols)}
	return vtIoctl(p.m.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

// alive tells what is wrong, if it has ended.
func (p *vtProc) alive() error {
	select {
	case <-p.over:
		return pbt.Errf("the node ended with %v: %s", p.c.ProcessState, p.err)
	default:
		return nil
	}
}

func (p *vtProc) close() {
	p.c.Process.Kill()
	<-p.over
	p.m.Close()
	p.s.Close()
}

func vtStart(c vtCase) (*vtProc, error) {
	dir := pbt.Scratch + "/node"
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	if c.Name != "" {
		dir += "/" + c.Name
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	cfg := os.Getenv("VERIF_CONFIG")
	if cfg == "" {
		cfg = os.Getenv("VERIF_REPO") + "/saratoga/saratoga.json"
	}
	js, err := os.ReadFile(cfg)
	if err != nil {
		return nil, err
	}
	var doc map[string]any
	if err := json.Unmarshal(js, &doc); err != nil {
		return nil, err
	}
	port, err := vtFree()
	if err != nil {
		return nil, err
	}
	p := &vtProc{port: port, over: make(chan struct{}), err: new(bytes.Buffer)}
	doc["udpport"] = p.port
	doc["bcount"] = 1
	if to, ok := doc["timeout"].(map[string]any); ok {
		to["binterval"] = 0
	}
	iface, words, term := "lo", 2, "xterm"
	if c.Iface != "" {
		iface = c.Iface
	}
	if c.Prompt != "" {
		doc["prompt"] = c.Prompt
	}
	switch c.Break {
	case "v4multicast", "v6multicast":
		doc[c.Break] = "nowhere"
	case "iface":
		iface = "nosuch0"
	case "sardir":
		dir += "/nosuch"
	case "0 words", "1 word", "3 words":
		words = int(c.Break[0] - '0')
	case "terminal":
		term = "nosuch"
	}
	as := dir
	if c.Rel {
		as = filepath.Base(dir)
	}
	if c.InConf {
		doc["sardir"] = as
	}
	if js, err = json.Marshal(doc); err != nil {
		return nil, err
	}
	switch c.Break {
	case "cut config":
		js = js[:len(js)/2]
	case "no config":
		js = nil
		os.Remove(pbt.Scratch + "/node.json")
	}
	if js != nil {
		if err := os.WriteFile(pbt.Scratch+"/node.json", js, 0o644); err != nil {
			return nil, err
		}
	}
	if p.m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0); err != nil {
		return nil, err
	}
	var n uint32
	var zero int32
	if err := vtIoctl(p.m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, err
	}
	if err := vtIoctl(p.m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		return nil, err
	}
	if p.s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0); err != nil {
		return nil, err
	}
	if err := p.winsize(c.Cols, c.Rows); err != nil {
		return nil, err
	}
	if p.before, err = vtModes(p.s); err != nil {
		return nil, err
	}
	p.scr = &vtScreen{}
	p.scr.size(c.Cols, c.Rows)
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := p.m.Read(b)
			if err != nil {
				return
			}
			p.scr.write(b[:n])
		}
	}()
	p.c = exec.Command("/proc/self/exe", "-test.run=^TestNode$", "-test.timeout=0")
	p.dir = dir
	if c.Rel {
		p.c.Dir = filepath.Dir(dir)
	}
	p.c.Env = append(os.Environ(), vtNode+"="+iface, vtNode+"_JSON="+pbt.Scratch+"/node.json", fmt.Sprintf("%s_WORDS=%d", vtNode, words), "TERM="+term)
	if c.InConf {
		as = "" // As if it was not there
	}
	p.c.Env = append(p.c.Env, "SARDIR="+as)
	p.c.ExtraFiles = []*os.File{p.s}
	p.c.Stdout, p.c.Stderr = p.err, p.err
	p.c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 3, Pdeathsig: syscall.SIGKILL}
	if err := p.c.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.c.Wait()
		close(p.over)
	}()
	return p, nil
}

// TestNode is the process of a node.
func TestNode(t *testing.T) {
	iface := os.Getenv(vtNode)
	if iface == "" {
		t.Skip()
	}
	go vtFail()
	os.Args = []string{"saratoga", os.Getenv(vtNode + "_JSON"), iface, "lo"}
	n := 2
	fmt.Sscan(os.Getenv(vtNode+"_WORDS"), &n)
	os.Args = os.Args[:1+n]
	main()
	os.Exit(99)
}

// vtFail makes the sockets of a kind of network those that nothing can be read from, when told to.
func vtFail() {
	told := make(chan os.Signal, 2)
	signal.Notify(told, syscall.SIGUSR1, syscall.SIGUSR2)
	kind := syscall.AF_INET
	if <-told == syscall.SIGUSR2 {
		kind = syscall.AF_INET6
	}
	null, err := syscall.Open("/dev/null", syscall.O_RDWR, 0)
	if err != nil {
		return
	}
	for fd := 3; fd < 100; fd++ {
		if k, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_DOMAIN); err != nil || k != kind {
			continue
		}
		if _, err := syscall.Dup(fd); err == nil { // There is still something to wake up for
			syscall.Dup2(null, fd)
		}
		fd = max(fd, null)
	}
}

// keys is what is typed for a line.
func vtKeys(text string, typos []int) string {
	var s strings.Builder
	for i := 0; i <= len(text); i++ {
		for j, at := range typos {
			if at == i {
				s.WriteByte("xq 7"[j%4])
				s.WriteByte(0x7f)
			}
		}
		if i < len(text) {
			s.WriteByte(text[i])
		}
	}
	return s.String() + "\r"
}

var vtRx []*net.UDPConn

// vtOpen opens the receivers, at addresses of this process alone.
func vtOpen() error {
	if vtRx != nil {
		return nil
	}
	p := os.Getpid()
	for i := 0; i < 3; i++ {
		ip := net.IPv4(127, byte(112+4*i+p>>16&3), byte(p>>8), byte(p))
		r, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: vtPort})
		if err != nil {
			return err
		}
		vtRx = append(vtRx, r)
	}
	return nil
}

// vtGot is what has come to a receiver: as many as there should be, or what there is after a while.
func vtGot(r *net.UDPConn, n int, end time.Time) [][]byte {
	var got [][]byte
	b := make([]byte, 70000)
	for len(got) < n {
		r.SetReadDeadline(end)
		k, err := r.Read(b)
		if err != nil {
			break
		}
		got = append(got, append([]byte{}, b[:k]...))
	}
	r.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
	for {
		k, err := r.Read(b)
		if err != nil {
			return got
		}
		got = append(got, append([]byte{}, b[:k]...))
	}
}

func vtSend(from, to string, port int, b []byte) error {
	con, err := net.DialUDP("udp", &net.UDPAddr{IP: net.ParseIP(from)}, &net.UDPAddr{IP: net.ParseIP(to), Port: port})
	if err != nil {
		return err
	}
	defer con.Close()
	_, err = con.Write(b)
	return err
}

func vtRun(x *pbt.Ctx, c vtCase) error {
	if err := vtOpen(); err != nil {
		return err
	}
	p, err := vtStart(c)
	if err != nil {
		return err
	}
	defer p.close()
	shows := func(what string) error {
		return pbt.Errf("%s; the terminal shows\n%s\nthe node says %q", what, p.scr.text(), p.err)
	}
	ends := func() (int, error) {
		select {
		case <-p.over:
		case <-time.After(vtWait):
			return 0, shows("the node does not end")
		}
		var after syscall.Termios
		for end := time.Now().Add(time.Second); ; time.Sleep(time.Millisecond) { // until what it wrote is read
			if after, err = vtModes(p.s); err != nil {
				return 0, err
			}
			p.scr.mu.Lock()
			alt := p.scr.alt
			p.scr.mu.Unlock()
			if after == p.before && !alt {
				break
			}
			if time.Now().After(end) {
				return 0, pbt.Errf("the node ended (%v) and left the terminal in modes %+v, not %+v, other screen %v: %s", p.c.ProcessState, after, p.before, alt, p.err)
			}
		}
		return p.c.ProcessState.ExitCode(), nil
	}
	if c.Break != "" {
		x.Class("cannot start: %s", c.Break)
		x.Nontrivial()
		st, err := ends()
		if err == nil && st != 1 {
			err = pbt.Errf("a node that cannot start (%s) ends with status %d", c.Break, st)
		}
		if err == nil && (p.err.Len() == 0 || strings.HasSuffix(strings.TrimSpace(p.err.String()), "<nil>")) {
			err = pbt.Errf("a node that cannot start (%s) does not say why: %q", c.Break, p.err)
		}
		return err
	}
	if !p.scr.until(vtWait, "saratoga[0]:") {
		if err := p.alive(); err != nil {
			return err
		}
		return shows("no prompt")
	}
	prompts, cols, rows := 0, c.Cols, c.Rows
	keys := func(text string, typos []int) string {
		if cols < 40 || rows < 16 { // The prompt may not be in view
			typos = nil
		}
		return vtKeys(text, typos)
	}
	typed := func(s string) error {
		// What is to be taken back has to be shown first
		if prompt := fmt.Sprintf("saratoga[%d]:", prompts); strings.Contains(s, "\x7f") && !p.scr.until(vtWait, prompt) {
			if err := p.alive(); err != nil {
				return err
			}
			return shows("no prompt " + prompt)
		}
		if strings.TrimSuffix(s, "\r") != "" && strings.HasSuffix(s, "\r") {
			prompts++
		}
		_, err := p.m.WriteString(s)
		return err
	}
	said := map[string]string{} // The flags that were set
	n := 1
	for i, op := range c.Ops {
		x.Class("%s", op.Kind)
		switch op.Kind {
		case "set":
			if err := typed(keys(op.Text, op.Typos)); err != nil {
				return err
			}
			f, v, _ := strings.Cut(op.Text, " ")
			switch {
			case f == "bcount":
				fmt.Sscan(v, &n)
			case v == "on":
				said[f] = "yes"
			case v == "off":
				said[f] = "no"
			default:
				said[f] = v
			}
			time.Sleep(5 * time.Millisecond) // Lines are run at once
		case "beacon":
			line := "beacon"
			for _, r := range op.To {
				line += " " + vtRx[r].LocalAddr().(*net.UDPAddr).IP.String()
			}
			var bad error
			for try := 0; try < 3; try++ {
				if err := typed(keys(line, op.Typos)); err != nil {
					return err
				}
				bad = nil
				end := time.Now().Add(time.Second << (2 * try))
				for r := range vtRx {
					want := 0
					for _, to := range op.To {
						if to == r {
							want = n
						}
					}
					got := vtGot(vtRx[r], want, end)
					if len(got) != want {
						bad = pbt.Errf("%d beacons for %d", len(got), want)
					}
					for _, b := range got {
						if len(b) < 4 || !strings.HasSuffix(string(b), fmt.Sprintf("-%d", p.c.Process.Pid)) {
							bad = pbt.Errf("beacon is %q", b)
							continue
						}
						for f, v := range said {
							if is := ref.Name(binary.BigEndian.Uint32(b), f); is != v {
								bad = pbt.Errf("the beacon has %s %s, not %s", f, is, v)
							}
						}
					}
				}
				if bad == nil {
					break
				}
				if err := p.alive(); err != nil {
					return err
				}
				for _, r := range vtRx {
					vtGot(r, 1<<20, time.Now().Add(300*time.Millisecond))
				}
			}
			if bad != nil {
				return shows(fmt.Sprintf("operation %d, %q: %v", i, line, bad))
			}
			x.Nontrivial()
		case "stay":
			if err := typed(keys(op.Text, op.Typos)); err != nil {
				return err
			}
		case "blank":
			if err := typed("\r"); err != nil {
				return err
			}
		case "packets":
			if err := typed("\x10"); err != nil {
				return err
			}
		case "resize":
			x.Class("resize, to stay: %v", op.Keep)
			if op.Cols == cols && op.Rows == rows {
				break // Nothing would be drawn
			}
			to := [][2]int{{op.Cols, op.Rows}, {cols, rows}}
			if op.Keep {
				cols, rows = op.Cols, op.Rows
				to = to[:1]
			}
			for _, s := range to {
				time.Sleep(20 * time.Millisecond)
				p.scr.size(s[0], s[1])
				if err := p.winsize(s[0], s[1]); err != nil {
					return err
				}
			}
		case "delete":
			name := p.dir + "/victim"
			if err := os.WriteFile(name, []byte{1}, 0o644); err != nil {
				return err
			}
			b := ref.Request(ref.Set(ref.Set(ref.Set(ref.Head("request"), "reqtype", "delete"), "rxwilling", "yes"), "txwilling", "yes"), uint32(i), "victim", nil)
			gone := false
			for try := 0; try < 5 && !gone; try++ {
				if err := vtSend(fmt.Sprintf("127.0.0.%d", 20+op.Peer), "127.0.0.1", p.port, b); err != nil {
					return err
				}
				for end := time.Now().Add(time.Second << try); !gone && time.Now().Before(end); time.Sleep(time.Millisecond) {
					_, err := os.Stat(name)
					gone = err != nil
				}
			}
			if !gone {
				return shows(fmt.Sprintf("operation %d: a file in its directory (relative: %v) is not deleted when asked to", i, c.Rel))
			}
			x.Nontrivial()
		case "peer":
			from := net.IPv4(127, 0, 0, byte(20+op.Peer))
			b := ref.Beacon(ref.Set(ref.Set(ref.Set(ref.Head("beacon"), "descriptor", "d64"), "rxwilling", "yes"), "txwilling", "yes"), 0, fmt.Sprintf("node%d", op.Peer))
			if err := vtSend(from.String(), "127.0.0.1", p.port, b); err != nil {
				return err
			}
			ok := false
			for try := 0; try < 5 && !ok; try++ {
				time.Sleep(5 * time.Millisecond)
				if err := typed(keys("peers", op.Typos)); err != nil {
					return err
				}
				ok = cols < 130 || rows < 40 || p.scr.until(time.Second<<try, from.String())
			}
			if !ok {
				return shows(fmt.Sprintf("operation %d: the peer %s is not shown", i, from))
			}
			x.Nontrivial()
		}
		if err := p.alive(); err != nil {
			return err
		}
	}
	// Now it ends
	x.Class("%s", c.End)
	if c.Fail != 0 {
		sig, from, to := syscall.SIGUSR1, "127.0.0.1", "127.0.0.1"
		if c.Fail == 6 {
			sig, from, to = syscall.SIGUSR2, "::1", "::1"
		}
		if err := p.c.Process.Signal(sig); err != nil {
			return err
		}
		for end := time.Now().Add(vtWait); p.alive() == nil && time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			vtSend(from, to, p.port, []byte("short"))
		}
		st, err := ends()
		if err == nil && (st != 1 || p.err.Len() == 0) {
			err = pbt.Errf("a node that cannot go on (its IPv%d sockets fail) ends with status %d and says %q", c.Fail, st, p.err)
		}
		x.Nontrivial()
		return err
	}
	last := "\x03"
	if c.End != "^C" {
		last = keys(c.End, c.Typos)
	}
	if err := typed(last); err != nil {
		return err
	}
	st, err := ends()
	if err != nil {
		return err
	}
	want := 0
	if strings.HasSuffix(c.End, "1") {
		want = 1
	}
	if c.End != "^C" && st != want {
		return pbt.Errf("the node ends with status %d on %q: %s", st, c.End, p.err)
	}
	if st < 0 || st > 1 {
		return pbt.Errf("the node ends with status %d on %q: %s", st, c.End, p.err)
	}
	return nil
}
