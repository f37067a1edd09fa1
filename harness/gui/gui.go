// Package gui stands in for the terminal: what the code under test prints goes to real gocui
// views that nobody draws.
package gui

import (
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/jroimartin/gocui"
)

// Its like is what gocui sends its main loop.
type event struct{ f func(*gocui.Gui) error }

// Screen is a gui with its event loop.
type Screen struct {
	G  *gocui.Gui
	mu sync.Mutex
	ch chan event
}

// New makes a gui with the four windows. If draw is not set what is printed is dropped.
func New(draw bool) *Screen {
	s := &Screen{G: &gocui.Gui{}}
	ch := make(chan event, 20)
	s.ch = ch
	f := reflect.ValueOf(s.G).Elem().FieldByName("userEvents")
	*(*chan event)(unsafe.Pointer(f.UnsafeAddr())) = ch
	for _, n := range []string{"cmd", "err", "packet", "msg"} {
		s.G.SetView(n, 0, 0, 200, 50)
	}
	s.G.SetCurrentView("cmd")
	go func() {
		for e := range ch {
			if draw {
				s.mu.Lock()
				e.f(s.G)
				s.mu.Unlock()
			}
		}
	}()
	return s
}

// Text of a window.
func (s *Screen) Text(name string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, err := s.G.View(name)
	if err != nil {
		return ""
	}
	return v.Buffer()
}

// Wait until all that was printed is in the windows. Idle has to come before.
func (s *Screen) Wait() {
	done := make(chan bool)
	s.ch <- event{func(*gocui.Gui) error { close(done); return nil }}
	<-done
}

// Clear the windows.
func (s *Screen) Clear() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, v := range s.G.Views() {
		v.Clear()
		v.SetCursor(0, 0)
		v.SetOrigin(0, 0)
	}
}

// Idle waits until no command runs and nothing is left to print, false if that takes too long.
func Idle(max time.Duration) bool {
	end := time.Now().Add(max)
	buf := make([]byte, 1<<20)
	for i := 0; ; i++ {
		st := string(buf[:runtime.Stack(buf, true)])
		if i := strings.Index(st, "\n\n"); i >= 0 {
			st = st[i:] // not this goroutine
		}
		if !strings.Contains(st, "saratoga/sarwin.") && !strings.Contains(st, "gocui.(*Gui).Update") {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
}
