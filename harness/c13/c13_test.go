// C13: the record of what has been received covers exactly that, and the holes are the rest.
package c13

import (
	"sort"
	"testing"

	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/holes"
	"pgregory.net/rapid"
)

// histCase: the adds are of [Points[a], Points[b]); Points goes up from 0 or more.
type histCase struct {
	Gaps  []int // Points[i] is the sum of the first i+1
	Adds  [][2]int
	Order []int // The same adds in another order
}

func genHist(t *rapid.T) histCase {
	var c histCase
	n := rapid.IntRange(2, 40).Draw(t, "points")
	big := gen.Pick(t, "scale", 1, 1, 3, 1000, 1<<32, 1<<57)
	for i := 0; i < n; i++ {
		g := rapid.IntRange(1, big).Draw(t, "gap")
		if i == 0 && gen.Bool(t, "zero") {
			g = 0
		}
		c.Gaps = append(c.Gaps, g)
	}
	m := rapid.IntRange(0, 60).Draw(t, "adds")
	for i := 0; i < m; i++ {
		a := rapid.IntRange(0, n-1).Draw(t, "a")
		b := rapid.IntRange(0, n-1).Draw(t, "b")
		switch rapid.IntRange(0, 5).Draw(t, "shape") {
		case 0: // as drawn, possibly empty or backwards
		case 1, 2: // one step
			b = min(a+1, n-1)
		default:
			a, b = min(a, b), max(a, b)
		}
		c.Adds = append(c.Adds, [2]int{a, b})
	}
	idx := make([]int, m)
	for i := range idx {
		idx[i] = i
	}
	if m > 0 {
		c.Order = rapid.Permutation(idx).Draw(t, "order")
	}
	return c
}

// model is a set of the steps between points.
type model []bool

func (m model) fills(p []int) (f, h holes.Holes) {
	last := -1
	for i := range m {
		if m[i] {
			last = i
		}
	}
	if last >= 0 && p[0] > 0 && !m[0] {
		h = append(h, holes.Hole{Start: 0, End: p[0]})
	} else if last >= 0 && p[0] > 0 {
		h = append(h, holes.Hole{Start: 0, End: p[0]})
	}
	for i := 0; i <= last; i++ {
		x := holes.Hole{Start: p[i], End: p[i+1]}
		l := &h
		if m[i] {
			l = &f
		}
		if n := len(*l); n > 0 && (*l)[n-1].End == x.Start {
			(*l)[n-1].End = x.End
		} else {
			*l = append(*l, x)
		}
	}
	return f, h
}

func same(a, b holes.Holes) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func run(x *pbt.Ctx, c histCase) error {
	p := make([]int, len(c.Gaps))
	s := 0
	for i, g := range c.Gaps {
		s += g
		p[i] = s
	}
	m := make(model, len(p)-1)
	var f holes.Holes
	maxh := 0
	for i, a := range c.Adds {
		before := append(holes.Holes{}, f...)
		f = f.Add(p[a[0]], p[a[1]])
		for j := a[0]; j < a[1]; j++ {
			m[j] = true
		}
		wf, wh := m.fills(p)
		if !same(f, wf) {
			return pbt.Errf("add %d of [%d,%d) to %v gives %v, want %v", i, p[a[0]], p[a[1]], before, f, wf)
		}
		keep := append(holes.Holes{}, f...)
		h := f.Getholes()
		if !same(h, wh) {
			return pbt.Errf("holes of %v are %v, want %v", f, h, wh)
		}
		if n := f.Lenholes(); n != len(wh) {
			return pbt.Errf("%v has %d holes, want %d", f, n, len(wh))
		}
		if !same(f, keep) {
			return pbt.Errf("asking for holes changed %v to %v", keep, f)
		}
		maxh = max(maxh, len(wh))
	}
	var g holes.Holes
	for _, i := range c.Order {
		g = g.Add(p[c.Adds[i][0]], p[c.Adds[i][1]])
	}
	if !same(f, g) {
		i := append([]int{}, c.Order...)
		sort.Ints(i)
		return pbt.Errf("the same pieces in another order give %v, not %v", g, f)
	}
	switch {
	case maxh == 0:
		x.Class("never a hole")
	case maxh < 4:
		x.Class("up to 3 holes")
	default:
		x.Class("4 holes and more")
	}
	if len(f) == 1 && f[0].Start == 0 && maxh > 0 {
		x.Class("completed")
	}
	x.NontrivialIf(maxh > 0)
	return nil
}

// Many pieces: every other one of a long file, in any order, then all that is left.

type manyCase struct {
	N    int // pieces
	Size int
	Skip int // which are left out at first: one in Skip
	Seed uint32
}

func genMany(t *rapid.T) manyCase {
	return manyCase{gen.Pick(t, "n", 20, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 400, 600), gen.Pick(t, "size", 1, 2, 1000, 1400, 1<<31), rapid.IntRange(2, 4).Draw(t, "skip"), rapid.Uint32().Draw(t, "seed")}
}

func runMany(x *pbt.Ctx, c manyCase) error {
	a := c.Seed
	var first, rest []int
	for i := 0; i < c.N; i++ {
		if i%c.Skip == int(c.Seed)%c.Skip {
			rest = append(rest, i)
		} else {
			first = append(first, i)
		}
	}
	m := make(model, c.N)
	p := make([]int, c.N+1)
	for i := range p {
		p[i] = i * c.Size
	}
	var f holes.Holes
	for _, l := range [][]int{first, rest} {
		for i := len(l) - 1; i > 0; i-- {
			a = a*1664525 + 1013904223
			j := int(a>>8) % (i + 1)
			l[i], l[j] = l[j], l[i]
		}
		for k, i := range l {
			f = f.Add(p[i], p[i+1])
			m[i] = true
			if k%7 != 0 && k != len(l)-1 {
				continue
			}
			wf, wh := m.fills(p)
			if !same(f, wf) {
				return pbt.Errf("after piece %d: %d ranges, want %d", i, len(f), len(wf))
			}
			if h := f.Getholes(); !same(h, wh) || f.Lenholes() != len(wh) {
				return pbt.Errf("after piece %d: %d holes, want %d", i, len(h), len(wh))
			}
		}
	}
	x.Class("pieces=%d", c.N)
	x.Nontrivial()
	return nil
}

// A record that already has thousands of ranges, and a few pieces more.

type crowdCase struct {
	N    int // ranges: range i is [i*10+3, i*10+8)
	Adds [][2]int
}

func genCrowd(t *rapid.T) crowdCase {
	c := crowdCase{N: gen.Pick(t, "n", 500, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000)}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "adds"); i < n; i++ {
		a := rapid.IntRange(0, c.N*10+20).Draw(t, "from")
		if rapid.IntRange(0, 3).Draw(t, "end") == 0 {
			a = max(0, c.N*10-rapid.IntRange(0, 30).Draw(t, "before"))
		}
		l := rapid.IntRange(1, 30).Draw(t, "len")
		if rapid.IntRange(0, 5).Draw(t, "wide") == 0 {
			l = rapid.IntRange(1, 3000).Draw(t, "far")
		}
		c.Adds = append(c.Adds, [2]int{a, a + l})
	}
	return c
}

func runCrowd(x *pbt.Ctx, c crowdCase) error {
	f := make(holes.Holes, 0, c.N)
	m := make(model, c.N*10+20+3031)
	p := make([]int, len(m)+1)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < c.N; i++ {
		f = append(f, holes.Hole{Start: i*10 + 3, End: i*10 + 8})
		for j := 3; j < 8; j++ {
			m[i*10+j] = true
		}
	}
	look := func(when string) error {
		wf, wh := m.fills(p)
		if !same(f, wf) {
			return pbt.Errf("%s: %d ranges, want %d", when, len(f), len(wf))
		}
		if h := f.Getholes(); !same(h, wh) {
			return pbt.Errf("%s: %d holes, want %d", when, len(h), len(wh))
		}
		if n := f.Lenholes(); n != len(wh) {
			return pbt.Errf("%s: said to have %d holes, want %d", when, n, len(wh))
		}
		return nil
	}
	if err := look("at first"); err != nil {
		return err
	}
	for _, a := range c.Adds {
		f = f.Add(a[0], a[1])
		for j := a[0]; j < a[1]; j++ {
			m[j] = true
		}
		if err := look(pbt.Errf("after [%d,%d)", a[0], a[1]).Error()); err != nil {
			return err
		}
	}
	x.Class("ranges=%d", c.N)
	x.Nontrivial()
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C13", pbt.NewPart("history", 15000, 200000, genHist, run),
		pbt.NewPart("many", 150, 3000, genMany, runMany),
		pbt.NewPart("crowd", 100, 3000, genCrowd, runCrowd))
}
