// C31: what is shown of a frame is what it says.
package c31

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"verifharness/dec"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
	"verifharness/sar"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"pgregory.net/rapid"
)

type tcase struct {
	Kind string
	Wire []byte
}

var kinds = []string{"beacon", "request", "metadata", "data", "status", "dirent"}

func genCase(t *rapid.T) tcase {
	k := rapid.SampledFrom(kinds).Draw(t, "kind")
	return tcase{k, gen.Frame(t, k)}
}

// shows looks for "label:value" in text, with blanks as they may be; the value ends there.
func shows(text, label, value string) bool {
	re := regexp.MustCompile(`(?i)(^|[^a-z0-9])` + regexp.QuoteMeta(label) + `[ \t]*[:=][ \t]*`)
	for _, at := range re.FindAllStringIndex(text, -1) {
		rest, ok := strings.CutPrefix(text[at[1]:], value)
		if ok && (rest == "" || !wordy(rest[0]) || value == "" && rest[0] == '\n') {
			return true
		}
	}
	return false
}

func wordy(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}

type item struct{ label, value string }

// expect is what has to be seen of a frame, shortly and in full.
func expect(x dec.Thing) (short, full []item, raw []string) {
	num := func(l string, v any) item { return item{l, fmt.Sprint(v)} }
	flags := func(kind string, h uint32) (r []item) {
		for _, f := range ref.FrameFields[kind] {
			if f != "csumlen" || ref.Name(h, f) != "" {
				r = append(r, item{f, ref.Name(h, f)})
			}
		}
		return r
	}
	stamp := func(h uint32, s string) {
		if ref.Name(h, "reqtstamp") == "yes" {
			raw = append(raw, s)
		}
	}
	dir := func(d *dirent.DirEnt) (r []item) {
		raw = append(raw, fmt.Sprintf("0x%x", d.Header), d.Mtime.Print(), d.Ctime.Print(), d.Path)
		return []item{num("Size", d.Size)}
	}
	switch f := x.(type) {
	case *beacon.Beacon:
		raw = append(raw, fmt.Sprintf("0x%x", f.Header), f.Eid)
		full = flags("beacon", f.Header)
		if ref.Name(f.Header, "freespace") == "yes" {
			raw = append(raw, fmt.Sprintf("%dkB", f.Freespace))
		}
	case *request.Request:
		raw = append(raw, fmt.Sprintf("0x%x", f.Header), f.Fname, string(f.Auth))
		full = flags("request", f.Header)
		short = []item{num("session", f.Session)}
	case *metadata.MetaData:
		raw = append(raw, fmt.Sprintf("0x%x", f.Header))
		if ref.Name(f.Header, "csumtype") != "none" {
			raw = append(raw, fmt.Sprintf("%x", f.Checksum))
		}
		full = flags("metadata", f.Header)
		short = append(dir(&f.Dir), num("session", f.Session))
	case *data.Data:
		raw = append(raw, fmt.Sprintf("0x%x", f.Header))
		stamp(f.Header, f.Tstamp.Print())
		full = flags("data", f.Header)
		short = []item{num("session", f.Session), num("offset", f.Offset), num("paylen", len(f.Payload))}
	case *status.Status:
		raw = append(raw, fmt.Sprintf("0x%x", f.Header))
		stamp(f.Header, f.Tstamp.Print())
		full = flags("status", f.Header)
		short = []item{num("session", f.Session), num("progress", f.Progress), {"errcode", ref.Name(f.Header, "errcode")}}
	case *dirent.DirEnt:
		short = dir(f)
	}
	if d, ok := x.(*dirent.DirEnt); ok {
		full = append(full, item{"descriptor", ref.NameD(d.Header, "descriptor")}, item{"property", ref.NameD(d.Header, "property")})
	}
	return short, append(full, short...), raw
}

func check(form, text string, items []item, raw []string) error {
	for _, i := range items {
		if !shows(text, i.label, i.value) {
			return pbt.Errf("%s does not show %s as %q:\n%s", form, i.label, i.value, text)
		}
	}
	for _, r := range raw {
		if !strings.Contains(text, r) {
			return pbt.Errf("%s does not show %q:\n%s", form, r, text)
		}
	}
	return nil
}

var holeLine = regexp.MustCompile(`Hole\[(\d+)\]: *Start:(-?\d+) *End:(-?\d+)`)

func run(x *pbt.Ctx, c tcase) error {
	f := dec.New(c.Kind)
	if err := f.Decode(c.Wire); err != nil {
		return pbt.Errf("%s: Decode: %v (%x)", c.Kind, err, c.Wire)
	}
	x.Class("%s", c.Kind)
	x.Nontrivial()
	before := dec.Meaning(f)
	short, full, raw := expect(f)
	ptext, stext := f.Print(), f.ShortPrint()
	if err := check("Print", ptext, full, raw); err != nil {
		return err
	}
	if err := check("ShortPrint", stext, short, raw); err != nil {
		return err
	}
	if s, ok := f.(*status.Status); ok {
		if !shows(ptext, "inresponseto", fmt.Sprint(s.Inrespto)) || !shows(stext, "inrespto", fmt.Sprint(s.Inrespto)) {
			return pbt.Errf("in response to %d is not shown:\n%s\n%s", s.Inrespto, ptext, stext)
		}
		if !shows(stext, "numb holes", fmt.Sprint(len(s.Holes))) {
			return pbt.Errf("the number of holes %d is not shown:\n%s", len(s.Holes), stext)
		}
		var got []string
		for _, m := range holeLine.FindAllStringSubmatch(ptext, -1) {
			got = append(got, m[1]+":"+m[2]+"-"+m[3])
		}
		var want []string
		for i, h := range s.Holes {
			want = append(want, fmt.Sprintf("%d:%d-%d", i, h.Start, h.End))
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return pbt.Errf("holes shown %v, it has %v", got, want)
		}
	}
	if got := dec.Meaning(f); got != before {
		return pbt.Errf("printing changed the frame from %s to %s", before, got)
	}
	return nil
}

func TestProp(t *testing.T) {
	sar.Load(t)
	pbt.Main(t, "C31", pbt.NewPart("show", 12000, 200000, genCase, run))
}
