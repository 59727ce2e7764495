package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P17: versions.

var genVersion = rapid.Custom(func(t *rapid.T) xmp.Version {
	part := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 3), rapid.SampledFrom([]int{9, 10, 11, 99, 100, 2147483647}))
	return xmp.Version{Major: part.Draw(t, "major"), Minor: part.Draw(t, "minor"), Patch: part.Draw(t, "patch")}
})

func cmpVersion(a, b xmp.Version) int {
	for _, p := range [][2]int{{a.Major, b.Major}, {a.Minor, b.Minor}, {a.Patch, b.Patch}} {
		if p[0] < p[1] {
			return -1
		}
		if p[0] > p[1] {
			return 1
		}
	}
	return 0
}

func TestP17_order(t *testing.T) {
	rule("order", "triples of versions with small parts that often collide; non-trivial: all three differ")
	check(t, 30000, func(t *rapid.T) {
		v, a, b := genVersion.Draw(t, "v"), genVersion.Draw(t, "a"), genVersion.Draw(t, "b")
		tally("order", fmt.Sprint(v, a, b), v != a && a != b && v != b)
		// text
		p, err := xmp.ParseVersion(v.String())
		if err != nil || p != v {
			t.Fatalf("ParseVersion(%q) = %v, %v", v.String(), p, err)
		}
		if s := fmt.Sprintf("%d.%d.%d", v.Major, v.Minor, v.Patch); s != v.String() {
			t.Fatalf("String() = %q, want %q", v.String(), s)
		}
		if p, err := xmp.ParseVersion(fmt.Sprintf("%d.%d", v.Major, v.Minor)); err != nil || p != (xmp.Version{Major: v.Major, Minor: v.Minor}) {
			t.Fatalf("two-part version of %v: %v %v", v, p, err)
		}
		if p, err := xmp.ParseVersion(fmt.Sprintf("%d", v.Major)); err != nil || p != (xmp.Version{Major: v.Major}) {
			t.Fatalf("one-part version of %v: %v %v", v, p, err)
		}
		zero := v == xmp.Version{}
		if v.IsZero() != zero {
			t.Fatalf("IsZero(%v) = %v", v, v.IsZero())
		}
		// order
		c := cmpVersion(v, a)
		if v.Before(a) != (c < 0) || v.After(a) != (c > 0) || v.Equal(a) != (c == 0) {
			t.Fatalf("%v vs %v: before %v after %v equal %v", v, a, v.Before(a), v.After(a), v.Equal(a))
		}
		// ranges: a zero version means "no version selected", a zero bound is open
		for _, r := range [][2]xmp.Version{{a, b}, {b, a}, {{}, b}, {a, {}}, {a, a}, {{}, {}}, {{}, v}, {v, {}}, {v, b}, {a, v}} {
			lo, hi := r[0], r[1]
			if lo.IsZero() && hi.IsZero() {
				continue // decided below: untagged
			}
			if !lo.IsZero() && !hi.IsZero() && cmpVersion(lo, hi) > 0 {
				continue // not a range
			}
			want := v.IsZero() || ((lo.IsZero() || cmpVersion(lo, v) <= 0) && (hi.IsZero() || cmpVersion(v, hi) <= 0))
			if got := v.Between(lo, hi); got != want {
				t.Fatalf("%v in range [%v,%v] = %v, want %v", v, lo, hi, got, want)
			}
		}
	})
	check(t, 12000, func(t *rapid.T) {
		s := rapid.OneOf(rapid.StringMatching(`[0-9v.+a -]{0,8}`), rapid.StringMatching(`[0-9]{1,2}(\.[0-9a]{0,2}){0,4}`)).Draw(t, "text")
		tok := strings.Split(s, ".")
		ok := len(tok) <= 3
		clear := true // clearly a number or clearly not
		for _, x := range tok {
			digits := x != ""
			for _, r := range x {
				if r < '0' || r > '9' {
					digits = false
					if r == '+' || r == '-' {
						clear = false
					}
				}
			}
			ok = ok && digits
		}
		tally("order", "text:"+s, !ok)
		v, err := xmp.ParseVersion(s)
		if clear && (err == nil) != ok {
			t.Fatalf("ParseVersion(%q) = %v, %v", s, v, err)
		}
	})
}

// a test model with version-tagged properties
type verModel struct {
	Always  string `xmp:"vt:always"`
	Exact   string `xmp:"vt:exact,v2.3"`
	From    string `xmp:"vt:from,v2.4+"`
	Until   string `xmp:"vt:until,v2.3-"`
	Range   string `xmp:"vt:range,v1.1<2.2"`
	OldForm string `xmp:"vt:twin,v2.3-"`
	NewForm string `xmp:"vt:twin,v2.4+"`
	AttrV   string `xmp:"vt:attrv,attr,v1.5+"`
}

var nsVt = xmp.NewNamespace("vt", "http://verif.test/versioned/", func(string) xmp.Model { return &verModel{} })

func init() { xmp.Register(nsVt) }

func (x verModel) Can(n string) bool                  { return n == "vt" }
func (x verModel) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsVt} }
func (x *verModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *verModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x verModel) SyncToXMP(d *xmp.Document) error    { return nil }
func (x *verModel) CanTag(tag string) bool            { return false }
func (x *verModel) GetTag(tag string) (string, error) { return "", nil }
func (x *verModel) SetTag(tag, value string) error    { return nil }

func TestP17_fields(t *testing.T) {
	rule("fields", "a document with every versioned property of a model read at a random selected version near the bounds; non-trivial: the version is set")
	near := rapid.Custom(func(t *rapid.T) xmp.Version {
		return xmp.Version{Major: rapid.IntRange(0, 3).Draw(t, "ma"), Minor: rapid.IntRange(0, 6).Draw(t, "mi"), Patch: rapid.IntRange(0, 1).Draw(t, "pa")}
	})
	names := []string{"always", "exact", "from", "until", "range", "twin", "attrv"}
	check(t, 1500, func(t *rapid.T) {
		v := near.Draw(t, "version")
		vals := map[string]string{}
		var attrs, elems strings.Builder
		for _, n := range names {
			if !rapid.Bool().Draw(t, "has-"+n) {
				continue
			}
			vals[n] = rapid.StringMatching(`[a-z]{1,6}`).Draw(t, n)
			if rapid.Bool().Draw(t, "attr-"+n) {
				fmt.Fprintf(&attrs, ` vt:%s="%s"`, n, vals[n])
			} else {
				fmt.Fprintf(&elems, `<vt:%s>%s</vt:%s>`, n, vals[n], n)
			}
		}
		src := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:vt="` + nsVt.GetURI() + `"` + attrs.String() + `>` + elems.String() + `</rdf:Description></rdf:RDF></x:xmpmeta>`
		tally("fields", v.String()+src, !v.IsZero() && len(vals) > 0)
		dec := xmp.NewDecoder(strings.NewReader(src))
		dec.SetVersion(v)
		d := xmp.NewDocument()
		defer d.Close()
		if err := dec.Decode(d); err != nil {
			t.Fatalf("decode: %v\n%s", err, src)
		}
		if len(vals) == 0 {
			return
		}
		m, ok := d.FindModel(nsVt).(*verModel)
		if !ok {
			t.Fatalf("no model after reading %s", src)
		}
		in := func(lo, hi string) bool {
			if v.IsZero() {
				return true
			}
			l, _ := xmp.ParseVersion(lo)
			h, _ := xmp.ParseVersion(hi)
			return (lo == "" || cmpVersion(l, v) <= 0) && (hi == "" || cmpVersion(v, h) <= 0)
		}
		want := verModel{Always: vals["always"]}
		if in("2.3", "2.3") {
			want.Exact = vals["exact"]
		}
		if in("2.4", "") {
			want.From = vals["from"]
			want.NewForm = vals["twin"]
		}
		if in("", "2.3") {
			want.Until = vals["until"]
			want.OldForm = vals["twin"]
		}
		if in("1.1", "2.2") {
			want.Range = vals["range"]
		}
		if in("1.5", "") {
			want.AttrV = vals["attrv"]
		}
		if v.IsZero() { // no version selected: the first form of a property wins
			want.NewForm = ""
		}
		if *m != want {
			t.Fatalf("version %v: read %+v, want %+v\n%s", v, *m, want, src)
		}
		// nothing is lost: a property outside of the selected version is kept
		// as unknown property and written again
		out, err := xmp.Marshal(d)
		if err != nil {
			t.Fatalf("marshal: %v", err)
		}
		e := xmp.NewDocument()
		defer e.Close()
		dec2 := xmp.NewDecoder(strings.NewReader(string(out)))
		dec2.SetVersion(v)
		if err := dec2.Decode(e); err != nil {
			t.Fatalf("re-read: %v\n%s", err, out)
		}
		m2, ok := e.FindModel(nsVt).(*verModel)
		if !ok || *m2 != want {
			t.Fatalf("version %v: re-read %+v, want %+v\n%s", v, m2, want, out)
		}
		for n, val := range vals {
			if !strings.Contains(string(out), val) {
				t.Fatalf("version %v: property %s=%q lost on write\n%s", v, n, val, out)
			}
		}
	})
}
