package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

type writeOpt struct {
	flags  int
	prefix string
	indent string
}

func genWriteOpt(t *rapid.T) writeOpt {
	return writeOpt{
		flags:  rapid.SampledFrom([]int{0, xmp.Xpacket}).Draw(t, "flags"),
		indent: rapid.SampledFrom([]string{"", "", " ", "  ", "\t"}).Draw(t, "indent"),
		prefix: rapid.SampledFrom([]string{"", "", "\t", "  "}).Draw(t, "iprefix"),
	}
}

func encodeDoc(d *xmp.Document, o writeOpt) ([]byte, error) {
	var b bytes.Buffer
	e := xmp.NewEncoder(&b)
	e.SetFlags(o.flags)
	if o.indent != "" || o.prefix != "" {
		e.Indent(o.prefix, o.indent)
	}
	if err := e.Encode(d); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// ownModel tells whether the property is stored in the model itself when it
// is read (some models write properties into the namespace of another model).
func ownModel(m xmp.Model, name string) bool {
	i := strings.IndexByte(name, ':')
	return i < 0 || m.Can(name[:i])
}

// roundTripModel writes a document holding just m and compares what is read
// back with the state of m after writing (writing synchronises models).
func roundTripModel(m xmp.Model, prefix string, o writeOpt) error {
	before := canonModel(m)
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m); err != nil {
		return fmt.Errorf("AddModel: %v", err)
	}
	b, err := encodeDoc(d, o)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	after := canonModel(m)
	d2 := xmp.NewDocument()
	defer d2.Close()
	if err := xmp.Unmarshal(b, d2); err != nil {
		return fmt.Errorf("reading back: %v\n%s", err, b)
	}
	ns, _ := xmp.GetNamespace(prefix)
	m2 := d2.FindModel(ns)
	got := map[string]string{}
	if m2 != nil {
		got = canonModel(m2)
	}
	for k, v := range before {
		if after[k] != v {
			return fmt.Errorf("writing changed %s: %q became %q", k, v, after[k])
		}
	}
	want := map[string]string{}
	for k, v := range after {
		if !ownModel(m, k) {
			continue
		}
		want[k] = v
	}
	for k := range got {
		if !ownModel(m, k) {
			delete(got, k)
		}
	}
	if syncing[prefix] {
		// synchronising models may gain properties when they are read
		for k := range got {
			if want[k] == "" {
				delete(got, k)
			}
		}
	}
	if s := diffMaps(want, got); s != "" {
		return fmt.Errorf("model %s differs after writing and reading:\n  %s\n%s", prefix, s, b)
	}
	return nil
}

func TestP03_Fields(t *testing.T) {
	rule("fields", "every property of every bundled model is filled alone with a random valid value, written (compact or indented, with or without packet wrapper) and read back; non-trivial: a distinct (property, value)")
	for _, p := range modelPrefixes() {
		for _, f := range modelFields(p) {
			f := f
			t.Run(f.String(), func(t *testing.T) {
				check(t, 30, func(rt *rapid.T) {
					v, ok := genField(rt, f, f.goName)
					if !ok {
						excluded("fields without generator: " + f.String())
						return
					}
					m := newModel(f.prefix)
					setField(m, f, v)
					o := genWriteOpt(rt)
					c := canon(v)
					tally("fields", f.String()+"="+c, c != "", f.prefix)
					if err := try(func() error { return roundTripModel(m, f.prefix, o) }); err != nil {
						rt.Fatalf("%s = %.500s\n%v", f, c, err)
					}
				})
			})
		}
	}
}

// syncing names the models whose properties are copied to or from other
// models when a document is read or written.
var syncing = map[string]bool{"exif": true, "tiff": true, "id3": true, "riffinfo": true, "pdf": true, "iXML": true, "qt": true, "drone-dji": true}

// syncTarget names the models they copy to.
var syncTarget = map[string]bool{"dc": true, "xmp": true, "xmpDM": true, "xmpRights": true, "photoshop": true, "tiff": true, "iXML": true}

// modelMix draws models for one document such that no property is governed by
// two of them: at most one model that synchronises, and not with one of those
// it synchronises with.
func modelMix(t *rapid.T) []string {
	n := rapid.IntRange(2, 6).Draw(t, "models")
	var l []string
	seen := map[string]bool{}
	haveSync, haveTarget := false, false
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom(modelPrefixes()).Draw(t, "model")
		if seen[p] || syncing[p] && (haveSync || haveTarget) || syncTarget[p] && haveSync {
			continue
		}
		haveSync = haveSync || syncing[p]
		haveTarget = haveTarget || syncTarget[p]
		seen[p] = true
		l = append(l, p)
	}
	return l
}

func TestP03_Models(t *testing.T) {
	rule("models", "a model with a random set of filled properties (1..8, sometimes all), alone in a document; non-trivial: at least two properties set, distinct content")
	for _, p := range modelPrefixes() {
		p := p
		t.Run(p, func(t *testing.T) {
			check(t, 60, func(rt *rapid.T) {
				m := genModel(rt, p, p)
				o := genWriteOpt(rt)
				c := canonModel(m)
				tally("models", p+fmt.Sprint(c), len(c) > 1, p)
				if err := try(func() error { return roundTripModel(m, p, o) }); err != nil {
					rt.Fatalf("%v\nmodel %s: %.1500v", err, p, c)
				}
			})
		})
	}
}

// modelStates returns the properties of all models of a document, by property
// name. A model may carry properties of another model's namespace: these count
// where the other model has none.
func modelStates(d *xmp.Document) map[string]string {
	own, foreign := map[string]string{}, map[string]string{}
	for _, n := range d.Nodes() {
		if n.Model == nil {
			continue
		}
		for k, v := range canonModel(n.Model) {
			if ownModel(n.Model, k) {
				own[k] = v
			} else {
				foreign[k] = v
			}
		}
	}
	for k, v := range foreign {
		if own[k] == "" {
			own[k] = v
		}
	}
	return own
}

func TestP03_Documents(t *testing.T) {
	rule("documents", "2..5 models that do not govern each other's properties in one document, written in four styles (compact, indented, with and without packet wrapper) that must all read back as the same models; non-trivial: two models with at least three properties in total")
	check(t, 1500, func(rt *rapid.T) {
		l := modelMix(rt)
		d := xmp.NewDocument()
		defer d.Close()
		before := map[string]string{}
		for _, p := range l {
			m := genModel(rt, p, p)
			for k, v := range canonModel(m) {
				if ownModel(m, k) {
					before[k] = v
				}
			}
			if _, err := d.AddModel(m); err != nil {
				rt.Fatalf("AddModel %s: %v", p, err)
			}
		}
		tally("documents", fmt.Sprint(before), len(l) > 1 && len(before) > 2, fmt.Sprintf("%d models", len(l)))
		err := try(func() error {
			var first map[string]string
			for _, o := range []writeOpt{{flags: xmp.Xpacket}, {flags: 0}, {flags: 0, indent: "  "}, {flags: xmp.Xpacket, indent: "\t", prefix: " "}} {
				b, err := encodeDoc(d, o)
				if err != nil {
					return fmt.Errorf("writing %+v: %v", o, err)
				}
				d2 := xmp.NewDocument()
				if err := xmp.Unmarshal(b, d2); err != nil {
					return fmt.Errorf("reading back %+v: %v\n%s", o, err, b)
				}
				got := modelStates(d2)
				for k, v := range before {
					if got[k] != v {
						return fmt.Errorf("%+v: %s is %q, was %q\n%s", o, k, got[k], v, b)
					}
				}
				want := modelStates(d)
				for k := range got {
					if i := strings.IndexByte(k, ':'); i > 0 && want[k] == "" && syncing[k[:i]] {
						delete(got, k) // gained by synchronising
					}
				}
				if s := diffMaps(want, got); s != "" {
					return fmt.Errorf("%+v: written models differ from read models:\n  %s\n%s", o, s, b)
				}
				if first == nil {
					first = got
				} else if s := diffMaps(first, got); s != "" {
					return fmt.Errorf("%+v: differs from the first style:\n  %s", o, s)
				}
				d2.Close()
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\nmodels %v", err, l)
		}
	})
}

func TestP03_Known(t *testing.T) {
	knownFinding(t, "P03", "binary-bytes", "byte array properties (id3:musicCDIdentifier {0xff 0xd8 0x00}) are written as raw text and lose bytes XML cannot carry", func() error {
		m := newModel("id3")
		for _, f := range modelFields("id3") {
			if f.tag.name == "id3:musicCDIdentifier" && f.typ.Kind() == reflect.Slice {
				setField(m, f, reflect.ValueOf([]byte{0xff, 0xd8, 0}))
				return roundTripModel(m, "id3", writeOpt{})
			}
		}
		return nil
	})
}
