package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

var listKind = regexp.MustCompile(`^(Seq|Bag|Alt) `)

// anyList replaces the kind of arrays: JSON has one kind of list, so a list
// without a model keeps its items but not whether it was a Seq, Bag or Alt.
func anyList(m map[string]string) {
	for k, v := range m {
		m[k] = listKind.ReplaceAllString(v, "List ")
	}
}

// shuffleJSON spells a JSON text differently: member order, whitespace,
// escapes.
func shuffleJSON(t *rapid.T, b []byte) (string, error) {
	var v interface{}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		return "", err
	}
	rev := rapid.Bool().Draw(t, "rev")
	ws := rapid.SampledFrom([]string{"", " ", "\n\t"}).Draw(t, "ws")
	esc := rapid.Bool().Draw(t, "esc")
	var w strings.Builder
	str := func(s string) {
		if !esc {
			x, _ := json.Marshal(s)
			w.Write(x)
			return
		}
		w.WriteByte('"')
		for _, r := range s {
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&w, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+r&0x3ff)
			} else {
				fmt.Fprintf(&w, `\u%04x`, r)
			}
		}
		w.WriteByte('"')
	}
	var put func(v interface{})
	put = func(v interface{}) {
		w.WriteString(ws)
		switch x := v.(type) {
		case map[string]interface{}:
			var l []string
			for k := range x {
				l = append(l, k)
			}
			sort.Strings(l)
			if rev {
				sort.Sort(sort.Reverse(sort.StringSlice(l)))
			}
			w.WriteByte('{')
			for i, k := range l {
				if i > 0 {
					w.WriteByte(',')
				}
				w.WriteString(ws)
				str(k)
				w.WriteString(ws + ":")
				put(x[k])
			}
			w.WriteString(ws + "}")
		case []interface{}:
			w.WriteByte('[')
			for i, y := range x {
				if i > 0 {
					w.WriteByte(',')
				}
				put(y)
			}
			w.WriteString(ws + "]")
		case string:
			str(x)
		default:
			y, _ := json.Marshal(x)
			w.Write(y)
		}
	}
	put(v)
	return w.String(), nil
}

// jsonModels returns the JSON form of the models of a document. Namespaces
// that are declared and not used may differ between equal documents.
func jsonModels(b []byte) string {
	var v struct {
		About  json.RawMessage            `json:"about"`
		Models map[string]json.RawMessage `json:"models"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return err.Error()
	}
	for k, m := range v.Models {
		if s := string(m); s == "{}" || s == "null" {
			delete(v.Models, k)
		}
	}
	out, _ := json.Marshal(v)
	return string(out)
}

// checkJSON compares a document with what its JSON form is read as.
func checkJSON(t *rapid.T, d *xmp.Document) error {
	r0, err := readDoc(d)
	if err != nil {
		return err
	}
	b, err := json.Marshal(d)
	if err != nil {
		return fmt.Errorf("writing JSON: %v", err)
	}
	if !json.Valid(b) {
		return fmt.Errorf("JSON is not valid: %s", b)
	}
	for i := 0; i < 2; i++ {
		b2, err := json.Marshal(d)
		if err != nil || !bytes.Equal(b, b2) {
			return fmt.Errorf("writing JSON again differs: %v\n%s\n%s", err, b, b2)
		}
	}
	if direct, err := d.MarshalJSON(); err != nil || !json.Valid(direct) {
		return fmt.Errorf("MarshalJSON: %v\n%s", err, direct)
	}
	r1, err := readDoc(d)
	if err != nil {
		return err
	}
	if s := r0.diff(r1); s != "" {
		return fmt.Errorf("writing JSON changes the document: %s", s)
	}
	d2 := xmp.NewDocument()
	defer d2.Close()
	if err := json.Unmarshal(b, d2); err != nil {
		return fmt.Errorf("reading JSON: %v\n%s", err, b)
	}
	r2, err := readDoc(d2)
	if err != nil {
		return fmt.Errorf("read from JSON: %v\n%s", err, b)
	}
	for _, r := range []*reading{r0, r2} {
		anyList(r.out)
		for k, v := range r.models { // embedded resources
			r.models[k] = strings.Replace(v, "rdf:Bag(", "rdf:Seq(", -1)
		}
	}
	if s := r0.diff(r2); s != "" {
		return fmt.Errorf("JSON carries another content: %s\n%s", s, b)
	}
	b2, err := json.Marshal(d2)
	if err != nil || jsonModels(b) != jsonModels(b2) {
		return fmt.Errorf("JSON of what was read from JSON differs: %v\n%s\n%s", err, b, b2)
	}
	text, err := shuffleJSON(t, b)
	if err != nil {
		return err
	}
	d3 := xmp.NewDocument()
	defer d3.Close()
	if err := json.Unmarshal([]byte(text), d3); err != nil {
		return fmt.Errorf("reading respelled JSON: %v\n%s", err, text)
	}
	r3, err := readDoc(d3)
	if err != nil {
		return fmt.Errorf("read from respelled JSON: %v\n%s", err, text)
	}
	anyList(r3.out)
	if s := r0.diff(r3); s != "" {
		return fmt.Errorf("respelled JSON carries another content: %s\n%s", s, text)
	}
	return nil
}

func TestP05_Fields(t *testing.T) {
	rule("fields", "every property of every bundled model is filled alone with a random valid value; the JSON form must be valid, stable, and read back (as written and respelled) as a document with the same listing, models and XML; non-trivial: a distinct (property, value)")
	for _, p := range modelPrefixes() {
		for _, f := range modelFields(p) {
			f := f
			t.Run(f.String(), func(t *testing.T) {
				check(t, 20, func(rt *rapid.T) {
					v, ok := genField(rt, f, f.goName)
					if !ok {
						excluded("fields without generator: " + f.String())
						return
					}
					m := newModel(f.prefix)
					setField(m, f, v)
					c := canon(v)
					tally("fields", f.String()+"="+c, c != "", f.prefix)
					err := try(func() error {
						d := xmp.NewDocument()
						defer d.Close()
						if _, err := d.AddModel(m); err != nil {
							return err
						}
						return checkJSON(rt, d)
					})
					if err != nil {
						rt.Fatalf("%s = %.500s\n%v", f, c, err)
					}
				})
			})
		}
	}
}

func TestP05_Documents(t *testing.T) {
	rule("documents", "documents of several models and properties without a model (texts of any characters, structures, lists of lists and of structures, language alternatives, qualifiers), read from a random RDF spelling; same checks; non-trivial: distinct documents with at least three properties")
	check(t, 2000, func(rt *rapid.T) {
		var doc *rdfDoc
		if err := try(func() (err error) { doc, _, err = genTypedDoc(rt); return }); err != nil {
			rt.Fatalf("%v", err)
		}
		if rapid.Bool().Draw(rt, "extra") {
			doc.props = append(doc.props, genRdfProps(rt, append(unknownNs[:2:2], knownUnknownNs...), 3, 1, 4, "x")...)
		}
		text, f := writeRDF(rt, doc, prefixTable(unknownNs), nil)
		tally("documents", text, len(doc.props) > 2, f...)
		err := try(func() error {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal([]byte(text), d); err != nil {
				return fmt.Errorf("reading: %v", err)
			}
			return checkJSON(rt, d)
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}
