package checks

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// vocabulary.json is the published vocabulary: namespaces, and for every
// property of the models the name and form other tools use, keyed by the
// exported Go field that holds it. It has been compared with parts 1 and 2 of
// the XMP specification, the Exif and ID3 specifications and the vendors'
// documentation as far as they go (see DESIGN.md); the rest is what the library
// has written from the start.
//
//go:embed vocabulary.json
var vocabularyText []byte

type vocProp struct {
	Name  string   `json:"name"`            // usual prefix and name
	Forms []string `json:"forms,omitempty"` // simple, struct, Seq, Bag, Alt
}

type vocabulary struct {
	Namespaces map[string]string             `json:"namespaces"`
	Models     map[string]map[string]vocProp `json:"models"`  // model, field
	Types      map[string]map[string]vocProp `json:"types"`   // structure, field
	Tags       map[string]map[string]string  `json:"tags"`    // model, native tag, field
	Aliases    map[string]string             `json:"aliases"` // ID3 tags of older versions
	Genres     []string                      `json:"genres"`  // ID3 genre codes
	Media      map[string]string             `json:"media"`   // iTunes media types
}

var voc = func() (v vocabulary) {
	if err := json.Unmarshal(vocabularyText, &v); err != nil {
		panic(err)
	}
	return
}()

func (v *vocabulary) key(name string) (uri, local string) {
	i := strings.IndexByte(name, ':')
	return v.Namespaces[name[:i]], name[i+1:]
}

func (p vocProp) hasForm(k rdfKind) bool {
	for _, f := range p.Forms {
		if f == kindName[k] {
			return true
		}
	}
	return len(p.Forms) == 0
}

func findProps(l []rdfProp, uri, name string) (r []rdfVal) {
	for _, p := range l {
		if p.uri == uri && p.name == name {
			r = append(r, p.val)
		}
	}
	return
}

// vocLeaf compares the text of a simple value with the Go value it was
// written from, where the text is known independently of the library.
func vocLeaf(v reflect.Value, text string) bool {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Type().Implements(textMarshaler) || reflect.PtrTo(v.Type()).Implements(textMarshaler) || v.Type().PkgPath() != "" {
		return true
	}
	switch v.Kind() {
	case reflect.String:
		return text == strings.TrimSpace(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return text == strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return text == strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(text, v.Type().Bits())
		return err == nil && f == v.Float()
	}
	return true
}

// checkVoc compares a written value with the value it was written from.
func checkVoc(v reflect.Value, r rdfVal, at string, names map[string]bool) error {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	switch {
	case r.kind == rSimple:
		if !vocLeaf(v, r.text) {
			return fmt.Errorf("%s is written as %q, not %v", at, r.text, v.Interface())
		}
	case r.kind == rStruct && v.Kind() == reflect.Struct:
		fields, ok := voc.Types[v.Type().String()]
		if !ok {
			return nil
		}
		known := map[string]bool{}
		for i := 0; i < v.NumField(); i++ {
			p, ok := fields[v.Type().Field(i).Name]
			if !ok {
				continue
			}
			uri, name := voc.key(p.Name)
			known[uri+name] = true
			l := findProps(r.fields, uri, name)
			switch {
			case len(l) > 1:
				return fmt.Errorf("%s has field %s %d times", at, p.Name, len(l))
			case len(l) == 0:
				if !zeroValue(v.Field(i)) {
					return fmt.Errorf("%s lacks its field %s", at, p.Name)
				}
				continue
			case !p.hasForm(l[0].kind):
				return fmt.Errorf("%s/%s is written as %s, not as %v", at, p.Name, kindName[l[0].kind], p.Forms)
			}
			names[v.Type().String()+"/"+p.Name] = true
			if err := checkVoc(v.Field(i), l[0], at+"/"+p.Name, names); err != nil {
				return err
			}
		}
		for _, p := range r.fields {
			if !known[p.uri+p.name] {
				return fmt.Errorf("%s is written with a field %s the structure does not have", at, p.key())
			}
		}
	case v.Kind() == reflect.Slice && (r.kind == rSeq || r.kind == rBag):
		if len(r.items) != v.Len() {
			return fmt.Errorf("%s is written with %d of %d items", at, len(r.items), v.Len())
		}
		for i := range r.items {
			if err := checkVoc(v.Index(i), r.items[i], fmt.Sprintf("%s[%d]", at, i), names); err != nil {
				return err
			}
		}
	}
	return nil
}

// otherContainer changes the kind of a list when the property is found with
// either.
func otherContainer(v *rdfVal, p vocProp) {
	switch {
	case v.kind == rBag && p.hasForm(rSeq):
		v.kind = rSeq
	case v.kind == rSeq && p.hasForm(rBag):
		v.kind = rBag
	}
}

func zeroValue(v reflect.Value) bool {
	if z, ok := v.Interface().(interface{ IsZero() bool }); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
		return z.IsZero()
	}
	return v.IsZero() || v.Kind() == reflect.Slice && v.Len() == 0
}

func TestP26_Names(t *testing.T) {
	rule("names", "every property of every model is filled with random valid values and written; the property must be in the document under its published namespace URI and name, in its published form, with the published names of structure fields, all judged by an independent RDF reader; the same property written by other tools in a random spelling with prefixes of their own must be read into the same field with the same value and be reachable under its usual prefix; non-trivial: distinct property and value")
	assume("P26: the vocabulary is a table that has been compared with the published specifications; for properties of formats without a published XMP schema (id3, iTunes, qt, mp4, iXML, digiKam, ...) it is what the library has always written")
	learn := os.Getenv("VERIF_LEARN") != ""
	for _, p := range modelPrefixes() {
		for _, f := range modelFields(p) {
			p, f := p, f
			if f.tag.version || f.tag.any {
				continue
			}
			t.Run(f.String(), func(t *testing.T) {
				want, ok := voc.Models[p][f.goName]
				if !ok && !learn {
					tally("names", "", false, "field is not in the vocabulary")
					return
				}
				check(t, 25, func(rt *rapid.T) {
					if err := try(func() error {
						m := newModel(p)
						v, ok := genField(rt, f, f.goName)
						if !ok {
							tally("names", "", false, "no generator")
							return nil
						}
						setField(m, f, v)
						before := canonModel(m)[f.tag.name]
						d := xmp.NewDocument()
						defer d.Close()
						if _, err := d.AddModel(m); err != nil {
							return err
						}
						b, err := xmp.Marshal(d)
						if err != nil {
							return err
						}
						doc, err := parseRDF(b)
						if err != nil {
							return fmt.Errorf("%v\n%s", err, b)
						}
						if learn {
							learnVoc(p, f, v, doc)
							return nil
						}
						uri, name := voc.key(want.Name)
						l := findProps(doc.props, uri, name)
						if len(l) == 0 && zeroValue(v) {
							tally("names", "", false, "empty value")
							return nil
						}
						if len(l) != 1 {
							return fmt.Errorf("%s is written %d times as %s of %s\n%s", f.goName, len(l), name, uri, b)
						}
						if !want.hasForm(l[0].kind) {
							return fmt.Errorf("%s is written as %s, not as %v\n%s", want.Name, kindName[l[0].kind], want.Forms, b)
						}
						names := map[string]bool{}
						if err := checkVoc(v, l[0], want.Name, names); err != nil {
							return fmt.Errorf("%v\n%s", err, b)
						}
						for n := range names {
							tally("fields", n, true)
						}
						// from another tool
						if rapid.Bool().Draw(rt, "container") {
							otherContainer(&l[0], want)
							for i := range doc.props {
								if doc.props[i].uri == uri && doc.props[i].name == name {
									doc.props[i].val = l[0]
								}
							}
						}
						text, _ := writeRDF(rt, doc, func(uri string) string { return "p" }, nil)
						tally("names", f.String()+"="+before, true, kindName[l[0].kind])
						d2 := xmp.NewDocument()
						defer d2.Close()
						if err := xmp.Unmarshal([]byte(text), d2); err != nil {
							return fmt.Errorf("reading: %v\n%s", err, text)
						}
						ns, err := xmp.GetNamespace(p)
						if err != nil {
							return err
						}
						if ownModel(m, want.Name) {
							m2 := d2.FindModel(ns)
							if m2 == nil {
								return fmt.Errorf("no %s model after reading\n%s", p, text)
							}
							if got := canonModel(m2)[f.tag.name]; got != before {
								return fmt.Errorf("%s is %q, not %q after reading\n%s", want.Name, got, before, text)
							}
						}
						if l[0].kind == rSimple && l[0].text != "" {
							if s, err := d2.GetPath(xmp.Path(want.Name)); err != nil || s == "" {
								return fmt.Errorf("%s reads as %q (%v)\n%s", want.Name, s, err, text)
							}
						}
						return nil
					}); err != nil {
						rt.Fatalf("%v", err)
					}
				})
			})
		}
	}
	if learn {
		writeVoc(os.Getenv("VERIF_LEARN"))
	}
}

func TestP26_Namespaces(t *testing.T) {
	rule("namespaces", "every registered namespace, in random order and with random foreign prefixes: prefix and URI must be the published pair in both directions, and a property of that URI must be reachable under the usual prefix and written under the URI; non-trivial: distinct namespace and prefix")
	var l []string
	for p := range voc.Namespaces {
		switch p {
		case "rdf", "xml", "x":
			continue
		}
		l = append(l, p)
	}
	sort.Strings(l)
	check(t, 600, func(rt *rapid.T) {
		if err := try(func() error {
			p := rapid.SampledFrom(l).Draw(rt, "namespace")
			uri := voc.Namespaces[p]
			ns, err := xmp.GetNamespace(p)
			if err != nil || ns.GetURI() != uri || ns.GetName() != p {
				return fmt.Errorf("namespace %s is %v (%v)", p, ns, err)
			}
			if s := xmp.NsRegistry.GetPrefix(uri); s != p {
				return fmt.Errorf("namespace %s has prefix %q", uri, s)
			}
			foreign := rapid.SampledFrom([]string{p, "a", "ns1", "xap", "dc", "tiff", "my"}).Draw(rt, "prefix")
			name, value := "q"+genWord(rt, "name"), genWord(rt, "value")
			for i := range name {
				if !(name[i] >= 'a' && name[i] <= 'z' || name[i] >= 'A' && name[i] <= 'Z' || name[i] >= '0' && name[i] <= '9') {
					return nil
				}
			}
			tally("namespaces", p+" "+foreign, true, p)
			text := fmt.Sprintf(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="%s"><rdf:Description rdf:about="" xmlns:%s="%s"><%s:%s>%s</%s:%s></rdf:Description></rdf:RDF></x:xmpmeta>`,
				rdfURI, foreign, uri, foreign, name, xmlEscape(value), foreign, name)
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal([]byte(text), d); err != nil {
				return err
			}
			if s, err := d.GetPath(xmp.Path(p + ":" + name)); err != nil || s != value {
				return fmt.Errorf("%s:%s is %q (%v), not %q\n%s", p, name, s, err, value, text)
			}
			b, err := xmp.Marshal(d)
			if err != nil {
				return err
			}
			doc, err := parseRDF(b)
			if err != nil {
				return err
			}
			if l := findProps(doc.props, uri, name); len(l) != 1 || l[0].text != value {
				return fmt.Errorf("%s:%s is not written\n%s", p, name, b)
			}
			return nil
		}); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}

// ---------------------------------------------------------------------------
// making the table, which is then reviewed: VERIF_LEARN=file
// ---------------------------------------------------------------------------

var learned = vocabulary{Models: map[string]map[string]vocProp{}, Types: map[string]map[string]vocProp{}}

func learnForm(m map[string]vocProp, field, name string, k rdfKind) {
	p := m[field]
	p.Name = name
	if len(p.Forms) == 0 || !p.hasForm(k) {
		p.Forms = append(p.Forms, kindName[k])
		sort.Strings(p.Forms)
	}
	m[field] = p
}

func learnVoc(prefix string, f modelField, v reflect.Value, doc *rdfDoc) {
	if learned.Models[prefix] == nil {
		learned.Models[prefix] = map[string]vocProp{}
	}
	uri, name := voc.key(f.tag.name)
	for _, r := range findProps(doc.props, uri, name) {
		learnForm(learned.Models[prefix], f.goName, f.tag.name, r.kind)
		learnType(v, r)
	}
}

func learnType(v reflect.Value, r rdfVal) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	switch {
	case r.kind == rStruct && v.Kind() == reflect.Struct:
		n := v.Type().String()
		if learned.Types[n] == nil {
			learned.Types[n] = map[string]vocProp{}
		}
		for i := 0; i < v.NumField(); i++ {
			ft, ok := xmpTag(v.Type().Field(i))
			if !ok || ft.omit || !strings.Contains(ft.name, ":") {
				continue
			}
			uri, name := voc.key(ft.name)
			for _, x := range findProps(r.fields, uri, name) {
				learnForm(learned.Types[n], v.Type().Field(i).Name, ft.name, x.kind)
				learnType(v.Field(i), x)
			}
		}
	case v.Kind() == reflect.Slice && (r.kind == rSeq || r.kind == rBag || r.kind == rAlt):
		for i := range r.items {
			if i < v.Len() {
				learnType(v.Index(i), r.items[i])
			}
		}
	}
}

func writeVoc(file string) {
	learned.Namespaces = voc.Namespaces
	learned.Tags, learned.Aliases = map[string]map[string]string{}, voc.Aliases
	learned.Genres, learned.Media = voc.Genres, voc.Media
	for _, n := range nativeModels() {
		m := map[string]string{}
		for _, nt := range n.tags {
			typ := reflect.TypeOf(newModel(n.prefix)).Elem()
			var names []string
			for _, i := range nt.path {
				for typ.Kind() == reflect.Ptr {
					typ = typ.Elem()
				}
				names = append(names, typ.Field(i).Name)
				typ = typ.Field(i).Type
			}
			m[nt.key] = strings.Join(names, ".")
		}
		if n.named {
			learned.Tags[n.name] = m
		}
	}
	b, _ := json.MarshalIndent(learned, "", " ")
	os.WriteFile(file, append(b, '\n'), 0644)
}
