package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// reading is everything observable about a document: its listing, its models
// and what it is written as.
type reading struct {
	paths, models, out map[string]string
}

func readText(text string) (*reading, error) {
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal([]byte(text), d); err != nil {
		return nil, fmt.Errorf("reading: %v", err)
	}
	return readDoc(d)
}

func readDoc(d *xmp.Document) (*reading, error) {
	var r reading
	paths, err := listing(d)
	if err != nil {
		return nil, fmt.Errorf("listing: %v", err)
	}
	r.paths = map[string]string{}
	for p, v := range paths {
		r.paths[uriPath(d, p)] = v
	}
	r.models = modelStates(d)
	b, err := xmp.Marshal(d)
	if err != nil {
		return nil, fmt.Errorf("writing: %v", err)
	}
	doc, err := parseRDF(b)
	if err != nil {
		return nil, fmt.Errorf("written text is not valid: %v\n%s", err, b)
	}
	r.out = rdfCanon(doc.props)
	r.out["rdf:about"] = doc.about
	return &r, nil
}

// uriPath replaces the prefixes in a path by their namespace URIs.
func uriPath(d *xmp.Document, path string) string {
	l := strings.Split(path, "/")
	for i, s := range l {
		if j := strings.IndexByte(s, ':'); j > 0 && !strings.Contains(s[:j], "[") {
			uri := "?" + s[:j]
			if ns := d.FindNs(s[:j], ""); ns != nil {
				uri = ns.GetURI()
			}
			l[i] = "{" + uri + "}" + s[j+1:]
		}
	}
	return strings.Join(l, "/")
}

func (r *reading) diff(x *reading) string {
	if s := diffMaps(r.paths, x.paths); s != "" {
		return "paths differ: " + s
	}
	if s := diffMaps(r.models, x.models); s != "" {
		return "models differ: " + s
	}
	if s := diffMaps(r.out, x.out); s != "" {
		return "output differs: " + s
	}
	return ""
}

// genTypedDoc builds a document of one to five models and returns the
// properties it is written with.
func genTypedDoc(t *rapid.T) (*rdfDoc, string, error) {
	d := xmp.NewDocument()
	defer d.Close()
	for _, p := range modelMix(t) {
		if _, err := d.AddModel(genModel(t, p, p)); err != nil {
			return nil, "", err
		}
	}
	d.SetDirty()
	b, err := xmp.Marshal(d)
	if err != nil {
		return nil, "", fmt.Errorf("writing: %v", err)
	}
	doc, err := parseRDF(b)
	if err != nil {
		return nil, "", fmt.Errorf("written text is not valid: %v\n%s", err, b)
	}
	return doc, string(b), nil
}

func TestP07_Models(t *testing.T) {
	rule("models", "documents of several models with random content and, half of the time, additional unknown properties are spelled in two random ways; listing, models and the written properties must agree between the two readings and with reading what the library wrote itself; non-trivial: distinct documents with at least three properties whose spellings differ")
	check(t, 2500, func(rt *rapid.T) {
		var doc *rdfDoc
		var text0 string
		if err := try(func() (err error) { doc, text0, err = genTypedDoc(rt); return }); err != nil {
			rt.Fatalf("%v", err)
		}
		extra := rapid.Bool().Draw(rt, "extra")
		if extra {
			doc.props = append(doc.props, genRdfProps(rt, append(unknownNs[:2:2], knownUnknownNs...), 2, 0, 3, "x")...)
		}
		pt := prefixTable(unknownNs)
		a, fa := writeRDF(rt, doc, pt, nil)
		b, fb := writeRDF(rt, doc, pt, nil)
		tally("models", a+b, len(doc.props) > 2 && a != b, append(fa, fb...)...)
		err := try(func() error {
			ra, err := readText(a)
			if err != nil {
				return fmt.Errorf("first spelling: %v", err)
			}
			rb, err := readText(b)
			if err != nil {
				return fmt.Errorf("second spelling: %v", err)
			}
			if s := ra.diff(rb); s != "" {
				return fmt.Errorf("the spellings are read differently: %s", s)
			}
			if !extra {
				r0, err := readText(text0)
				if err != nil {
					return fmt.Errorf("library's own spelling: %v", err)
				}
				if s := r0.diff(ra); s != "" {
					return fmt.Errorf("the spelling is read differently from the library's own: %s\n%s", s, text0)
				}
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s\n-----\n%s", err, a, b)
		}
	})
}

func TestP07_Unknown(t *testing.T) {
	rule("unknown", "trees of properties without a model (unknown namespaces and unknown names of known namespaces) spelled in two random ways must read alike; non-trivial: distinct trees with at least one structure, list or alternative whose spellings differ")
	check(t, 3000, func(rt *rapid.T) {
		nss := append(unknownNs[:2:2], knownUnknownNs[:2]...)
		doc := &rdfDoc{about: genAbout(rt), props: genRdfProps(rt, nss, 3, 1, 6, "p")}
		pt := prefixTable(unknownNs)
		a, fa := writeRDF(rt, doc, pt, nil)
		b, fb := writeRDF(rt, doc, pt, nil)
		ks := map[string]bool{}
		kinds(doc.props, ks, 1)
		tally("unknown", a+b, len(ks) > 1 && a != b, append(fa, fb...)...)
		err := try(func() error {
			ra, err := readText(a)
			if err != nil {
				return fmt.Errorf("first spelling: %v", err)
			}
			rb, err := readText(b)
			if err != nil {
				return fmt.Errorf("second spelling: %v", err)
			}
			if s := ra.diff(rb); s != "" {
				return fmt.Errorf("the spellings are read differently: %s", s)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s\n-----\n%s", err, a, b)
		}
	})
}
