package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// rdfListing is the listing a document with these RDF properties must have.
// Two conventions of the library's path form are applied: a language
// alternative's default that repeats the entry of a language may be listed
// under that language only, and an identifier with a scheme is listed as text.
func rdfListing(doc *rdfDoc, prefixOf func(string) string, got map[string]string) map[string]string {
	want := rdfPaths(doc.props, func(uri string) string {
		if p := prefixOf(uri); p != "missing" {
			return p
		}
		return xmp.NsRegistry.GetPrefix(uri)
	})
	for k, v := range want {
		if strings.HasSuffix(k, "[x-default]") && got[k] == "" {
			alt := strings.TrimSuffix(k, "x-default]")
			for k2, v2 := range want {
				if k2 != k && v2 == v && strings.HasPrefix(k2, alt) && !strings.Contains(k2[len(alt):], "/") {
					delete(want, k)
					break
				}
			}
		}
		if strings.HasPrefix(k, "xmp:Identifier[") && strings.HasSuffix(k, "/rdf:value") {
			item := strings.TrimSuffix(k, "/rdf:value")
			if s, ok := want[item+"/xmpidq:Scheme"]; ok {
				delete(want, item+"/xmpidq:Scheme")
				v = s + ":" + v
			}
			delete(want, k)
			want[item] = v
		}
	}
	return want
}

// checkListing compares the listing of a document with an account of the
// properties it is written with.
func checkListing(d *xmp.Document) (xmp.PathValueList, error) {
	b, err := xmp.Marshal(d)
	if err != nil {
		return nil, fmt.Errorf("writing: %v", err)
	}
	doc, err := parseRDF(b)
	if err != nil {
		return nil, fmt.Errorf("written text is not valid: %v\n%s", err, b)
	}
	l, err := d.ListPaths()
	if err != nil {
		return nil, fmt.Errorf("listing: %v", err)
	}
	got := map[string]string{}
	for _, v := range l {
		if _, ok := got[v.Path.String()]; ok {
			return nil, fmt.Errorf("%s is listed twice", v.Path)
		}
		if v.Value == "" {
			return nil, fmt.Errorf("%s is listed without value", v.Path)
		}
		got[v.Path.String()] = v.Value
	}
	if !sort.SliceIsSorted(l, func(i, j int) bool { return l[i].Path < l[j].Path }) {
		return nil, fmt.Errorf("listing is not sorted: %v", l)
	}
	if s := diffMaps(rdfListing(doc, docPrefix(d), got), got); s != "" {
		return nil, fmt.Errorf("listing differs from the written document:\n  %s\n%s", s, b)
	}
	for _, v := range l {
		if !v.Path.IsXmpPath() {
			return nil, fmt.Errorf("%s is not a valid path", v.Path)
		}
		if r, err := d.GetPath(v.Path); err != nil || r != v.Value {
			return nil, fmt.Errorf("GetPath(%s) = %q, %v, listed as %q\n%s", v.Path, r, err, v.Value, b)
		}
	}
	return l, nil
}

// reapply sets all paths of a listing in an empty document.
func reapply(d *xmp.Document, l xmp.PathValueList) (*xmp.Document, error) {
	d2 := xmp.NewDocument()
	// make the private namespaces of the document known
	seen := map[string]bool{}
	for _, v := range l {
		for _, f := range append([]string{v.Path.NamespacePrefix() + ":"}, v.Path.Fields()...) {
			i := strings.IndexByte(f, ':')
			if i <= 0 || seen[f[:i]] {
				continue
			}
			seen[f[:i]] = true
			if _, err := xmp.GetNamespace(f[:i]); err == nil {
				continue
			}
			ns := d.FindNs(f[:i], "")
			if ns == nil {
				return nil, fmt.Errorf("no namespace for prefix %s in %s", f[:i], v.Path)
			}
			if err := d2.SetPath(xmp.PathValue{Path: xmp.NewPath(ns.GetName()), Namespace: ns.GetURI(), Value: "-", Flags: xmp.CREATE}); err != nil {
				return nil, fmt.Errorf("declaring %s: %v", ns.GetName(), err)
			}
		}
	}
	for _, v := range l {
		if err := d2.SetPath(v); err != nil {
			return nil, fmt.Errorf("setting %s to %q: %v", v.Path, v.Value, err)
		}
	}
	return d2, nil
}

func checkReapply(d *xmp.Document, l xmp.PathValueList) error {
	d2, err := reapply(d, l)
	if err != nil {
		return err
	}
	defer d2.Close()
	want, got := map[string]string{}, map[string]string{}
	for _, v := range l {
		want[v.Path.String()] = v.Value
	}
	l2, err := d2.ListPaths()
	if err != nil {
		return fmt.Errorf("listing the rebuilt document: %v", err)
	}
	for _, v := range l2 {
		got[v.Path.String()] = v.Value
	}
	if s := diffMaps(want, got); s != "" {
		return fmt.Errorf("the document rebuilt from the listing has another listing:\n  %s", s)
	}
	return nil
}

func TestP10_Fields(t *testing.T) {
	rule("fields", "every property of every bundled model is filled alone with a random valid value; the listing must be exactly the properties of the written document (read by the harness's own RDF reader), sorted, each readable by its path, and rebuild the same listing in an empty document; non-trivial: a distinct (property, value)")
	for _, p := range modelPrefixes() {
		for _, f := range modelFields(p) {
			f := f
			t.Run(f.String(), func(t *testing.T) {
				check(t, 20, func(rt *rapid.T) {
					v, ok := genField(rt, f, f.goName)
					if !ok {
						excluded("fields without generator: " + f.String())
						return
					}
					m := newModel(f.prefix)
					setField(m, f, v)
					c := canon(v)
					tally("fields", f.String()+"="+c, c != "", f.prefix)
					err := try(func() error {
						d := xmp.NewDocument()
						defer d.Close()
						if _, err := d.AddModel(m); err != nil {
							return err
						}
						l, err := checkListing(d)
						if err != nil {
							return err
						}
						return checkReapply(d, l)
					})
					if err != nil {
						rt.Fatalf("%s = %.500s\n%v", f, c, err)
					}
				})
			})
		}
	}
}

func TestP10_Documents(t *testing.T) {
	rule("documents", "documents of several models plus properties without a model, built by reading a random spelling; same checks; non-trivial: distinct listings of at least three paths")
	check(t, 2500, func(rt *rapid.T) {
		var doc *rdfDoc
		if err := try(func() (err error) { doc, _, err = genTypedDoc(rt); return }); err != nil {
			rt.Fatalf("%v", err)
		}
		if rapid.Bool().Draw(rt, "extra") {
			doc.props = append(doc.props, genRdfProps(rt, append(unknownNs[:2:2], knownUnknownNs...), 3, 1, 4, "x")...)
		}
		text, f := writeRDF(rt, doc, prefixTable(unknownNs), nil)
		var l xmp.PathValueList
		err := try(func() error {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal([]byte(text), d); err != nil {
				return fmt.Errorf("reading: %v", err)
			}
			var err error
			if l, err = checkListing(d); err != nil {
				return err
			}
			return checkReapply(d, l)
		})
		tally("documents", fmt.Sprint(l), len(l) > 2, f...)
		if err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}
