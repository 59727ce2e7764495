package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

func prefixTable(l ...[]rdfNs) func(string) string {
	m := map[string]string{}
	for _, nss := range l {
		for _, v := range nss {
			m[v.uri] = v.prefix
		}
	}
	return func(uri string) string {
		if p, ok := m[uri]; ok {
			return p
		}
		if p := xmp.NsRegistry.GetPrefix(uri); p != "" {
			return p
		}
		return "unmapped"
	}
}

// docPrefix returns the prefix a document uses for a namespace.
func docPrefix(d *xmp.Document) func(string) string {
	return func(uri string) string {
		if ns := d.FindNs("", uri); ns != nil && ns.GetURI() == uri {
			return ns.GetName()
		}
		return "missing"
	}
}

func checkUnknown(doc *rdfDoc, text string) error {
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal([]byte(text), d); err != nil {
		return fmt.Errorf("reading: %v", err)
	}
	prefixOf := docPrefix(d)
	want := rdfPaths(doc.props, prefixOf)
	got, err := listing(d)
	if err != nil {
		return fmt.Errorf("listing: %v", err)
	}
	if s := diffMaps(want, got); s != "" {
		return fmt.Errorf("listing differs from the input:\n  %s", s)
	}
	for p, v := range want {
		if r, err := d.GetPath(xmp.Path(p)); err != nil || r != v {
			return fmt.Errorf("GetPath(%s) = %q, %v, want %q", p, r, err, v)
		}
	}
	for _, p := range doc.props {
		ns := &xmp.Namespace{Name: prefixOf(p.uri), URI: p.uri}
		if d.FindNode(ns) == nil {
			return fmt.Errorf("no node for namespace %s", p.uri)
		}
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return fmt.Errorf("writing: %v", err)
	}
	out, err := parseRDF(b)
	if err != nil {
		return fmt.Errorf("written text is not valid: %v\n%s", err, b)
	}
	if s := diffMaps(rdfCanon(doc.props), rdfCanon(out.props)); s != "" {
		return fmt.Errorf("written document differs from the input:\n  %s\n%s", s, b)
	}
	if out.nDesc > 0 && out.about != doc.about {
		return fmt.Errorf("rdf:about is %q, was %q\n%s", out.about, doc.about, b)
	}
	// and once more after reading
	d2 := xmp.NewDocument()
	defer d2.Close()
	if err := xmp.Unmarshal(b, d2); err != nil {
		return fmt.Errorf("reading back: %v\n%s", err, b)
	}
	got2, err := listing(d2)
	if err != nil {
		return err
	}
	if s := diffMaps(rdfPaths(doc.props, docPrefix(d2)), got2); s != "" {
		return fmt.Errorf("listing after writing and reading differs:\n  %s\n%s", s, b)
	}
	return nil
}

func kinds(l []rdfProp, m map[string]bool, depth int) int {
	max := depth
	for _, p := range l {
		m[kindName[p.val.kind]] = true
		if n := kinds(p.val.fields, m, depth+1); n > max {
			max = n
		}
		for _, it := range p.val.items {
			if n := kinds(it.fields, m, depth+2); n > max {
				max = n
			}
		}
	}
	return max
}

func TestP06_Unknown(t *testing.T) {
	rule("unknown", "property trees (simple values with and without language qualifier, structures, ordered and unordered lists of values or structures, language alternatives, fields of other namespaces, up to four levels) over four unknown namespaces, written in a random RDF spelling, must be listed, readable by path and written out again exactly; non-trivial: distinct trees with at least one structure, list or alternative")
	check(t, 6000, func(rt *rapid.T) {
		nss := unknownNs[:rapid.IntRange(1, len(unknownNs)).Draw(rt, "namespaces")]
		doc := &rdfDoc{about: genAbout(rt), props: genRdfProps(rt, nss, 3, 1, 6, "p")}
		text, features := writeRDF(rt, doc, prefixTable(unknownNs), nil)
		ks := map[string]bool{}
		depth := kinds(doc.props, ks, 1)
		tally("unknown", text, len(ks) > 1, append(features, fmt.Sprintf("depth %d", depth))...)
		if err := try(func() error { return checkUnknown(doc, text) }); err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}

func TestP06_UnknownInModels(t *testing.T) {
	rule("unknown-in-models", "the same for unmodelled properties of namespaces that have a model (dc, xmp, photoshop, tiff), mixed with unknown namespaces; non-trivial: distinct trees with at least one structure, list or alternative")
	check(t, 4000, func(rt *rapid.T) {
		var nss []rdfNs
		nss = append(nss, rapid.SampledFrom(knownUnknownNs).Draw(rt, "known"))
		nss = append(nss, knownUnknownNs...)
		nss = append(nss, unknownNs[:2]...)
		doc := &rdfDoc{about: genAbout(rt), props: genRdfProps(rt, nss, 3, 1, 6, "p")}
		text, features := writeRDF(rt, doc, prefixTable(unknownNs, knownUnknownNs), nil)
		ks := map[string]bool{}
		kinds(doc.props, ks, 1)
		tally("unknown-in-models", text, len(ks) > 1, features...)
		if err := try(func() error { return checkUnknown(doc, text) }); err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}

func TestP06_Regressions(t *testing.T) {
	read := func(text string) (*rdfDoc, error) { return parseRDF([]byte(text)) }
	for name, body := range map[string]string{
		"same prefix for two namespaces":    `<rdf:Description rdf:about="" xmlns:a="urn:one#" a:p="1"/><rdf:Description rdf:about="" xmlns:a="urn:two#" a:p="2"/>`,
		"prefix of a registered namespace":  `<rdf:Description rdf:about="" xmlns:dc="urn:not-dc#" dc:title="1"/><rdf:Description rdf:about="" xmlns:x1="http://purl.org/dc/elements/1.1/" x1:format="2"/>`,
		"default namespace":                 `<rdf:Description rdf:about=""><p xmlns="urn:one#">v</p></rdf:Description>`,
		"nested declaration":                `<rdf:Description rdf:about=""><a:p xmlns:a="urn:one#" rdf:parseType="Resource"><b:q xmlns:b="urn:two#">v</b:q></a:p></rdf:Description>`,
		"same field name in two namespaces": `<rdf:Description rdf:about="" xmlns:a="urn:one#" xmlns:b="urn:two#"><a:p rdf:parseType="Resource"><b:q>1</b:q><a:q>2</a:q></a:p></rdf:Description>`,
		"inner description":                 `<rdf:Description rdf:about="" xmlns:a="urn:one#"><a:p><rdf:Description a:q="1"><a:r>2</a:r></rdf:Description></a:p></rdf:Description>`,
		"nested lists":                      `<rdf:Description rdf:about="" xmlns:a="urn:one#"><a:p><rdf:Seq><rdf:li><rdf:Bag><rdf:li>1</rdf:li><rdf:li>2</rdf:li></rdf:Bag></rdf:li></rdf:Seq></a:p></rdf:Description>`,
	} {
		text := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="` + rdfURI + `">` + body + `</rdf:RDF></x:xmpmeta>`
		example(t, name, func() error {
			doc, err := read(text)
			if err != nil {
				return err
			}
			if strings.Contains(name, "nested lists") {
				// paths of nested lists have their own form
				d := xmp.NewDocument()
				if err := xmp.Unmarshal([]byte(text), d); err != nil {
					return err
				}
				for p, v := range map[string]string{"a:p[0]/[0]": "1", "a:p[0]/[1]": "2"} {
					if r, err := d.GetPath(xmp.Path(p)); err != nil || r != v {
						return fmt.Errorf("GetPath(%s) = %q, %v, want %q", p, r, err, v)
					}
				}
				return nil
			}
			return checkUnknown(doc, text)
		})
	}
}
