package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P32: the same document always gives the same bytes and the same lists.

// forms returns everything a document is turned into.
func forms(d *xmp.Document, indent bool) (l [4][]byte, err error) {
	if indent {
		l[0], err = xmp.MarshalIndent(d, "", "  ")
	} else {
		l[0], err = xmp.Marshal(d)
	}
	if err != nil {
		return
	}
	if l[1], err = json.Marshal(d); err != nil {
		return
	}
	paths, err := d.ListPaths()
	if err != nil {
		return
	}
	var p, n bytes.Buffer
	for _, v := range paths {
		fmt.Fprintf(&p, "%s = %q\n", v.Path, v.Value)
	}
	for _, v := range d.Nodes() {
		fmt.Fprintln(&n, v.FullName())
	}
	l[2], l[3] = p.Bytes(), n.Bytes()
	return
}

var formNames = [4]string{"XML", "JSON", "listing", "node order"}

func sameForms(a, b [4][]byte, what string) error {
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return fmt.Errorf("%s: the %s is\n%s\ninstead of\n%s", what, formNames[i], b[i], a[i])
		}
	}
	return nil
}

func TestP32_Stable(t *testing.T) {
	corpus(t)
	rule("stable", "documents of several models and unknown namespaces are turned into XML, JSON, listing and node order repeatedly, in several copies read from the same text and after being read back from their own output; all must be the same bytes; non-trivial: at least two namespaces")
	check(t, 1500, func(rt *rapid.T) {
		text := genStableText(rt)
		indent := rapid.Bool().Draw(rt, "indent")
		if err := try(func() error {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal([]byte(text), d); err != nil {
				tally("stable", text, false, "rejected")
				return nil
			}
			tally("stable", text, len(d.Namespaces()) > 1, fmt.Sprint(len(d.Nodes()), " nodes"))
			first, err := forms(d, indent)
			if err != nil {
				return err
			}
			for i := 0; i < 3; i++ {
				again, err := forms(d, indent)
				if err != nil {
					return err
				}
				if err := sameForms(first, again, "written again"); err != nil {
					return err
				}
			}
			for i := 0; i < 3; i++ {
				c := xmp.NewDocument()
				defer c.Close()
				if err := xmp.Unmarshal([]byte(text), c); err != nil {
					return err
				}
				copied, err := forms(c, indent)
				if err != nil {
					return err
				}
				if err := sameForms(first, copied, "read again"); err != nil {
					return err
				}
			}
			// what the library writes becomes stable: reading may align
			// properties of several models and take content to its usual form
			cur := first[0]
			var prev [4][]byte
			for i := 0; i < 4; i++ {
				c := xmp.NewDocument()
				defer c.Close()
				if err := xmp.Unmarshal(cur, c); err != nil {
					return fmt.Errorf("reading back: %v\n%s", err, cur)
				}
				l, err := forms(c, indent)
				if err != nil {
					return err
				}
				if i == 3 {
					if err := sameForms(prev, l, "rewritten three times"); err != nil {
						return err
					}
				}
				prev, cur = l, l[0]
			}
			// and so does JSON
			cur = prev[1]
			for i := 0; i < 3; i++ {
				c := xmp.NewDocument()
				defer c.Close()
				if err := json.Unmarshal(cur, c); err != nil {
					return fmt.Errorf("reading JSON back: %v\n%s", err, cur)
				}
				l, err := forms(c, indent)
				if err != nil {
					return err
				}
				if i == 2 {
					if err := sameForms(prev, l, "rewritten in JSON twice"); err != nil {
						return err
					}
				}
				prev, cur = l, l[1]
			}
			return nil
		}); err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}

// genStableText draws the text of a document, often one of many namespaces.
func genStableText(rt *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(rt, "kind") == 0 {
		return genDocText(rt, "doc")
	}
	doc := &rdfDoc{about: genAbout(rt)}
	if rapid.Bool().Draw(rt, "typed") {
		var err error
		if doc, _, err = genTypedDoc(rt); err != nil {
			rt.Fatalf("%v", err)
		}
	}
	doc.props = append(doc.props, genRdfProps(rt, append(unknownNs[:len(unknownNs):len(unknownNs)], knownUnknownNs...), 3, 1, 8, "x")...)
	s, _ := writeRDF(rt, doc, prefixTable(unknownNs), nil)
	return s
}
