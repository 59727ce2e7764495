package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"unicode/utf8"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// what a user does with a document that was read
// ---------------------------------------------------------------------------

// exercise uses a document in every way the property names. Errors are fine,
// panics are not.
func exercise(d *xmp.Document) error {
	return try(func() error {
		l, err := d.ListPaths()
		if err == nil {
			for i, v := range l {
				if i == 200 {
					break
				}
				d.GetPath(v.Path)
			}
		}
		for _, n := range d.Nodes() {
			if n.Model != nil {
				if n.Model.Can(n.Name()) {
					n.Model.Namespaces()
				}
				xmp.ListModelPaths(n.Model)
			}
			n.ListPaths(xmp.NewPath(n.Name()))
		}
		if b, err := json.Marshal(d); err == nil && !json.Valid(b) {
			return fmt.Errorf("invalid JSON: %s", b)
		}
		d.MarshalJSON()
		xmp.Marshal(d)
		xmp.MarshalIndent(d, "", " ")
		d.IsDirty()
		d.SetDirty()
		d.SyncModels()
		xmp.Marshal(d)
		d.ListPaths()
		return nil
	})
}

// sameListing tells whether a document lists what another reading of the same
// text listed.
func sameListing(d *xmp.Document, want xmp.PathValueList) error {
	l, _ := d.ListPaths()
	if len(l) != len(want) {
		return fmt.Errorf("reading the same text again: %d instead of %d paths", len(l), len(want))
	}
	for i, v := range l {
		if v != want[i] {
			return fmt.Errorf("reading the same text again: %v instead of %v", v, want[i])
		}
	}
	return nil
}

// readAll reads a text through every entry point; each must return a document
// or an error. It reports whether the text was accepted.
func readAll(b []byte, extra int) (accepted bool, err error) {
	defer guard(string(b))()
	d := xmp.NewDocument()
	var first xmp.PathValueList
	err = try(func() error {
		e := xmp.Unmarshal(b, d)
		accepted = e == nil
		if accepted && extra == 1 {
			first, _ = d.ListPaths()
		}
		return nil
	})
	if err != nil {
		return
	}
	if accepted {
		if err = exercise(d); err != nil {
			return accepted, fmt.Errorf("using the accepted document: %v", err)
		}
	}
	if err = try(func() error { d.Close(); return nil }); err != nil {
		return
	}
	err = try(func() error {
		switch extra {
		case 1:
			dec := xmp.NewDecoder(bytes.NewReader(b))
			d := &xmp.Document{}
			if dec.Decode(d) == nil != accepted {
				return fmt.Errorf("decoder and Unmarshal disagree about whether to accept the text")
			}
			defer d.Close()
			if accepted {
				return sameListing(d, first)
			}
		case 2:
			if d, err := xmp.Read(bytes.NewReader(b)); err == nil {
				if !accepted {
					return fmt.Errorf("Read accepts what Unmarshal rejects")
				}
				d.Close()
			}
		case 3:
			if d, err := xmp.Scan(bytes.NewReader(b)); err == nil {
				if err := exercise(d); err != nil {
					return err
				}
				d.Close()
			}
			xmp.ScanPackets(&pieces{b: b, n: 7})
		}
		return nil
	})
	return
}

type pieces struct {
	b []byte
	n int
}

func (r *pieces) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(r.b) {
		n = len(r.b)
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// ---------------------------------------------------------------------------
// hostile vocabulary
// ---------------------------------------------------------------------------

var hostileValues = []string{
	"", " ", "-", "+", ".", ",", ";", ":", "/", "//", "|", "[", "]", "0", "-0", "00", "1", "-1", "1/0", "0/0", "-1/0", "1/", "/1", "1/1/1", "1/-1", "x/y", "1e999", "-1e-999", "NaN", "Inf", "-Inf", "+Inf/1",
	"9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "-9223372036854775808/-1", "9223372036854775807/9223372036854775807", "2147483648", "4294967296", "1f9223372036854775807", "256", "65536",
	"0x7fffffff", "1.7976931348623157e308", "0.00000000000000000000001", "1,2,3", "1, 2", "1;2;3", "1 2 3", "1/2 3/4", "(1)(2)", "(", ")", "()", "(255)", "(17", "(RX2)", "true", "True", "yes", "null",
	"2006", "2006-01", "2006-01-02", "2006-13-45", "2006-01-02T15:04:05.999999999999Z", "0000-00-00T00:00:00Z", "-2006-01-02", "15:04:05", "15:04:05:00", "15;04;05;29", "99:99:99:99", ":::", ";;;", "00:00:00:-1", "2006:01:02 15:04:05", "2006-00-00T10:00:00", "1504", "3112", "150405+0000", "15:04:05+99:99",
	"f1", "f", "1f", "1f2", "1f24s", "1f30000s1001", "1fs", "1f0s0", "f0s", "1f1s0", "-1f-1s-1", "1s", "s1", "24fps", "0fps", "29.97", "NTSC", "PAL", "24000/1001 fps", "maximum", "0f24", "f24,",
	"12,34.56N", "12,34,56S", "91N", "N", "12,N", ",,", "180,60.9999999E", "12.3456", "-12.34/+100", "+27.5916+086.5640+8850/", "+", "+1-", "uuid:", "xmp.iid:", ":x", "file:///%zz", "%", "http://[::1", "urn:%00",
	"/time:1f24", "/metadata", "time:", "/video;/audio", ";", "/time:1f2d3f4/content", "/x:0f0s0d0f0s0r0", "/time:##", "/content/audio/channels0", "x-default", "xml", "rdf:li", "\u0000", "\ufffd", "\U0010ffff", "🙂", "é", "日本語",
	"0,1,2,3", "1 1 2 2 1 2 2 1", "2 2 a b c d", "999999999 999999999", "-1 -1 x", "1 1", "0 0", "65535 65535 0", "2 2 =\x00AAA=", "QUJD", "====", "AAECAwQF", "1,2,255,256,-1", "#FF00FF", "rgb(1,2,3)", "{x=1}", "{\"a\":", "w,h,x,y", "0,0,0,0,0", "1.0, 2.0 3.0", "(0,0)(255,255)",
	strings.Repeat("9", 400), strings.Repeat("a/", 300), strings.Repeat(";", 500), strings.Repeat("1,", 400), "-" + strings.Repeat("0", 300) + "1", strings.Repeat("(", 300), strings.Repeat(":", 300),
}

var (
	vocabOnce  sync.Once
	vocabTop   []string // properties of models
	vocabField []string // fields of structures
	vocabNs    []string // declarations
)

func vocab() {
	vocabOnce.Do(func() {
		top, field := map[string]bool{}, map[string]bool{}
		seen := map[reflect.Type]bool{}
		var walk func(t reflect.Type, m map[string]bool)
		walk = func(t reflect.Type, m map[string]bool) {
			for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.Map {
				t = t.Elem()
			}
			if t.Kind() != reflect.Struct || seen[t] {
				return
			}
			seen[t] = true
			for i := 0; i < t.NumField(); i++ {
				if ft, ok := xmpTag(t.Field(i)); ok {
					if strings.Contains(ft.name, ":") {
						m[ft.name] = true
					}
					walk(t.Field(i).Type, field)
				}
			}
		}
		for _, p := range modelPrefixes() {
			walk(reflect.TypeOf(newModel(p)), top)
		}
		ns := map[string]bool{}
		for k := range top {
			vocabTop = append(vocabTop, k)
			ns[k[:strings.Index(k, ":")]] = true
		}
		for k := range field {
			vocabField = append(vocabField, k)
			ns[k[:strings.Index(k, ":")]] = true
		}
		for k := range ns {
			vocabNs = append(vocabNs, k)
		}
		sort.Strings(vocabTop)
		sort.Strings(vocabField)
		sort.Strings(vocabNs)
	})
}

var rdfWords = []string{"rdf:Description", "rdf:RDF", "rdf:Bag", "rdf:Seq", "rdf:Alt", "rdf:li", "rdf:value", "rdf:about", "rdf:resource", "rdf:parseType", "rdf:nodeID", "rdf:ID", "rdf:type", "rdf:_1", "rdf:datatype", "x:xmpmeta", "x:xapmeta", "x:xmptk", "xml:lang", "xml:space", "xmlns", "a:b", "a:c", "b:a", "li", "q:undeclared", "iX:changes", "xmpMM:Pantry", "xmpMM:Ingredients", "xmpTPg:Fonts", "stEvt:action", "rdf:Extra"}

// headFor declares what a text uses, in the order of first use.
func headFor(body string) string {
	vocab()
	used := map[string]bool{}
	for _, p := range vocabNs {
		if strings.Contains(body, p+":") {
			used[p] = true
		}
	}
	var b strings.Builder
	b.WriteString(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:a="http://a.com/" xmlns:b="http://b.com/"`)
	for _, p := range vocabNs {
		if ns, err := xmp.GetNamespace(p); err == nil && used[p] && p != "rdf" && p != "x" && p != "xml" {
			fmt.Fprintf(&b, " xmlns:%s=\"%s\"", p, xmlEscape(ns.GetURI()))
		}
	}
	b.WriteString(">")
	return b.String()
}

const bodyEnd = `</rdf:RDF></x:xmpmeta>`

func hostileValue(t *rapid.T, label string) string {
	v := rapid.SampledFrom(hostileValues).Draw(t, label)
	if rapid.IntRange(0, 4).Draw(t, label+".join") == 0 {
		v += rapid.SampledFrom([]string{"", " ", ",", "/", ":", ";"}).Draw(t, label+".sep") + rapid.SampledFrom(hostileValues).Draw(t, label)
	}
	return v
}

func hostileName(t *rapid.T, label string) string {
	vocab()
	switch rapid.IntRange(0, 6).Draw(t, label+".class") {
	case 0, 1, 2:
		return rapid.SampledFrom(vocabTop).Draw(t, label)
	case 3, 4:
		return rapid.SampledFrom(vocabField).Draw(t, label)
	default:
		return rapid.SampledFrom(rdfWords).Draw(t, label)
	}
}

// plainTree writes an element most of which makes sense.
func plainTree(t *rapid.T, b *strings.Builder, name string, depth int) {
	if name == "" {
		name = rapid.SampledFrom([]string{"a:b", "a:c", "b:a", "a:b", "b:list", "dc:other", "xmp:Unknown"}).Draw(t, "name")
		if rapid.IntRange(0, 11).Draw(t, "odd") == 0 {
			name = hostileName(t, "name")
		}
	}
	kind := 0
	if depth > 0 {
		kind = rapid.IntRange(0, 8).Draw(t, "kind")
	}
	kids := func(lo int, name string) {
		for i, n := 0, rapid.IntRange(lo, 3).Draw(t, "kids"); i < n; i++ {
			plainTree(t, b, name, depth-1)
		}
	}
	attr := ""
	if rapid.IntRange(0, 9).Draw(t, "lang") == 0 {
		attr = ` xml:lang="` + rapid.SampledFrom([]string{"x-default", "en", "", "x"}).Draw(t, "lang") + `"`
	}
	switch kind {
	case 1, 2, 3:
		w := rapid.SampledFrom([]string{"rdf:Bag", "rdf:Seq", "rdf:Alt"}).Draw(t, "array")
		b.WriteString("<" + name + attr + "><" + w + ">")
		kids(0, "rdf:li")
		b.WriteString("</" + w + ">")
	case 4:
		b.WriteString("<" + name + attr + ` rdf:parseType="Resource">`)
		kids(0, "")
	case 5:
		fmt.Fprintf(b, `<%s%s><rdf:Description a:x="%s">`, name, attr, xmlEscape(strings.ReplaceAll(hostileValue(t, "value"), "\x00", "?")))
		kids(0, "")
		b.WriteString("</rdf:Description>")
	case 6:
		b.WriteString("<" + name + ` rdf:parseType="Resource"><rdf:value>1</rdf:value>`)
		kids(0, "")
	case 7:
		hostileTree(t, b, rapid.IntRange(0, depth).Draw(t, "hostile depth"))
		return
	case 8:
		b.WriteString("<" + name + attr + ">")
		kids(0, "")
	default:
		b.WriteString("<" + name + attr + ">" + xmlEscape(strings.ReplaceAll(hostileValue(t, "value"), "\x00", "?")))
	}
	b.WriteString("</" + name + ">")
}

// hostileTree writes a random element.
func hostileTree(t *rapid.T, b *strings.Builder, depth int) {
	name := hostileName(t, "name")
	b.WriteString("<" + name)
	seen := map[string]bool{}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 4}).Draw(t, "attrs"); i < n; i++ {
		k := hostileName(t, "attr")
		if rapid.Bool().Draw(t, "rdf attr") {
			k = rapid.SampledFrom([]string{"xml:lang", "rdf:parseType", "rdf:about", "rdf:resource", "rdf:value", "rdf:nodeID", "xmlns:n", "xmlns:a", "rdf:ID", "rdf:datatype"}).Draw(t, "attr")
		}
		if seen[k] && i < 3 {
			continue
		}
		seen[k] = true
		v := hostileValue(t, "value")
		switch k {
		case "rdf:parseType":
			v = rapid.SampledFrom([]string{"Resource", "Literal", "Collection", "", "x"}).Draw(t, "parseType")
		case "xml:lang":
			v = rapid.SampledFrom([]string{"x-default", "en", "", "en-US", "x", "1", "de de"}).Draw(t, "lang")
		}
		fmt.Fprintf(b, ` %s="%s"`, k, xmlEscape(strings.ReplaceAll(v, "\x00", "?")))
	}
	kids := 0
	if depth > 0 {
		kids = rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3, 5}).Draw(t, "kids")
	}
	if kids == 0 && rapid.Bool().Draw(t, "empty") {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	if kids == 0 || rapid.IntRange(0, 5).Draw(t, "mixed") == 0 {
		b.WriteString(xmlEscape(strings.ReplaceAll(hostileValue(t, "text"), "\x00", "?")))
	}
	for i := 0; i < kids; i++ {
		hostileTree(t, b, depth-1)
		if rapid.IntRange(0, 9).Draw(t, "noise") == 0 {
			b.WriteString(rapid.SampledFrom([]string{"<!-- c -->", "<?pi x?>", " \n", "stray", "<![CDATA[<x>]]>", "<?xpacket end='w'?>", "<!DOCTYPE x>"}).Draw(t, "noise text"))
		}
	}
	b.WriteString("</" + name + ">")
}

func TestP01_Trees(t *testing.T) {
	rule("trees", "random element trees over the RDF vocabulary and all names of the models, with mismatched shapes, attributes anywhere and extreme values; must be read or rejected, and be usable when read, without a panic; non-trivial: distinct accepted texts")
	check(t, 14000, func(rt *rapid.T) {
		var b strings.Builder
		wrap := rapid.IntRange(0, 9).Draw(rt, "wrap") > 0
		if wrap {
			b.WriteString(`<rdf:Description rdf:about="">`)
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "tops"); i < n; i++ {
			if rapid.IntRange(0, 3).Draw(rt, "hostile") == 0 {
				hostileTree(rt, &b, rapid.IntRange(0, 4).Draw(rt, "depth"))
			} else {
				plainTree(rt, &b, "", rapid.IntRange(0, 5).Draw(rt, "depth"))
			}
		}
		if wrap {
			b.WriteString(`</rdf:Description>`)
		}
		s := headFor(b.String()) + b.String() + bodyEnd
		ok, err := readAll([]byte(s), rapid.IntRange(0, 8).Draw(rt, "entry"))
		tally("trees", s, ok, map[bool]string{true: "accepted", false: "rejected"}[ok])
		if err != nil {
			rt.Fatalf("%v\n%s", err, s)
		}
	})
}

// shape spells a property with a value in one of many ways.
var hostileShapes = []struct{ name, open, close string }{
	{"element", "<%s>", "</%s>"},
	{"lang", `<%s xml:lang="de">`, "</%s>"},
	{"bag", "<%s><rdf:Bag><rdf:li>", "</rdf:li></rdf:Bag></%s>"},
	{"seq", "<%s><rdf:Seq><rdf:li/><rdf:li>", "</rdf:li></rdf:Seq></%s>"},
	{"alt", `<%s><rdf:Alt><rdf:li xml:lang="x-default">`, `</rdf:li><rdf:li xml:lang="x-default">2</rdf:li></rdf:Alt></%s>`},
	{"alt without language", `<%s><rdf:Alt><rdf:li>`, `</rdf:li></rdf:Alt></%s>`},
	{"nested bags", "<%s><rdf:Bag><rdf:li><rdf:Seq><rdf:li>", "</rdf:li></rdf:Seq></rdf:li></rdf:Bag></%s>"},
	{"resource", `<%s rdf:parseType="Resource"><a:b>`, "</a:b></%s>"},
	{"value", `<%s rdf:parseType="Resource"><rdf:value>`, "</rdf:value><a:q>1</a:q></%s>"},
	{"description", `<%s><rdf:Description><a:b>`, "</a:b></rdf:Description></%s>"},
	{"struct list", `<%s><rdf:Seq><rdf:li rdf:parseType="Resource"><a:b>`, "</a:b></rdf:li></rdf:Seq></%s>"},
	{"two arrays", `<%s><rdf:Seq><rdf:li>`, "</rdf:li></rdf:Seq><rdf:Bag><rdf:li>1</rdf:li></rdf:Bag></%s>"},
	{"child", `<%s><a:b>`, "</a:b></%s>"},
	{"itself", `<%s><rdf:li>`, "</rdf:li></%s>"},
}

func TestP01_Values(t *testing.T) {
	rule("values", "every property of every model (and, nested in it, fields of structures) gets extreme values in every RDF shape, also as attribute and twice; must be read or rejected, and be usable when read, without a panic; non-trivial: distinct accepted texts")
	vocab()
	check(t, 27000, func(rt *rapid.T) {
		var attrs, body strings.Builder
		seen := map[string]bool{}
		for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(rt, "props"); i < n; i++ {
			name := rapid.SampledFrom(vocabTop).Draw(rt, "name")
			v := xmlEscape(strings.ReplaceAll(hostileValue(rt, "value"), "\x00", "?"))
			if rapid.IntRange(0, 3).Draw(rt, "attr") == 0 {
				if !seen[name] {
					seen[name] = true
					fmt.Fprintf(&attrs, ` %s="%s"`, name, v)
				}
				continue
			}
			if rapid.IntRange(0, 2).Draw(rt, "nested") == 0 {
				f := rapid.SampledFrom(vocabField).Draw(rt, "field")
				sh := rapid.SampledFrom(hostileShapes).Draw(rt, "field shape")
				v = fmt.Sprintf(sh.open, f) + v + fmt.Sprintf(sh.close, f)
				switch rapid.IntRange(0, 2).Draw(rt, "struct") {
				case 0:
					v = fmt.Sprintf(`<%s rdf:parseType="Resource">%s</%s>`, name, v, name)
				case 1:
					v = fmt.Sprintf(`<%s><rdf:Seq><rdf:li rdf:parseType="Resource">%s</rdf:li></rdf:Seq></%s>`, name, v, name)
				case 2:
					v = fmt.Sprintf(`<%s><rdf:Description>%s</rdf:Description></%s>`, name, v, name)
				}
				body.WriteString(v)
				continue
			}
			sh := rapid.SampledFrom(hostileShapes).Draw(rt, "shape")
			body.WriteString(fmt.Sprintf(sh.open, name) + v + fmt.Sprintf(sh.close, name))
		}
		s := `<rdf:Description rdf:about=""` + attrs.String() + `>` + body.String() + `</rdf:Description>`
		s = headFor(s) + s + bodyEnd
		ok, err := readAll([]byte(s), rapid.IntRange(0, 8).Draw(rt, "entry"))
		tally("values", s, ok, map[bool]string{true: "accepted", false: "rejected"}[ok])
		if err != nil {
			rt.Fatalf("%v\n%s", err, s)
		}
	})
}

// breakDoc changes one place of a tree of properties.
func breakDoc(t *rapid.T, l []rdfProp) string {
	// all values, in order
	var at []*rdfVal
	var walk func(v *rdfVal)
	walk = func(v *rdfVal) {
		at = append(at, v)
		for i := range v.fields {
			walk(&v.fields[i].val)
		}
		for i := range v.items {
			walk(&v.items[i])
		}
	}
	for i := range l {
		walk(&l[i].val)
	}
	if len(at) == 0 {
		return "nothing"
	}
	v := rapid.SampledFrom(at).Draw(t, "place")
	if v.kind == rSimple && rapid.IntRange(0, 3).Draw(t, "text") > 0 {
		b := []byte(v.text)
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 || len(b) == 0 {
			v.text = hostileValue(t, "value")
		} else {
			v.text = string(mutateBytes(t, b, []byte(hostileValue(t, "value")), []string{"/", ":", ",", ";", "-", "0", "1", "f", " ", "9999999999999999999", ".", "|", "(", ")"}))
		}
		if !validText(v.text) {
			v.text = "?"
		}
		return "text"
	}
	leaf := rdfVal{text: "1"}
	field := rdfProp{uri: "http://a.com/", name: "extra", val: leaf}
	if rapid.Bool().Draw(t, "model field") {
		f := strings.SplitN(rapid.SampledFrom(vocabField).Draw(t, "field"), ":", 2)
		if ns, err := xmp.GetNamespace(f[0]); err == nil {
			field.uri, field.name = ns.GetURI(), f[1]
		}
	}
	arrays := []rdfKind{rSeq, rBag, rAlt}
	switch k := rapid.IntRange(0, 6).Draw(t, "break"); k {
	case 0:
		*v = rdfVal{kind: rapid.SampledFrom(arrays).Draw(t, "array"), items: []rdfVal{*v, leaf}[rapid.IntRange(0, 1).Draw(t, "from"):]}
		return "array"
	case 1:
		*v = rdfVal{kind: rStruct, fields: []rdfProp{field}}
		return "structure"
	case 2:
		if v.kind == rStruct {
			v.fields = append(v.fields, field)
		} else {
			field.val = *v
			*v = rdfVal{kind: rStruct, fields: []rdfProp{field}}
		}
		return "field"
	case 3:
		*v = leaf
		return "value"
	case 4:
		v.lang = rapid.SampledFrom([]string{"x-default", "en", "x"}).Draw(t, "lang")
		return "language"
	case 5:
		*v = rapid.SampledFrom(at).Draw(t, "other").clone()
		return "exchange"
	default:
		if v.kind >= rSeq {
			v.kind = rapid.SampledFrom(arrays).Draw(t, "array")
			if len(v.items) > 0 && rapid.Bool().Draw(t, "more") {
				v.items = append(v.items, v.items...)
			} else {
				v.items = nil
			}
		} else {
			v.fields, v.items, v.text = nil, nil, ""
		}
		return "list"
	}
}

func TestP01_Typed(t *testing.T) {
	rule("typed", "documents of several models with valid random content, or properties of the sample documents, are changed in one to three places (an extreme or damaged value, another shape, an unexpected field, language or exchange) and spelled at random; must be read or rejected, and be usable when read, without a panic; non-trivial: distinct accepted texts")
	corpus(t)
	vocab()
	prefix := func(uri string) string {
		if p := xmp.NsRegistry.GetPrefix(uri); p != "" {
			return p
		}
		return fmt.Sprintf("ns%d", h64(uri)%1000)
	}
	check(t, 6000, func(rt *rapid.T) {
		doc := &rdfDoc{}
		if rapid.Bool().Draw(rt, "samples") {
			seen := map[string]bool{}
			for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "n"); i < n; i++ {
				p := rapid.SampledFrom(corpusPool).Draw(rt, "prop")
				if !seen[p.key()] {
					seen[p.key()] = true
					p.val = p.val.clone()
					doc.props = append(doc.props, p)
				}
			}
		} else {
			var err error
			if e := try(func() error { doc, _, err = genTypedDoc(rt); return err }); e != nil {
				rt.Fatalf("%v", e)
			}
		}
		var how []string
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "breaks"); i < n; i++ {
			how = append(how, breakDoc(rt, doc.props))
		}
		s, _ := writeRDF(rt, doc, prefix, nil)
		ok, err := readAll([]byte(s), rapid.IntRange(0, 8).Draw(rt, "entry"))
		tally("typed", s, ok, append(how, map[bool]string{true: "accepted", false: "rejected"}[ok])...)
		if err != nil {
			rt.Fatalf("%v\n%s", err, s)
		}
	})
}

var xmlTokens = []string{"<", ">", "/>", "</", "<rdf:li>", "</rdf:li>", "<rdf:Bag>", "</rdf:Bag>", "<rdf:Seq>", "<rdf:Alt>", "<rdf:Description>", "</rdf:Description>", `rdf:parseType="Resource"`, `xml:lang="x-default"`, "xmlns:dc=\"\"", "xmlns=\"x\"", "&amp;", "&", "&#0;", "&#xd800;", "&#x10ffff;", "&lol;", "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?>", "<?xpacket end='w'?>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "<?xml version='1.1'?>", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x00", "\xff", "\xc0\x80", "\"", "'", "=", ":", "::", " ", "\n", "xml:", "rdf:", "0", "-1", "99999999999999999999", "1/0", "x:xmpmeta", "rdf:RDF"}

// mutateBytes changes a text at byte level.
func mutateBytes(t *rapid.T, b []byte, other []byte, tokens []string) []byte {
	b = append([]byte{}, b...)
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "mutations"); i < n && len(b) > 0; i++ {
		at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		size := rapid.SampledFrom([]int{1, 1, 2, 5, 20, 100, 1000}).Draw(t, "size")
		end := min(at+size, len(b))
		switch rapid.IntRange(0, 8).Draw(t, "kind") {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b = append(b[:at:at], b[end:]...)
		case 2:
			b = append(b[:end:end], b[at:]...)
		case 3, 4:
			tok := rapid.SampledFrom(tokens).Draw(t, "token")
			b = append(b[:at:at], append([]byte(tok), b[at:]...)...)
		case 5:
			tok := rapid.SampledFrom(tokens).Draw(t, "token")
			b = append(b[:at:at], append([]byte(tok), b[end:]...)...)
		case 6:
			b = b[:at]
		case 7:
			if len(other) > 0 {
				k := rapid.IntRange(0, len(other)-1).Draw(t, "from")
				b = append(b[:at:at], append(append([]byte{}, other[k:min(k+size, len(other))]...), b[end:]...)...)
			}
		case 8:
			// exchange one value
			if i := bytes.IndexByte(b[at:], '>'); i >= 0 {
				s := at + i + 1
				e := bytes.IndexByte(b[s:], '<')
				if e > 0 {
					v := xmlEscape(hostileValue(t, "value"))
					b = append(b[:s:s], append([]byte(v), b[s+e:]...)...)
				}
			}
		}
	}
	return b
}

var shortCorpus = sync.OnceValue(func() (l [][]byte) {
	// each property of the samples in a document of its own, and the small samples
	for _, c := range corpusDocs {
		if len(c.text) < 6000 {
			l = append(l, c.text)
		}
	}
	return
})

func TestP01_Bytes(t *testing.T) {
	docs := corpus(t)
	small := shortCorpus()
	rule("bytes", "byte-level mutants (flipped bits, removed, repeated, spliced ranges, inserted markup tokens, truncations, exchanged values) of the sample documents and of random small documents; must be read or rejected, and be usable when read, without a panic; non-trivial: distinct mutants that get past the XML syntax, or are rejected behind the first 10%")
	check(t, 12000, func(rt *rapid.T) {
		var b []byte
		switch rapid.IntRange(0, 4).Draw(rt, "base") {
		case 0:
			b = rapid.SampledFrom(docs).Draw(rt, "sample").text
			if len(b) > 60000 {
				b = small[0]
			}
		case 1, 2:
			b = rapid.SampledFrom(small).Draw(rt, "sample")
		default:
			var w strings.Builder
			w.WriteString(`<rdf:Description rdf:about="">`)
			for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "tops"); i < n; i++ {
				hostileTree(rt, &w, rapid.IntRange(0, 3).Draw(rt, "depth"))
			}
			w.WriteString(`</rdf:Description>`)
			b = []byte(headFor(w.String()) + w.String() + bodyEnd)
		}
		b = mutateBytes(rt, b, rapid.SampledFrom(small).Draw(rt, "other"), xmlTokens)
		ok, err := readAll(b, rapid.IntRange(0, 8).Draw(rt, "entry"))
		tally("bytes", string(b), ok || len(b) > 300, map[bool]string{true: "accepted", false: "rejected"}[ok], map[bool]string{true: "", false: "not UTF-8"}[utf8.Valid(b)])
		if err != nil {
			rt.Fatalf("%v\n%q", err, b)
		}
	})
}

// TestP01_Extent: size in every direction.
func TestP01_Extent(t *testing.T) {
	rule("extent", "documents that are large in one direction: nesting depths around and far beyond any limit in every kind of nesting, many properties, items, languages, attributes, namespaces, long names and values; must be read or rejected, and be usable when read; sizes drawn, kinds enumerated; all non-trivial")
	rep := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	nest := func(open, mid, close string) func(int) string {
		return func(n int) string {
			return "<rdf:Description>" + strings.Repeat(open, n) + mid + strings.Repeat(close, n) + "</rdf:Description>"
		}
	}
	kinds := []struct {
		name string
		max  int
		f    func(n int) string
	}{
		{"nested elements", 100000, nest("<a:b>", "x", "</a:b>")},
		{"nested model properties", 100000, nest("<dc:title>", "x", "</dc:title>")},
		{"nested resources", 50000, nest(`<a:b rdf:parseType="Resource">`, "", "</a:b>")},
		{"nested descriptions", 50000, nest(`<rdf:Description>`, "", "</rdf:Description>")},
		{"nested structures", 50000, nest(`<a:b><rdf:Description a:c="1">`, "", "</rdf:Description></a:b>")},
		{"nested bags", 50000, nest(`<rdf:Bag><rdf:li>`, "x", "</rdf:li></rdf:Bag>")},
		{"nested lists of a property", 50000, func(n int) string {
			return "<rdf:Description><a:b>" + strings.Repeat("<rdf:Seq><rdf:li>", n) + "x" + strings.Repeat("</rdf:li></rdf:Seq>", n) + "</a:b></rdf:Description>"
		}},
		{"nested lists of a model property", 50000, func(n int) string {
			return "<rdf:Description><dc:subject>" + strings.Repeat("<rdf:Bag><rdf:li>", n) + "x" + strings.Repeat("</rdf:li></rdf:Bag>", n) + "</dc:subject></rdf:Description>"
		}},
		{"nested items", 50000, nest("<rdf:li>", "x", "</rdf:li>")},
		{"nested pantry", 5000, func(n int) string {
			return "<rdf:Description>" + strings.Repeat(`<xmpMM:Pantry><rdf:Bag><rdf:li rdf:parseType="Resource"><dc:format>x</dc:format>`, n) + strings.Repeat("</rdf:li></rdf:Bag></xmpMM:Pantry>", n) + "</rdf:Description>"
		}},
		{"nested ingredients", 5000, func(n int) string {
			return "<rdf:Description>" + strings.Repeat(`<xmpMM:Ingredients><rdf:Bag><rdf:li stRef:partMapping="x">`, n) + strings.Repeat("</rdf:li></rdf:Bag></xmpMM:Ingredients>", n) + "</rdf:Description>"
		}},
		{"wrappers", 5000, func(n int) string {
			return strings.Repeat("<x:xmpmeta><rdf:RDF>", n) + strings.Repeat("</rdf:RDF></x:xmpmeta>", n)
		}},
		{"open elements", 100000, func(n int) string { return strings.Repeat("<a:b>", n) }},
		{"closing elements", 100000, func(n int) string { return strings.Repeat("</a:b>", n) }},
		{"unknown properties", 3000, func(n int) string {
			return "<rdf:Description>" + rep(n, func(i int) string { return fmt.Sprintf("<a:p%d>%d</a:p%d>", i, i, i) }) + "</rdf:Description>"
		}},
		{"descriptions", 5000, func(n int) string {
			return rep(n, func(i int) string { return fmt.Sprintf(`<rdf:Description dc:format="%d"/>`, i) })
		}},
		{"items", 20000, func(n int) string {
			return "<rdf:Description><dc:subject><rdf:Bag>" + rep(n, func(i int) string { return "<rdf:li>x</rdf:li>" }) + "</rdf:Bag></dc:subject></rdf:Description>"
		}},
		{"languages", 3000, func(n int) string {
			return "<rdf:Description><dc:title><rdf:Alt>" + rep(n, func(i int) string { return fmt.Sprintf(`<rdf:li xml:lang="l%d">x</rdf:li>`, i%999) }) + "</rdf:Alt></dc:title></rdf:Description>"
		}},
		{"attributes", 2000, func(n int) string {
			return "<rdf:Description " + rep(n, func(i int) string { return fmt.Sprintf(`a:p%d="1" `, i) }) + "/>"
		}},
		{"namespaces", 1000, func(n int) string {
			return "<rdf:Description " + rep(n, func(i int) string { return fmt.Sprintf(`xmlns:p%d="http://p%d/" p%d:v="1" `, i, i, i) }) + "/>"
		}},
		{"redeclarations", 4000, func(n int) string {
			return rep(n, func(i int) string { return fmt.Sprintf(`<rdf:Description xmlns:p="http://p%d/" p:v="1"/>`, i) })
		}},
		{"long name", 200000, func(n int) string {
			s := strings.Repeat("n", n)
			return "<rdf:Description><a:" + s + ">x</a:" + s + "></rdf:Description>"
		}},
		{"long value", 1000000, func(n int) string { return `<rdf:Description dc:format="` + strings.Repeat("v", n) + `"/>` }},
		{"long list value", 100000, func(n int) string {
			return `<rdf:Description exif:ISOSpeedRatings="` + strings.Repeat("1,", n) + `" xmpDM:startTimecode="` + strings.Repeat("1:", n) + `"/>`
		}},
		{"long number", 100000, func(n int) string {
			return `<rdf:Description tiff:ImageWidth="` + strings.Repeat("9", n) + `" exif:FNumber="` + strings.Repeat("9", n) + "/" + strings.Repeat("9", n) + `" exif:GPSLatitude="` + strings.Repeat("9", n) + `,1N"/>`
		}},
		{"comments", 20000, func(n int) string { return strings.Repeat("<!-- x --><?pi?>", n) }},
		{"mixed text", 20000, func(n int) string {
			return "<rdf:Description><a:b>" + strings.Repeat("t<a:c/>", n) + "</a:b></rdf:Description>"
		}},
	}
	check(t, 220, func(rt *rapid.T) {
		k := rapid.SampledFrom(kinds).Draw(rt, "kind")
		n := rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(30, 140), rapid.IntRange(1, k.max), rapid.Just(k.max)).Draw(rt, "n")
		if rapid.IntRange(0, 3).Draw(rt, "scaled") > 0 && n > 3000 {
			n = n % 3000
		}
		body := k.f(n)
		s := headFor(body[:min(len(body), 2000)]) + body + bodyEnd
		ok, err := readAll([]byte(s), rapid.IntRange(0, 8).Draw(rt, "entry"))
		tally("extent", fmt.Sprint(k.name, " ", n), true, k.name+map[bool]string{true: " accepted", false: " rejected"}[ok])
		if err != nil {
			rt.Fatalf("%s %d: %v", k.name, n, err)
		}
	})
}
