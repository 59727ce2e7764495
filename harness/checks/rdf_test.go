package checks

import (
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// A reference implementation of the RDF subset XMP uses: an abstract property
// tree, a reader for RDF/XML that is independent of the library, and a writer
// that picks one of the equivalent spellings at random.

const (
	rdfURI = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	xmlURI = "http://www.w3.org/XML/1998/namespace"
	xURI   = "adobe:ns:meta/"
)

type rdfKind int

const (
	rSimple rdfKind = iota
	rStruct
	rSeq
	rBag
	rAlt
)

var kindName = []string{"simple", "struct", "Seq", "Bag", "Alt"}

type rdfVal struct {
	kind   rdfKind
	text   string
	lang   string
	isURI  bool
	fields []rdfProp
	items  []rdfVal
}

type rdfProp struct {
	uri, name string
	val       rdfVal
}

// clone copies a value deeply.
func (v rdfVal) clone() rdfVal {
	v.fields = append([]rdfProp(nil), v.fields...)
	for i := range v.fields {
		v.fields[i].val = v.fields[i].val.clone()
	}
	v.items = append([]rdfVal(nil), v.items...)
	for i := range v.items {
		v.items[i] = v.items[i].clone()
	}
	return v
}

func (p rdfProp) key() string { return "{" + p.uri + "}" + p.name }

// ---------------------------------------------------------------------------
// canonical form
// ---------------------------------------------------------------------------

// rdfCanon flattens properties: one entry per node of the tree.
func rdfCanon(l []rdfProp) map[string]string {
	m := map[string]string{}
	for _, p := range l {
		k := p.key()
		for m[k] != "" {
			k += "#again"
		}
		p.val.canon(k, m)
	}
	return m
}

func (v rdfVal) canon(key string, m map[string]string) {
	lang := ""
	if v.lang != "" {
		lang = "@" + v.lang
	}
	switch v.kind {
	case rSimple:
		uri := ""
		if v.isURI {
			uri = "^uri"
		}
		m[key] = "=" + v.text + uri + lang
	case rStruct:
		m[key] = "struct" + lang
		for _, f := range v.fields {
			k := key + "/" + f.key()
			for m[k] != "" {
				k += "#again"
			}
			f.val.canon(k, m)
		}
	case rAlt:
		m[key] = fmt.Sprintf("Alt %d%s", len(v.items), lang)
		for i, it := range v.items {
			k := key + "[" + strconv.Itoa(i) + "]"
			if it.kind == rSimple && it.lang != "" {
				k = key + "[" + it.lang + "]"
				for m[k] != "" {
					k += "#again"
				}
				it.lang = ""
			}
			it.canon(k, m)
		}
	default:
		m[key] = fmt.Sprintf("%s %d%s", kindName[v.kind], len(v.items), lang)
		for i, it := range v.items {
			it.canon(key+"["+strconv.Itoa(i)+"]", m)
		}
	}
}

// ---------------------------------------------------------------------------
// reader
// ---------------------------------------------------------------------------

type xnode struct {
	name  xml.Name
	attr  []xml.Attr
	text  string
	nodes []*xnode
}

func xmlTree(d *xml.Decoder, start xml.StartElement) (*xnode, error) {
	n := &xnode{name: start.Name}
	for _, a := range start.Attr {
		if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
			continue
		}
		n.attr = append(n.attr, a)
	}
	for {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.CharData:
			n.text += string(t)
		case xml.StartElement:
			c, err := xmlTree(d, t)
			if err != nil {
				return nil, err
			}
			n.nodes = append(n.nodes, c)
		case xml.EndElement:
			n.text = strings.TrimSpace(n.text)
			return n, nil
		}
	}
}

type rdfDoc struct {
	about   string
	toolkit string
	props   []rdfProp
	nDesc   int
}

// parseRDF reads the first element of an XML text, which must be x:xmpmeta or
// rdf:RDF.
func parseRDF(text []byte) (*rdfDoc, error) {
	d := xml.NewDecoder(strings.NewReader(string(text)))
	var root *xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		if s, ok := t.(xml.StartElement); ok {
			if root != nil {
				return nil, fmt.Errorf("more than one root element")
			}
			if root, err = xmlTree(d, s); err != nil {
				return nil, err
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	doc := &rdfDoc{}
	if root.name == (xml.Name{Space: xURI, Local: "xmpmeta"}) {
		for _, a := range root.attr {
			if a.Name.Local == "xmptk" {
				doc.toolkit = a.Value
			}
		}
		if len(root.nodes) != 1 {
			return nil, fmt.Errorf("x:xmpmeta with %d children", len(root.nodes))
		}
		root = root.nodes[0]
	}
	if root.name != (xml.Name{Space: rdfURI, Local: "RDF"}) {
		return nil, fmt.Errorf("no rdf:RDF but %v", root.name)
	}
	for i, desc := range root.nodes {
		if desc.name != (xml.Name{Space: rdfURI, Local: "Description"}) {
			return nil, fmt.Errorf("top-level element %v", desc.name)
		}
		doc.nDesc++
		about := ""
		for _, a := range desc.attr {
			if a.Name == (xml.Name{Space: rdfURI, Local: "about"}) || a.Name == (xml.Name{Local: "about"}) {
				about = a.Value
			}
		}
		if i == 0 {
			doc.about = about
		} else if doc.about != about {
			return nil, fmt.Errorf("descriptions about %q and %q", doc.about, about)
		}
		fields, err := rdfFields(desc)
		if err != nil {
			return nil, err
		}
		doc.props = append(doc.props, fields...)
	}
	return doc, nil
}

func isPropAttr(a xml.Attr) bool {
	if a.Name == (xml.Name{Space: rdfURI, Local: "type"}) {
		return true
	}
	return a.Name.Space != "" && a.Name.Space != rdfURI && a.Name.Space != xmlURI
}

// rdfFields reads the properties of a description or resource.
func rdfFields(n *xnode) ([]rdfProp, error) {
	var l []rdfProp
	for _, a := range n.attr {
		if isPropAttr(a) {
			l = append(l, rdfProp{a.Name.Space, a.Name.Local, rdfVal{text: strings.TrimSpace(a.Value)}})
		} else if a.Name.Space == "" && a.Name.Local != "about" {
			return nil, fmt.Errorf("attribute without namespace: %s", a.Name.Local)
		}
	}
	for _, c := range n.nodes {
		if c.name.Space == "" {
			return nil, fmt.Errorf("element without namespace: %s", c.name.Local)
		}
		v, err := rdfValue(c)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", c.name.Local, err)
		}
		l = append(l, rdfProp{c.name.Space, c.name.Local, v})
	}
	return l, nil
}

// rdfValue reads the value of a property element or of rdf:li.
func rdfValue(n *xnode) (v rdfVal, err error) {
	parse := ""
	props := 0
	for _, a := range n.attr {
		switch {
		case a.Name == (xml.Name{Space: xmlURI, Local: "lang"}):
			v.lang = a.Value
		case a.Name == (xml.Name{Space: rdfURI, Local: "parseType"}):
			parse = a.Value
		case a.Name == (xml.Name{Space: rdfURI, Local: "resource"}):
			v.isURI = true
			v.text = a.Value
		case isPropAttr(a):
			props++
		default:
			return v, fmt.Errorf("unexpected attribute %v", a.Name)
		}
	}
	switch {
	case parse == "Resource":
		if n.text != "" {
			return v, fmt.Errorf("text %q in a resource", n.text)
		}
		if props > 0 {
			return v, fmt.Errorf("property attributes beside parseType")
		}
		v.kind = rStruct
		v.fields, err = rdfFields(n)
		return
	case parse != "":
		return v, fmt.Errorf("parseType %q", parse)
	case len(n.nodes) == 0 && props > 0:
		if n.text != "" {
			return v, fmt.Errorf("property attributes on text %q", n.text)
		}
		v.kind = rStruct
		v.fields, err = rdfFields(n)
		return
	case len(n.nodes) == 0:
		if !v.isURI {
			v.text = n.text
		}
		return
	case len(n.nodes) > 1:
		return v, fmt.Errorf("%d elements in a property that is no resource", len(n.nodes))
	case n.text != "":
		return v, fmt.Errorf("text %q beside an element", n.text)
	case props > 0:
		return v, fmt.Errorf("property attributes beside an element")
	}
	c := n.nodes[0]
	if c.name.Space != rdfURI {
		return v, fmt.Errorf("typed node or field %v outside of a resource", c.name)
	}
	switch c.name.Local {
	case "Description":
		v.kind = rStruct
		v.fields, err = rdfFields(c)
		return
	case "Seq":
		v.kind = rSeq
	case "Bag":
		v.kind = rBag
	case "Alt":
		v.kind = rAlt
	default:
		return v, fmt.Errorf("element %v", c.name)
	}
	for _, li := range c.nodes {
		if li.name != (xml.Name{Space: rdfURI, Local: "li"}) {
			return v, fmt.Errorf("array element %v", li.name)
		}
		it, err := rdfValue(li)
		if err != nil {
			return v, err
		}
		v.items = append(v.items, it)
	}
	return
}

// ---------------------------------------------------------------------------
// writer
// ---------------------------------------------------------------------------

type rdfStyle struct {
	t        *rapid.T
	prefixes map[string]string
	b        strings.Builder
	indent   bool
	noise    bool // comments, processing instructions
	localNs  bool // declare namespaces where they are used
	used     []string
	noAttr   func(p rdfProp) bool
	features map[string]bool
}

func (s *rdfStyle) flip(l string) bool { return rapid.Bool().Draw(s.t, l) }

func (s *rdfStyle) mark(f string) { s.features[f] = true }

func (s *rdfStyle) gap(depth int) {
	if s.indent {
		s.b.WriteString("\n" + strings.Repeat(" ", depth))
	}
	if s.noise && rapid.IntRange(0, 9).Draw(s.t, "noise") == 0 {
		s.mark("comments")
		s.b.WriteString(rapid.SampledFrom([]string{"<!-- a <comment> & more -->", "<?pi some=\"data\"?>", "<!---->", "\r\n\t "}).Draw(s.t, "noise.kind"))
	}
}

func (s *rdfStyle) attr(name, value string) {
	q := `"`
	if s.flip("quote") {
		q = "'"
	}
	s.b.WriteString(" " + name + "=" + q + xmlEscape(value) + q)
}

func (s *rdfStyle) qname(uri, name string) string { return s.prefixes[uri] + ":" + name }

func (s *rdfStyle) decl(uris map[string]bool) {
	var l []string
	for u := range uris {
		l = append(l, u)
	}
	sort.Strings(l)
	for _, u := range l {
		s.attr("xmlns:"+s.prefixes[u], u)
	}
}

func (s *rdfStyle) text(v string) {
	if s.noise && len(v) > 0 && rapid.IntRange(0, 9).Draw(s.t, "split") == 0 {
		// text split by a comment or a CDATA section
		i := rapid.IntRange(0, len([]rune(v))).Draw(s.t, "split.at")
		a, b := string([]rune(v)[:i]), string([]rune(v)[i:])
		switch rapid.IntRange(0, 2).Draw(s.t, "split.kind") {
		case 0:
			s.mark("comment in text")
			s.b.WriteString(xmlEscape(a) + "<!-- c -->" + xmlEscape(b))
			return
		case 1:
			if !strings.Contains(b, "]]>") && !strings.Contains(b, "\r") {
				s.mark("CDATA")
				s.b.WriteString(xmlEscape(a) + "<![CDATA[" + b + "]]>")
				return
			}
		default:
			s.mark("PI in text")
			s.b.WriteString(xmlEscape(a) + "<?x y?>" + xmlEscape(b))
			return
		}
	}
	s.b.WriteString(xmlEscape(v))
}

func attrable(l []rdfProp, p rdfProp) bool {
	if p.val.kind != rSimple || p.val.lang != "" || p.val.isURI {
		return false
	}
	n := 0
	for _, v := range l {
		if v.key() == p.key() {
			n++
		}
	}
	return n == 1
}

// element writes one property element or rdf:li.
func (s *rdfStyle) element(qn string, v rdfVal, uri string, depth int) {
	s.gap(depth)
	s.b.WriteString("<" + qn)
	if s.localNs && uri != "" {
		s.mark("local namespaces")
		s.decl(map[string]bool{uri: true})
	}
	if v.lang != "" {
		s.attr(s.prefixes[xmlURI]+":lang", v.lang)
	}
	rdf := s.prefixes[rdfURI]
	switch v.kind {
	case rSimple:
		if v.isURI {
			s.attr(rdf+":resource", v.text)
			s.b.WriteString("/>")
			return
		}
		s.b.WriteString(">")
		s.text(v.text)
		s.b.WriteString("</" + qn + ">")
	case rStruct:
		all := len(v.fields) > 0
		for _, f := range v.fields {
			all = all && attrable(v.fields, f) && !s.noAttrField(f)
		}
		style := rapid.IntRange(0, 2).Draw(s.t, "struct")
		if style == 2 && (!all || s.localNs) {
			style = rapid.IntRange(0, 1).Draw(s.t, "struct2")
		}
		switch style {
		case 0:
			s.mark("parseType Resource")
			s.attr(rdf+":parseType", "Resource")
			s.b.WriteString(">")
			for _, f := range s.shuffle(v.fields) {
				s.element(s.qname(f.uri, f.name), f.val, f.uri, depth+1)
			}
			s.gap(depth)
			s.b.WriteString("</" + qn + ">")
		case 1:
			s.mark("nested Description")
			s.b.WriteString(">")
			s.description(v.fields, "", false, depth+1)
			s.gap(depth)
			s.b.WriteString("</" + qn + ">")
		default:
			s.mark("property attributes")
			for _, f := range s.shuffle(v.fields) {
				s.attr(s.qname(f.uri, f.name), f.val.text)
			}
			if s.flip("empty") {
				s.b.WriteString("/>")
			} else {
				s.b.WriteString("></" + qn + ">")
			}
		}
	default:
		s.b.WriteString(">")
		s.gap(depth + 1)
		arr := rdf + ":" + kindName[v.kind]
		s.b.WriteString("<" + arr + ">")
		for _, it := range v.items {
			s.element(rdf+":li", it, "", depth+2)
		}
		s.gap(depth + 1)
		s.b.WriteString("</" + arr + ">")
		s.gap(depth)
		s.b.WriteString("</" + qn + ">")
	}
}

func (s *rdfStyle) noAttrField(p rdfProp) bool { return s.noAttr != nil && s.noAttr(p) }

func (s *rdfStyle) shuffle(l []rdfProp) []rdfProp {
	if len(l) < 2 {
		return l
	}
	return rapid.Permutation(l).Draw(s.t, "order")
}

func rdfURIs(l []rdfProp, m map[string]bool) {
	for _, p := range l {
		m[p.uri] = true
		rdfValURIs(p.val, m)
	}
}

func rdfValURIs(v rdfVal, m map[string]bool) {
	rdfURIs(v.fields, m)
	for _, it := range v.items {
		rdfValURIs(it, m)
	}
}

// description writes rdf:Description with the properties as attributes or
// elements.
func (s *rdfStyle) description(l []rdfProp, about string, top bool, depth int) {
	rdf := s.prefixes[rdfURI]
	s.gap(depth)
	s.b.WriteString("<" + rdf + ":Description")
	if top {
		if !s.localNs {
			uris := map[string]bool{}
			rdfURIs(l, uris)
			s.decl(uris)
		}
		s.attr(rdf+":about", about)
	}
	l = s.shuffle(l)
	var elems []rdfProp
	attrs := map[string]bool{}
	mode := rapid.IntRange(0, 2).Draw(s.t, "attrs")
	for _, p := range l {
		if attrable(l, p) && !s.noAttrField(p) && (mode == 1 || mode == 2 && s.flip("attr")) {
			s.mark("attribute")
			if s.localNs {
				if !attrs[p.uri] {
					attrs[p.uri] = true
					s.decl(map[string]bool{p.uri: true})
				}
			}
			s.attr(s.qname(p.uri, p.name), p.val.text)
		} else {
			s.mark("element")
			elems = append(elems, p)
		}
	}
	if len(elems) == 0 && s.flip("empty") {
		s.b.WriteString("/>")
		return
	}
	s.b.WriteString(">")
	for _, p := range elems {
		s.element(s.qname(p.uri, p.name), p.val, p.uri, depth+1)
	}
	s.gap(depth)
	s.b.WriteString("</" + rdf + ":Description>")
}

// stdPrefixes maps URIs to their usual prefixes.
var stdPrefixes = map[string]string{rdfURI: "rdf", xmlURI: "xml", xURI: "x"}

// writeRDF writes the properties in a random spelling. It returns the text and
// the features of the spelling.
func writeRDF(t *rapid.T, doc *rdfDoc, prefixOf func(uri string) string, noAttr func(rdfProp) bool) (string, []string) {
	s := &rdfStyle{t: t, prefixes: map[string]string{}, features: map[string]bool{}, noAttr: noAttr}
	s.indent = s.flip("indent")
	s.noise = s.flip("noisy")
	s.localNs = rapid.IntRange(0, 4).Draw(t, "nsplace") == 0
	rename := rapid.IntRange(0, 2).Draw(t, "rename") == 0
	uris := map[string]bool{}
	rdfURIs(doc.props, uris)
	var all []string
	for u := range uris {
		all = append(all, u)
	}
	sort.Strings(all)
	s.prefixes[xmlURI] = "xml"
	taken := map[string]bool{"xml": true}
	pick := func(uri, std string) {
		p := std
		if rename && s.flip("rename.this") {
			s.mark("renamed prefixes")
			p = rapid.SampledFrom([]string{"a", "b", "dc", "xap", "q1", "exif", "ns0", "rdf", "my", "x"}).Draw(t, "prefix")
		}
		for taken[p] {
			p += "_"
		}
		taken[p] = true
		s.prefixes[uri] = p
	}
	pick(rdfURI, "rdf")
	pick(xURI, "x")
	for _, u := range all {
		pick(u, prefixOf(u))
	}

	// split into descriptions
	parts := [][]rdfProp{doc.props}
	if len(doc.props) > 1 && s.flip("split") {
		n := rapid.IntRange(2, 4).Draw(t, "parts")
		parts = make([][]rdfProp, n)
		for _, p := range doc.props {
			i := rapid.IntRange(0, n-1).Draw(t, "part")
			parts[i] = append(parts[i], p)
		}
		s.mark("split descriptions")
	}
	wrap := rapid.IntRange(0, 2).Draw(t, "wrap")
	if wrap == 2 {
		s.mark("packet")
		s.b.WriteString("<?xpacket begin=\"\ufeff\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n")
	} else if rapid.IntRange(0, 4).Draw(t, "xmldecl") == 0 {
		s.mark("xml declaration")
		s.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")
	}
	if wrap > 0 {
		s.gap(0)
		s.b.WriteString("<" + s.prefixes[xURI] + ":xmpmeta")
		s.attr("xmlns:"+s.prefixes[xURI], xURI)
		s.attr(s.prefixes[xURI]+":xmptk", "Test Toolkit 1.0")
		s.b.WriteString(">")
	} else {
		s.mark("no xmpmeta")
	}
	s.gap(1)
	s.b.WriteString("<" + s.prefixes[rdfURI] + ":RDF")
	s.attr("xmlns:"+s.prefixes[rdfURI], rdfURI)
	if !s.localNs && s.flip("nsroot") {
		s.mark("namespaces on rdf:RDF")
		s.decl(uris)
	}
	s.b.WriteString(">")
	for _, p := range parts {
		s.description(p, doc.about, true, 2)
	}
	s.gap(1)
	s.b.WriteString("</" + s.prefixes[rdfURI] + ":RDF>")
	if wrap > 0 {
		s.gap(0)
		s.b.WriteString("</" + s.prefixes[xURI] + ":xmpmeta>")
	}
	if wrap == 2 {
		s.b.WriteString("\n     \n<?xpacket end=\"w\"?>")
	}
	var fl []string
	for f := range s.features {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	return s.b.String(), fl
}

// ---------------------------------------------------------------------------
// generator for unknown properties
// ---------------------------------------------------------------------------

type rdfNs struct{ prefix, uri string }

var unknownNs = []rdfNs{
	{"my", "http://ns.example.com/my/1.0/"},
	{"acme", "urn:acme:schema#"},
	{"z", "http://z.example.org/"},
	{"custom-1", "http://ns.example.com/custom?a=b&c=d"},
}

// knownUnknownNs are namespaces with a model; the names drawn for them do not
// exist in the model.
var knownUnknownNs = []rdfNs{
	{"dc", "http://purl.org/dc/elements/1.1/"},
	{"xmp", "http://ns.adobe.com/xap/1.0/"},
	{"photoshop", "http://ns.adobe.com/photoshop/1.0/"},
	{"tiff", "http://ns.adobe.com/tiff/1.0/"},
}

var rdfNames = []string{"alpha", "beta", "gamma", "Delta", "e1", "f-2", "g_h", "lang2", "title9", "type9", "Seq9", "x"}

var rdfLangs = []string{"x-default", "en", "en-US", "de", "fr", "zh-Hans"}

func genRdfValue(t *rapid.T, nss []rdfNs, depth int, label string) rdfVal {
	k := rapid.IntRange(0, 9).Draw(t, label+".kind")
	if depth <= 0 && k > 3 {
		k = 0
	}
	switch {
	case k < 4:
		v := rdfVal{text: genText(t, label)}
		switch rapid.IntRange(0, 11).Draw(t, label+".q") {
		case 0:
			v.lang = rapid.SampledFrom(rdfLangs[1:]).Draw(t, label+".lang")
		case 1:
			v.isURI, v.text = true, genRef(t, label)
		}
		return v
	case k < 6:
		return rdfVal{kind: rStruct, fields: genRdfProps(t, nss, depth-1, 1, 4, label+".f")}
	case k < 8:
		v := rdfVal{kind: rSeq}
		if k == 7 {
			v.kind = rBag
		}
		n := rapid.IntRange(1, 4).Draw(t, label+".n")
		items := 2
		if depth > 1 {
			items = rapid.IntRange(0, 5).Draw(t, label+".items")
		}
		for i := 0; i < n; i++ {
			if items == 1 {
				v.items = append(v.items, genRdfArray(t, label+".l"))
			} else if items == 0 {
				v.items = append(v.items, rdfVal{kind: rStruct, fields: genRdfProps(t, nss, depth-2, 1, 3, label+".i")})
			} else {
				it := rdfVal{text: genText(t, label+".i")}
				if rapid.IntRange(0, 11).Draw(t, label+".iq") == 0 {
					it.isURI, it.text = true, genRef(t, label)
				}
				v.items = append(v.items, it)
			}
		}
		return v
	default:
		v := rdfVal{kind: rAlt}
		n := rapid.IntRange(1, 4).Draw(t, label+".n")
		langs := rapid.Permutation(rdfLangs).Draw(t, label+".langs")
		for i := 0; i < n; i++ {
			v.items = append(v.items, rdfVal{text: genText(t, label+".a"), lang: langs[i]})
		}
		return v
	}
}

// genRef draws the text of an rdf:resource.
func genRef(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"http://example.com/", "uuid:", "urn:x:", "", "mailto:"}).Draw(t, label+".scheme") +
		rapid.StringMatching(`[a-z0-9/?&="'<>;.,#%äю-]{1,12}`).Draw(t, label+".ref")
}

// genRdfArray draws an item of a list that is itself a list of simple values.
func genRdfArray(t *rapid.T, label string) rdfVal {
	v := rdfVal{kind: rapid.SampledFrom([]rdfKind{rSeq, rBag, rAlt}).Draw(t, label+".kind")}
	langs := rapid.Permutation(rdfLangs).Draw(t, label+".langs")
	for i := rapid.IntRange(0, 2).Draw(t, label+".n"); i >= 0; i-- {
		it := rdfVal{text: genText(t, label)}
		if v.kind == rAlt {
			it.lang = langs[i]
		}
		v.items = append(v.items, it)
	}
	return v
}

func genRdfProps(t *rapid.T, nss []rdfNs, depth, min, max int, label string) []rdfProp {
	n := rapid.IntRange(min, max).Draw(t, label+".n")
	seen := map[string]bool{}
	var l []rdfProp
	for i := 0; i < n; i++ {
		ns := nss[0]
		if rapid.IntRange(0, 2).Draw(t, label+".ns") == 0 {
			ns = rapid.SampledFrom(nss).Draw(t, label+".nsx")
		}
		p := rdfProp{uri: ns.uri, name: rapid.SampledFrom(rdfNames).Draw(t, label+".name")}
		if seen[p.key()] {
			continue
		}
		seen[p.key()] = true
		p.val = genRdfValue(t, nss, depth, label)
		l = append(l, p)
	}
	return l
}

func genAbout(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "uuid:12345678-1234-1234-1234-123456789abc", "http://example.com/a?b&c"}).Draw(t, "about")
}

// rdfPaths returns the path listing the properties must have: prefixOf gives
// the library's prefix of a namespace.
func rdfPaths(l []rdfProp, prefixOf func(string) string) map[string]string {
	m := map[string]string{}
	for _, p := range l {
		root := prefixOf(p.uri)
		p.val.paths(root+":"+p.name, root, root, prefixOf, m)
	}
	return m
}

func (v rdfVal) paths(path, root, last string, prefixOf func(string) string, m map[string]string) {
	open := ""
	if strings.HasSuffix(path, "]") {
		open = "/" // an item of an item
	}
	switch v.kind {
	case rSimple:
		if v.text == "" {
			return
		}
		if v.isURI {
			path += "/rdf:resource"
		}
		m[path] = v.text
	case rStruct:
		for _, f := range v.fields {
			name := f.name
			p := prefixOf(f.uri)
			now := last
			if p != root || last != root {
				// a name without prefix belongs to the namespace of the last
				// segment that has one
				name = p + ":" + f.name
				now = p
			}
			f.val.paths(path+"/"+name, root, now, prefixOf, m)
		}
	case rAlt:
		for i, it := range v.items {
			if it.kind == rSimple {
				lang := it.lang
				if lang == "" {
					lang = "x-default"
				}
				m[path+open+"["+lang+"]"] = it.text
			} else {
				it.paths(path+open+"["+strconv.Itoa(i)+"]", root, last, prefixOf, m)
			}
		}
	default:
		for i, it := range v.items {
			it.paths(path+open+"["+strconv.Itoa(i)+"]", root, last, prefixOf, m)
		}
	}
}
