package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

func repoDir() string {
	if s := os.Getenv("VERIF_REPO"); s != "" {
		return s
	}
	return "/repo"
}

// corpus is the set of XMP documents that come with the repository.
type corpusDoc struct {
	name string
	text []byte
	doc  *rdfDoc
}

var (
	corpusOnce sync.Once
	corpusDocs []corpusDoc
	corpusPool []rdfProp // every top-level property of the corpus, once per name and shape
)

func corpus(t interface{ Fatalf(string, ...interface{}) }) []corpusDoc {
	corpusOnce.Do(func() {
		l, _ := filepath.Glob(repoDir() + "/samples/*.xmp")
		sort.Strings(l)
		seen := map[string]int{}
		for _, f := range l {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			doc, err := parseRDF(b)
			if err != nil {
				continue
			}
			corpusDocs = append(corpusDocs, corpusDoc{filepath.Base(f), b, doc})
			for _, p := range doc.props {
				k := p.key() + kindName[p.val.kind]
				if seen[k] < 4 && treeSize(p.val) < 60 {
					seen[k]++
					corpusPool = append(corpusPool, p)
				}
			}
		}
	})
	if len(corpusDocs) == 0 {
		t.Fatalf("no sample documents found in %s", repoDir())
	}
	return corpusDocs
}

func treeSize(v rdfVal) int {
	n := 1
	for _, f := range v.fields {
		n += treeSize(f.val)
	}
	for _, it := range v.items {
		n += treeSize(it)
	}
	return n
}

// knownField describes a property some registered model has.
type knownField struct {
	omit, sync, date bool
	typ              reflect.Type
}

var knownFields = func() map[string]knownField {
	m := map[string]knownField{}
	for _, p := range modelPrefixes() {
		typ := reflect.TypeOf(newModel(p)).Elem()
		for i := 0; i < typ.NumField(); i++ {
			ft, ok := xmpTag(typ.Field(i))
			if !ok {
				continue
			}
			j := strings.IndexByte(ft.name, ':')
			if j < 0 {
				continue
			}
			ns, err := xmp.GetNamespace(ft.name[:j])
			if err != nil {
				continue
			}
			k := "{" + ns.GetURI() + "}" + ft.name[j+1:]
			f := m[k]
			f.omit = f.omit || ft.omit
			f.typ = typ.Field(i).Type
			f.sync = f.sync || syncing[ft.name[:j]] || syncTarget[ft.name[:j]]
			m[k] = f
		}
	}
	return m
}()

// sameLeaf tells whether two property values are the same value in different
// spellings: numbers, booleans and points in time may be normalised.
func sameLeaf(a, b string) bool {
	if a == b || strings.EqualFold(a, b) || isZeroLeaf(a) && isZeroLeaf(b) {
		return true
	}
	// frame counts and rates with or without unit, numbers with leading zeros
	if strings.HasPrefix(b, a+"f") || a == b+"i" || a == b+" fps" || leadingZeros.ReplaceAllString(a, "$1$2") == leadingZeros.ReplaceAllString(b, "$1$2") {
		return true
	}
	if partList(a) == partList(b) {
		return true
	}
	if strings.Contains(a, "-00-00T") { // a time without date
		return strings.HasSuffix(b, a[strings.Index(a, "T"):])
	}
	if x, ok := leafNumber(a); ok {
		if y, ok := leafNumber(b); ok {
			// decimals are read as exposure times 1/n where that is close
			if strings.HasPrefix(b, "1/") && strings.Contains(a, ".") && math.Abs(x-y) <= 0.006*x {
				return true
			}
			return x == y || math.Abs(x-y) <= 1e-6*math.Max(1, math.Max(math.Abs(x), math.Abs(y)))
		}
	}
	if x, ok := leafTime(a); ok {
		if y, ok := leafTime(b); ok {
			return x.Equal(y)
		}
	}
	return false
}

// partList spells a list of parts with a slash before each path.
func partList(s string) string {
	l := strings.Split(s, ";")
	for i, v := range l {
		if !strings.HasPrefix(v, "/") {
			l[i] = "/" + v
		}
	}
	return strings.Join(l, ";")
}

var leadingZeros = regexp.MustCompile(`(^|[^0-9.])0+([0-9])`)

func leafNumber(s string) (float64, bool) {
	if i := strings.IndexByte(s, '/'); i > 0 {
		x, err1 := strconv.ParseFloat(strings.TrimSpace(s[:i]), 64)
		y, err2 := strconv.ParseFloat(strings.TrimSpace(s[i+1:]), 64)
		if err1 == nil && err2 == nil && y != 0 {
			return x / y, true
		}
		return 0, false
	}
	x, err := strconv.ParseFloat(s, 64)
	return x, err == nil && !math.IsNaN(x)
}

func leafTime(s string) (time.Time, bool) {
	for _, l := range []string{time.RFC3339Nano, "2006-01-02T15:04:05", "2006-01-02T15:04Z07:00", "2006-01-02T15:04", "2006-01-02", "2006-01", "2006", "2006:01:02 15:04:05", "2006-01-02 15:04:05"} {
		if t, err := time.Parse(l, s); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
}

// isZeroLeaf: values typed properties leave out.
func isZeroLeaf(s string) bool {
	if s == "" || s == "00:00:00:00" || strings.EqualFold(s, "false") || strings.EqualFold(s, "no") {
		return true
	}
	if x, ok := leafNumber(s); ok && x == 0 {
		return true
	}
	return strings.HasPrefix(s, "0/")
}

// leaves lists all simple values below a property, with the language of
// qualified ones.
func leaves(v rdfVal, m map[string]string, key string) {
	switch v.kind {
	case rSimple:
		m[key] = v.text
	case rStruct:
		for _, f := range v.fields {
			if f.uri == rdfURI && f.name == "value" {
				leaves(f.val, m, key) // a value with qualifiers
				continue
			}
			leaves(f.val, m, key+"/"+f.key())
		}
	default:
		seen := map[string]bool{}
		for i, it := range v.items {
			k := key + "[" + strconv.Itoa(i) + "]"
			if it.lang != "" && v.kind == rAlt && !seen[it.lang] {
				k = key + "[" + it.lang + "]"
				seen[it.lang] = true
			}
			leaves(it, m, k)
		}
	}
}

// topKey is the top-level property an entry of rdfCanon belongs to.
func topKey(k string) string {
	i := strings.IndexByte(k, '}')
	if i < 0 {
		return k
	}
	if j := strings.IndexAny(k[i:], "/["); j >= 0 {
		return k[:i+j]
	}
	return k
}

// checkRewrite reads a text and, when it is accepted, rewrites it twice.
func checkRewrite(text string) (accepted bool, out *rdfDoc, err error) {
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal([]byte(text), d); err != nil {
		return false, nil, nil
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return true, nil, fmt.Errorf("an accepted document cannot be written: %v", err)
	}
	out, err = parseRDF(b)
	if err != nil {
		return true, nil, fmt.Errorf("written text is not valid: %v\n%s", err, b)
	}
	r0, err := readText(text)
	if err != nil {
		return true, nil, fmt.Errorf("first reading: %v", err)
	}
	r1, err := readText(string(b))
	if err != nil {
		return true, nil, fmt.Errorf("the written document is not accepted: %v\n%s", err, b)
	}
	if s := r0.diff(r1); s != "" {
		return true, nil, fmt.Errorf("reading what was written gives another document: %s\n%s", s, b)
	}
	b2, err := xmp.Marshal(d)
	if err != nil || string(b2) != string(b) {
		return true, nil, fmt.Errorf("writing the same document twice differs: %v\n%s\n%s", err, b, b2)
	}
	d1 := xmp.NewDocument()
	defer d1.Close()
	if err := xmp.Unmarshal(b, d1); err != nil {
		return true, nil, err
	}
	b1, err := xmp.Marshal(d1)
	if err != nil {
		return true, nil, err
	}
	o1, err := parseRDF(b1)
	if err != nil {
		return true, nil, fmt.Errorf("written text is not valid: %v\n%s", err, b1)
	}
	if s := diffMaps(rdfCanon(out.props), rdfCanon(o1.props)); s != "" {
		return true, nil, fmt.Errorf("writing the re-read document changes it: %s", s)
	}
	return true, out, nil
}

func TestP04_Models(t *testing.T) {
	rule("models", "documents of several models with random content and, half of the time, additional properties without a model, in a random RDF spelling; what is written after reading must be the same tree of properties, and rewriting that must change nothing; non-trivial: distinct documents with at least three properties")
	check(t, 2500, func(rt *rapid.T) {
		var doc *rdfDoc
		if err := try(func() (err error) { doc, _, err = genTypedDoc(rt); return }); err != nil {
			rt.Fatalf("%v", err)
		}
		if rapid.Bool().Draw(rt, "extra") {
			doc.props = append(doc.props, genRdfProps(rt, append(unknownNs[:2:2], knownUnknownNs...), 3, 1, 4, "x")...)
		}
		text, f := writeRDF(rt, doc, prefixTable(unknownNs), nil)
		tally("models", text, len(doc.props) > 2, f...)
		err := try(func() error {
			ok, out, err := checkRewrite(text)
			if err != nil {
				return err
			}
			if !ok {
				return fmt.Errorf("the document is not accepted")
			}
			want, got := rdfCanon(doc.props), rdfCanon(out.props)
			for k := range got {
				if f, known := knownFields[topKey(k)]; known && f.sync && want[topKey(k)] == "" {
					delete(got, k) // gained by synchronising models
				}
			}
			if s := diffMaps(want, got); s != "" {
				return fmt.Errorf("the written document differs from the one read:\n  %s", s)
			}
			if out.about != doc.about {
				return fmt.Errorf("rdf:about is %q, was %q", out.about, doc.about)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}

// mediaTime is the structure form of a time given as [[h:]m:]s[.fraction].
func mediaTime(s string) rdfVal {
	ms := 0.0
	for _, v := range strings.Split(s, ":") {
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return rdfVal{text: s}
		}
		ms = ms*60 + f
	}
	dm := xmpdm.NsXmpDM.GetURI()
	return rdfVal{kind: rStruct, fields: []rdfProp{{dm, "value", rdfVal{text: strconv.Itoa(int(ms*1000 + 1e-3))}}, {dm, "scale", rdfVal{text: "1/1000"}}}}
}

func emptyVal(v rdfVal) bool {
	for _, f := range v.fields {
		if !emptyVal(f.val) {
			return false
		}
	}
	for _, it := range v.items {
		if !emptyVal(it) {
			return false
		}
	}
	return v.text == ""
}

// sameValues: every value of a is found in b.
func sameValues(a, b map[string]string) bool {
next:
	for _, v := range a {
		if isZeroLeaf(v) {
			continue
		}
		for _, w := range b {
			if sameLeaf(v, w) || sameLeaf(w, v) {
				continue next
			}
		}
		return false
	}
	return true
}

// pruned leaves out empty properties, which are no content.
func pruned(l []rdfProp) []rdfProp {
	var out []rdfProp
	for _, p := range l {
		if emptyVal(p.val) {
			continue
		}
		p.val.fields = pruned(p.val.fields)
		var items []rdfVal
		for _, it := range p.val.items {
			it.fields = pruned(it.fields)
			items = append(items, it)
		}
		p.val.items = items
		out = append(out, p)
	}
	return out
}

// copied tells if a value contains that of another property.
func copied(w string, props map[string]rdfProp, key string) bool {
	for k, p := range props {
		if k == key || !knownFields[k].sync {
			continue
		}
		m := map[string]string{}
		leaves(p.val, m, k)
		for _, v := range m {
			if v != "" && strings.Contains(w, v) {
				return true
			}
		}
	}
	return false
}

// checkKept compares the properties read with those written.
func checkKept(in, out *rdfDoc) error {
	x, y := map[string]rdfProp{}, map[string]rdfProp{}
	for _, p := range in.props {
		x[p.key()] = p
	}
	for _, p := range out.props {
		y[p.key()] = p
	}
	for k, p := range x {
		q, found := y[k]
		f, known := knownFields[k]
		if !known {
			a, b := rdfCanon(pruned([]rdfProp{p})), map[string]string{}
			if found {
				b = rdfCanon(pruned([]rdfProp{q}))
			}
			if s := diffMaps(a, b); s != "" {
				return fmt.Errorf("property without model changed: %s", s)
			}
			continue
		}
		if f.omit {
			continue // superseded by another property
		}
		if k == userComment && p.val.kind == rAlt {
			continue // known finding
		}
		if found && f.typ == reflect.TypeOf(xmpdm.MediaTime{}) && p.val.kind == rSimple && q.val.kind == rStruct {
			// a time written as text becomes a structure
			p.val = mediaTime(p.val.text)
		}
		a, b := map[string]string{}, map[string]string{}
		leaves(p.val, a, k)
		if found {
			leaves(q.val, b, k)
		}
		if f.typ == reflect.TypeOf(exif.Flash{}) && p.val.kind == rSimple {
			continue // the number becomes a structure, see P22
		}
		if found && p.val.kind != q.val.kind {
			// normalised to the kind of the modelled type: same values
			if !sameValues(a, b) || !sameValues(b, a) {
				return fmt.Errorf("values changed: %s was %v, is %v", k, a, b)
			}
			continue
		}
		for l, v := range a {
			w := b[l]
			if sameLeaf(v, w) || w == "" && isZeroLeaf(v) {
				continue
			}
			if f.sync && copied(w, x, k) {
				continue // taken over from the property it mirrors
			}
			return fmt.Errorf("value changed: %s was %q, is %q (sync %v)", l, v, w, f.sync)
		}
		for l, w := range b {
			if a[l] == "" && !isZeroLeaf(w) {
				return fmt.Errorf("value invented: %s is %q (sync %v)", l, w, f.sync)
			}
		}
	}
	for k := range y {
		if _, ok := x[k]; !ok && !knownFields[k].sync {
			return fmt.Errorf("property invented: %s", k)
		}
	}
	return nil
}

func TestP04_Samples(t *testing.T) {
	for _, c := range corpus(t) {
		err := try(func() error {
			ok, out, err := checkRewrite(string(c.text))
			if err != nil {
				return err
			}
			if !ok {
				return fmt.Errorf("not accepted")
			}
			return checkKept(c.doc, out)
		})
		if err != nil {
			violate(t, "sample %s: %.600v", c.name, err)
		}
	}
}

const userComment = "{http://ns.adobe.com/exif/1.0/}UserComment"

func TestP04_Known(t *testing.T) {
	knownFinding(t, "P04", "usercomment-lang", "exif:UserComment is rewritten as a bag: the languages of its alternatives are lost", func() error {
		text := `<rdf:RDF xmlns:rdf="` + rdfURI + `"><rdf:Description rdf:about="" xmlns:exif="http://ns.adobe.com/exif/1.0/"><exif:UserComment><rdf:Alt><rdf:li xml:lang="x-default">a</rdf:li><rdf:li xml:lang="de">b</rdf:li></rdf:Alt></exif:UserComment></rdf:Description></rdf:RDF>`
		ok, out, err := checkRewrite(text)
		if err != nil || !ok {
			return fmt.Errorf("%v %v", ok, err)
		}
		for _, p := range out.props {
			if p.key() == userComment {
				m := map[string]string{}
				leaves(p.val, m, "")
				if m["[de]"] != "b" || m["[x-default]"] != "a" {
					return fmt.Errorf("written as %v", m)
				}
			}
		}
		return nil
	})
}

// mutate changes the tree of a value at random.
func mutate(t *rapid.T, v rdfVal, pool []string) rdfVal {
	switch rapid.IntRange(0, 40).Draw(t, "shape") {
	case 0: // the value of another property
		v.kind, v.text, v.isURI = rSimple, "", false
		o := rapid.SampledFrom(corpusPool).Draw(t, "other").val
		v.kind, v.text, v.fields, v.items = o.kind, o.text, o.fields, o.items
		return v
	case 1: // an array of another kind
		if v.kind >= rSeq {
			v.kind = rapid.SampledFrom([]rdfKind{rSeq, rBag, rAlt}).Draw(t, "kind")
		}
	case 2: // an array instead of a value
		if v.kind == rSimple {
			return rdfVal{kind: rapid.SampledFrom([]rdfKind{rSeq, rBag, rAlt}).Draw(t, "kind"), items: []rdfVal{v}}
		}
	case 3:
		if v.kind == rSimple && v.lang == "" {
			v.lang = rapid.SampledFrom(rdfLangs).Draw(t, "lang")
		}
	}
	switch v.kind {
	case rSimple:
		if rapid.IntRange(0, 7).Draw(t, "value") == 0 {
			v.text = rapid.SampledFrom(pool).Draw(t, "text")
		}
	case rStruct:
		var l []rdfProp
		for _, f := range v.fields {
			if rapid.IntRange(0, 9).Draw(t, "drop") == 0 && len(v.fields) > 1 {
				continue
			}
			f.val = mutate(t, f.val, pool)
			l = append(l, f)
		}
		if len(l) > 0 {
			v.fields = l
		}
	default:
		var l []rdfVal
		for _, it := range v.items {
			n := 1
			switch rapid.IntRange(0, 9).Draw(t, "item") {
			case 0:
				n = 0
			case 1:
				if it.lang == "" {
					n = 2
				}
			}
			for ; n > 0; n-- {
				l = append(l, mutate(t, it, pool))
			}
		}
		if len(l) > 0 {
			v.items = l
		}
	}
	return v
}

func textPool(docs []corpusDoc) []string {
	seen := map[string]bool{}
	var l []string
	for _, c := range docs {
		m := map[string]string{}
		for _, p := range c.doc.props {
			leaves(p.val, m, p.key())
		}
		for _, v := range m {
			if !seen[v] && v != "" && len(v) < 100 {
				seen[v] = true
				l = append(l, v)
			}
		}
	}
	sort.Strings(l)
	return l
}

func TestP04_Mutants(t *testing.T) {
	rule("mutants", "documents assembled from properties of the 420 sample documents (or one whole sample), with values swapped, items and fields dropped and doubled, in a random RDF spelling; when the reader accepts one, the written document must keep every property without a model as it is and every modelled value up to spelling (zero values may be dropped), and rewriting it must change nothing; non-trivial: accepted distinct documents of at least three properties")
	docs := corpus(t)
	pool := textPool(docs)
	prefix := func(uri string) string {
		if p := xmp.NsRegistry.GetPrefix(uri); p != "" {
			return p
		}
		return fmt.Sprintf("ns%d", h64(uri)%1000)
	}
	check(t, 2500, func(rt *rapid.T) {
		doc := &rdfDoc{about: genAbout(rt)}
		if rapid.IntRange(0, 3).Draw(rt, "whole") == 0 {
			doc.props = append(doc.props, rapid.SampledFrom(docs).Draw(rt, "sample").doc.props...)
			if len(doc.props) > 60 {
				doc.props = doc.props[:60]
			}
		} else {
			seen := map[string]bool{}
			for i, n := 0, rapid.IntRange(2, 10).Draw(rt, "n"); i < n; i++ {
				p := rapid.SampledFrom(corpusPool).Draw(rt, "prop")
				if !seen[p.key()] {
					seen[p.key()] = true
					doc.props = append(doc.props, p)
				}
			}
		}
		hot := rapid.IntRange(0, 2).Draw(rt, "mutations")
		for i, p := range doc.props {
			if rapid.IntRange(0, 9).Draw(rt, "mutate") < hot*2 {
				doc.props[i].val = mutate(rt, p.val, pool)
			}
		}
		text, f := writeRDF(rt, doc, prefix, nil)
		accepted := false
		err := try(func() error {
			ok, out, err := checkRewrite(text)
			if err != nil || !ok {
				return err
			}
			accepted = true
			return checkKept(doc, out)
		})
		if !accepted && err == nil {
			f = []string{"not accepted"}
		}
		tally("mutants", text, accepted && len(doc.props) > 2, f...)
		if err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}
