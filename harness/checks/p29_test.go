package checks

import (
	"encoding"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P29: models that applications define. What a field's Go type and tag say is
// what is written, read, listed and set. The reference below derives the
// expected properties from the declaration.

var nsApp2 = registered(xmp.NewNamespace("vap2", "http://ns.example.com/verif/app/2.0/", func(string) xmp.Model { return &appModel2{} }))

// AppCommon is embedded by value, AppMore by pointer, AppDeep by value and
// AppLast by pointer in AppMore.
type AppCommon struct {
	Creator string          `xmp:"vap2:Creator" vap2:"creator"`
	Count   int             `xmp:"vap2:Count,attr" vap2:"count"`
	Keys    xmp.StringArray `xmp:"vap2:Keys" vap2:"keys"`
}

type AppDeep struct {
	Level uint8   `xmp:"vap2:Level,attr" vap2:"level"`
	Label appNote `xmp:"vap2:Label" vap2:"label"`
}

type AppLast struct {
	Bottom string `xmp:"vap2:Bottom" vap2:"bottom"`
	Depth  int16  `xmp:"vap2:Depth,attr" vap2:"depth"`
}

type AppMore struct {
	AppDeep
	*AppLast
	Extra string    `xmp:"vap2:Extra" vap2:"extra"`
	Parts []appPair `xmp:"vap2:Parts" vap2:"-"`
}

// appNote is attribute and text in another notation.
type appNote string

func (x appNote) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: "n:" + string(x)}, nil
}
func (x *appNote) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	return x.UnmarshalText([]byte(a.Value))
}
func (x appNote) MarshalText() ([]byte, error) { return []byte("n:" + string(x)), nil }
func (x *appNote) UnmarshalText(b []byte) error {
	if !strings.HasPrefix(string(b), "n:") {
		return fmt.Errorf("invalid appNote %q", b)
	}
	*x = appNote(b[2:])
	return nil
}

type appBag []appPair

func (x appBag) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x appBag) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}
func (x *appBag) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

type appKind int

type appModel2 struct {
	AppCommon
	*AppMore
	Kind   appKind     `xmp:"vap2:Kind,attr" vap2:"kind"`
	Two    [2]string   `xmp:"vap2:Two" vap2:"-"`
	Three  [3]int      `xmp:"vap2:Three" vap2:"-"`
	Pairs  []appPair   `xmp:"vap2:Pairs" vap2:"-"`
	PPairs []*appPair  `xmp:"vap2:PPairs" vap2:"-"`
	Bag    appBag      `xmp:"vap2:Bag" vap2:"-"`
	Times  []time.Time `xmp:"vap2:Times" vap2:"-"`
	Dates  []xmp.Date  `xmp:"vap2:Dates" vap2:"-"`
	Bools  []bool      `xmp:"vap2:Bools" vap2:"-"`
	Floats []float64   `xmp:"vap2:Floats" vap2:"-"`
	Kinds  []appKind   `xmp:"vap2:Kinds" vap2:"-"`
	Texts  []*string   `xmp:"vap2:Texts" vap2:"-"`
	Note   appNote     `xmp:"vap2:Note,attr" vap2:"note"`
	PNote  *appNote    `xmp:"vap2:PNote" vap2:"pnote"`
	PWhen  *time.Time  `xmp:"vap2:PWhen,attr" vap2:"pwhen"`
	PUp    *appUpper   `xmp:"vap2:PUp" vap2:"pup"`
	PPair  *appPair    `xmp:"vap2:PPair" vap2:"ppair"`
	PB     *bool       `xmp:"vap2:PB,attr" vap2:"pb"`
	PF     *float64    `xmp:"vap2:PF" vap2:"pf"`
	In     appInner    `xmp:"vap2:In" vap2:"-"`
	Ins    []appInner  `xmp:"vap2:Ins" vap2:"-"`
	EB     bool        `xmp:"vap2:EB,attr,empty" vap2:"eb"`
	EI     int32       `xmp:"vap2:EI,empty" vap2:"ei"`
	OmitI  int         `xmp:"vap2:OmitI,omit,attr" vap2:"omiti"`
	OmitL  []string    `xmp:"vap2:OmitL,omit" vap2:"-"`
	hidden string
}

func (x *appModel2) Can(nsName string) bool            { return nsName == nsApp2.GetName() }
func (x *appModel2) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsApp2} }
func (x *appModel2) SyncModel(d *xmp.Document) error   { return nil }
func (x *appModel2) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *appModel2) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *appModel2) CanTag(tag string) bool            { _, err := xmp.GetNativeField(x, tag); return err == nil }
func (x *appModel2) GetTag(tag string) (string, error) { return xmp.GetNativeField(x, tag) }
func (x *appModel2) SetTag(tag, value string) error    { return xmp.SetNativeField(x, tag, value) }

// ---------------------------------------------------------------------------
// reference: declaration and value -> properties
// ---------------------------------------------------------------------------

// declField is one declared property of a value.
type declField struct {
	path        []int // field index path
	prefix      string
	name        string
	attr        bool
	empty, omit bool
	native      string
}

// declFields lists the properties a struct type declares, embedded structs
// included.
func declFields(typ reflect.Type, native string) (l []declField) {
	for i := 0; i < typ.NumField(); i++ {
		f := typ.Field(i)
		if f.Anonymous {
			t := f.Type
			if t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			for _, v := range declFields(t, native) {
				v.path = append([]int{i}, v.path...)
				l = append(l, v)
			}
			continue
		}
		tag := f.Tag.Get("xmp")
		if tag == "" || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		v := declField{path: []int{i}, native: f.Tag.Get(native)}
		v.prefix, v.name, _ = strings.Cut(parts[0], ":")
		for _, p := range parts[1:] {
			switch p {
			case "attr":
				v.attr = true
			case "empty":
				v.empty = true
			case "omit":
				v.omit = true
			}
		}
		l = append(l, v)
	}
	return l
}

// get returns the field's value, ok is false in a missing embedded struct.
func (f declField) get(v reflect.Value) (reflect.Value, bool) {
	for i, k := range f.path {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(k)
	}
	return v, true
}

// alloc returns the settable field.
func (f declField) alloc(v reflect.Value) reflect.Value {
	for i, k := range f.path {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(k)
	}
	return v
}

func (f declField) String() string { return f.prefix + ":" + f.name }

// declText is the text of a simple value.
func declText(v reflect.Value) (string, bool) {
	p := v
	if v.Kind() != reflect.Ptr {
		p = reflect.New(v.Type())
		p.Elem().Set(v)
	}
	if g, ok := p.Interface().(*xmp.GUID); ok {
		return string(*g), true
	}
	if _, ok := p.Interface().(xmp.Marshaler); ok {
		return "", false
	}
	if m, ok := p.Interface().(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		return string(b), err == nil
	}
	if v.Kind() == reflect.Ptr {
		return declText(v.Elem())
	}
	switch v.Kind() {
	case reflect.String:
		return v.String(), true
	case reflect.Bool:
		return strconv.FormatBool(v.Bool()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10), true
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32), true
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64), true
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return string(v.Bytes()), true
		}
	}
	return "", false
}

// isUnset tells whether a value without the flag `empty` is left out.
func isUnset(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return true
		}
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Array:
		return false
	case reflect.Struct:
		if z, ok := v.Interface().(xmp.Zero); ok {
			return z.IsZero()
		}
		return false
	}
	if z, ok := v.Interface().(xmp.Zero); ok {
		return z.IsZero()
	}
	return v.Kind() != reflect.Ptr && v.IsZero()
}

// declValue is the property value a Go value stands for. With forPaths, default
// alternatives with a language count once.
func declValue(v reflect.Value, forPaths bool) rdfVal {
	if a, ok := v.Interface().(xmp.AltString); ok {
		r := rdfVal{kind: rAlt}
		for _, it := range a {
			if it.IsDefault && (!forPaths || it.Lang == "") {
				r.items = append(r.items, rdfVal{text: it.Value, lang: "x-default"})
			}
			if it.Lang != "" {
				r.items = append(r.items, rdfVal{text: it.Value, lang: it.Lang})
			}
		}
		return r
	}
	if s, ok := declText(v); ok {
		return rdfVal{text: s}
	}
	if v.Kind() == reflect.Ptr {
		return declValue(v.Elem(), forPaths)
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		r := rdfVal{kind: rSeq}
		if v.Kind() == reflect.Array {
			r.kind = rBag
		}
		if a, ok := v.Interface().(xmp.Array); ok {
			r.kind = map[xmp.ArrayType]rdfKind{xmp.ArrayTypeOrdered: rSeq, xmp.ArrayTypeUnordered: rBag, xmp.ArrayTypeAlternative: rAlt}[a.Typ()]
		}
		for i := 0; i < v.Len(); i++ {
			r.items = append(r.items, declValue(v.Index(i), forPaths))
		}
		return r
	case reflect.Struct:
		r := rdfVal{kind: rStruct}
		if r.fields, _ = declProps(v, forPaths); len(r.fields) == 0 {
			return rdfVal{} // written as empty element
		}
		return r
	}
	return rdfVal{text: fmt.Sprintf("? %v", v.Type())}
}

// declProps returns the properties of a struct value, and which of them are
// attributes.
func declProps(v reflect.Value, forPaths bool) (l []rdfProp, attrs []string) {
	for _, f := range declFields(v.Type(), "") {
		fv, ok := f.get(v)
		if !ok || f.omit || !f.empty && isUnset(fv) {
			continue
		}
		if f.attr {
			attrs = append(attrs, f.String())
		}
		l = append(l, rdfProp{mustNs(f.prefix).GetURI(), f.name, declValue(fv, forPaths)})
	}
	return l, attrs
}

func mustPrefix(uri string) string { return xmp.NsRegistry.GetPrefix(uri) }

// appModels are the application's models by prefix.
var appModels = map[string]reflect.Type{"vapp": appType, "vap2": reflect.TypeOf(appModel2{}), "vap3": reflect.TypeOf(appModel3{})}

// genApp fills some of the declared properties; zero values next to them.
func genApp(rt *rapid.T, prefix, label string) (xmp.Model, int) {
	v := reflect.New(appModels[prefix])
	fields := declFields(v.Elem().Type(), prefix)
	n := rapid.IntRange(1, 6).Draw(rt, label+".n")
	if rapid.IntRange(0, 9).Draw(rt, label+".full") == 0 {
		n = 3 * len(fields)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := rapid.SampledFrom(fields).Draw(rt, label+".field")
		if seen[f.name] {
			continue
		}
		fv := f.alloc(v.Elem())
		if fv.Kind() == reflect.Ptr && rapid.IntRange(0, 3).Draw(rt, label+".zero") == 0 {
			fv.Set(reflect.New(fv.Type().Elem())) // set to nothing is not unset
			seen[f.name] = true
			continue
		}
		if x, ok := genValue(rt, fv.Type(), label+"."+f.name, 3); ok {
			fv.Set(x)
			seen[f.name] = true
		}
	}
	return v.Interface().(xmp.Model), len(seen)
}

// stored is what reading back must give: omitted fields are not stored, empty
// arrays become nil, embedded structs exist when something was read into them.
func stored(m xmp.Model) map[string]string {
	v := reflect.ValueOf(m).Elem()
	out := map[string]string{}
	for _, f := range declFields(v.Type(), "") {
		if fv, ok := f.get(v); ok && !f.omit && !isUnset(fv) {
			out[f.String()] = canon(fv)
		}
	}
	return out
}

// topAttrs lists the properties a text has as attributes of descriptions.
func topAttrs(text []byte) (l []string, err error) {
	d := xml.NewDecoder(strings.NewReader(string(text)))
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		if s, ok := t.(xml.StartElement); ok && s.Name == (xml.Name{Space: rdfURI, Local: "Description"}) {
			for _, a := range s.Attr {
				if isPropAttr(a) && a.Name.Space != "xmlns" {
					l = append(l, mustPrefix(a.Name.Space)+":"+a.Name.Local)
				}
			}
		}
	}
	sort.Strings(l)
	return l, nil
}

func trimVals(l []rdfProp) []rdfProp {
	var trim func(v *rdfVal)
	trim = func(v *rdfVal) {
		if v.kind == rSimple {
			v.text = strings.TrimSpace(v.text)
		}
		for i := range v.fields {
			trim(&v.fields[i].val)
		}
		for i := range v.items {
			trim(&v.items[i])
		}
	}
	for i := range l {
		l[i].val = l[i].val.clone()
		trim(&l[i].val)
	}
	return l
}

func checkApp(prefix string, m xmp.Model) error {
	v := reflect.ValueOf(m).Elem()
	want, attrs := declProps(v, false)
	d := xmp.NewDocument()
	defer func() { d.Close() }()
	if _, err := d.AddModel(m); err != nil {
		return err
	}
	before := stored(m)

	// written form
	text, err := xmp.Marshal(d)
	if err != nil {
		return fmt.Errorf("write: %v", err)
	}
	got, err := parseRDF(text)
	if err != nil {
		return fmt.Errorf("written text is not XMP: %v\n%s", err, text)
	}
	if x := diffMaps(rdfCanon(trimVals(want)), rdfCanon(trimVals(got.props))); x != "" {
		return fmt.Errorf("written differently from what is declared: %s\n%s", x, text)
	}
	sort.Strings(attrs)
	ga, err := topAttrs(text)
	if err != nil {
		return err
	}
	if fmt.Sprint(ga) != fmt.Sprint(attrs) {
		return fmt.Errorf("attributes are %v, declared %v\n%s", ga, attrs, text)
	}
	if x := diffMaps(before, stored(m)); x != "" {
		return fmt.Errorf("the model changed on writing: %s", x)
	}

	// read again, from XML and from JSON
	js, err := json.Marshal(d)
	if err != nil {
		return fmt.Errorf("write JSON: %v", err)
	}
	for k, read := range []func(*xmp.Document) error{
		func(r *xmp.Document) error { return xmp.Unmarshal(text, r) },
		func(r *xmp.Document) error { return json.Unmarshal(js, r) },
	} {
		form := []string{"XML", "JSON"}[k]
		r := xmp.NewDocument()
		if err := read(r); err != nil {
			r.Close()
			return fmt.Errorf("read %s: %v\n%s\n%s", form, err, text, js)
		}
		rm := r.FindModel(mustNs(prefix))
		if rm == nil || reflect.TypeOf(rm) != reflect.TypeOf(m) {
			if diffMaps(before, map[string]string{}) != "" {
				r.Close()
				return fmt.Errorf("%s has no model after reading (%T)\n%s\n%s", form, rm, text, js)
			}
		} else if x := diffMaps(before, stored(rm)); x != "" {
			r.Close()
			return fmt.Errorf("%s reads back differently: %s\n%s\n%s", form, x, text, js)
		}
		r.Close()
	}

	// listed
	wp, _ := declProps(v, true)
	paths := rdfPaths(wp, mustPrefix)
	have, err := listing(d)
	if err != nil {
		return err
	}
	for p, s := range paths {
		if s == "" {
			delete(paths, p)
		}
	}
	for p, s := range have {
		if s == "" {
			delete(have, p)
		}
	}
	if x := diffMaps(paths, have); x != "" {
		return fmt.Errorf("listed differently from what is declared: %s", x)
	}
	for p, s := range paths {
		g, err := d.GetPath(xmp.Path(p))
		if err != nil || g != s {
			return fmt.Errorf("path %s reads %q, %v; want %q", p, g, err, s)
		}
	}
	return nil
}

func TestP29_forms(t *testing.T) {
	rule("forms", "a model declared by an application (fields of every Go kind, pointers, types with text, attribute and XMP methods on value or pointer, structs, embedded structs, slices, fixed arrays, flags) filled at random, written, read back from XML and JSON, listed and read by path, against the properties its declaration says; non-trivial: at least two properties set")
	check(t, 8000, func(rt *rapid.T) {
		prefix := rapid.SampledFrom([]string{"vapp", "vap2", "vap3"}).Draw(rt, "model")
		m, n := genApp(rt, prefix, "m")
		if err := try(func() error { return checkApp(prefix, m) }); err != nil {
			rt.Fatalf("%v\nmodel %v", err, stored(m))
		}
		var l []string
		for k := range stored(m) {
			l = append(l, k)
		}
		sort.Strings(l)
		tally("forms", canon(reflect.ValueOf(m)), n >= 2, l...)
	})
}

// declNative is the text of a property's native tag, ok is false for values
// that have none.
func declNative(v reflect.Value) (string, bool) {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	for p.Elem().Kind() == reflect.Ptr {
		p = p.Elem()
	}
	if m, ok := p.Interface().(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		return string(b), err == nil
	}
	return declText(p.Elem())
}

func TestP29_tags(t *testing.T) {
	rule("tags", "native tags of a model declared by an application: values of random properties are read by tag as their text and the text is set by tag on an empty model; non-trivial: at least two tags")
	check(t, 3000, func(rt *rapid.T) {
		prefix := rapid.SampledFrom([]string{"vapp", "vap2", "vap3"}).Draw(rt, "model")
		m, _ := genApp(rt, prefix, "m")
		v := reflect.ValueOf(m).Elem()
		fresh := reflect.New(v.Type()).Interface().(xmp.Model)
		n := 0
		err := try(func() error {
			for _, f := range declFields(v.Type(), prefix) {
				if f.native == "" || f.native == "-" {
					continue
				}
				fv, ok := f.get(v)
				if !ok {
					continue
				}
				want := ""
				if !isUnset(fv) {
					if want, ok = declNative(fv); !ok {
						continue
					}
				}
				got, err := xmp.GetNativeField(m, f.native)
				if err != nil || got != want {
					return fmt.Errorf("tag %s reads %q, %v; want %q", f.native, got, err, want)
				}
				if isUnset(fv) || want == "" || fv.Kind() == reflect.Slice && fv.Type().Elem().Kind() != reflect.Uint8 {
					continue // lists are up to P19
				}
				n++
				if err := xmp.SetNativeField(fresh, f.native, want); err != nil {
					return fmt.Errorf("tag %s is not set to %q: %v", f.native, want, err)
				}
				sv, _ := f.get(reflect.ValueOf(fresh).Elem())
				if a, b := canon(fv), canon(sv); a != b {
					return fmt.Errorf("tag %s set to %q is %s, want %s", f.native, want, b, a)
				}
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		tally("tags", canon(reflect.ValueOf(m)), n >= 2, prefix)
	})
}

func init() {
	regGen(time.Time{}, func(t *rapid.T, l string) interface{} { return genDate(t, l) })
}
