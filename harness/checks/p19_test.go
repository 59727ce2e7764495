package checks

import (
	"encoding"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// nativeTag is a tag as other metadata formats know it.
type nativeTag struct {
	key   string
	path  []int // field, from the top model
	typ   reflect.Type
	goTyp string
	text  bool   // has a text form
	multi bool   // a list in a text form, which may be extended when set again
	prop  string // the property, if it is written as one
}

// nativeModel is a model, or a part of one, with native tags.
type nativeModel struct {
	name   string
	prefix string
	named  bool // has names of its own for native tags
	any    bool // keeps unknown tags
	anyOf  []int
	tags   []nativeTag
}

var textUnmarshaler = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()

func isMulti(typ reflect.Type) bool {
	switch typ {
	case reflect.TypeOf(xmp.StringList{}), reflect.TypeOf(xmp.StringArray{}), reflect.TypeOf(riff.StringArray{}), reflect.TypeOf(riff.AltString{}), reflect.TypeOf(id3.Genre{}):
		return true
	}
	return false
}

// hasTextForm tells whether values of a type are read from and written as text.
func hasTextForm(typ reflect.Type) bool {
	for typ.Kind() == reflect.Ptr {
		typ = typ.Elem()
	}
	m := typ.Implements(textMarshaler) || reflect.PtrTo(typ).Implements(textMarshaler)
	u := reflect.PtrTo(typ).Implements(textUnmarshaler)
	if m && u {
		return true
	}
	switch typ.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	case reflect.Slice:
		return !m && !u && typ.Elem().Kind() == reflect.Uint8
	}
	return false
}

// nativeText is the text form of a value.
func nativeText(v reflect.Value) (string, error) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "", nil
		}
		v = v.Elem()
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	if m, ok := p.Interface().(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		return string(b), err
	}
	switch v.Kind() {
	case reflect.String:
		return v.String(), nil
	case reflect.Bool:
		return strconv.FormatBool(v.Bool()), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10), nil
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32), nil
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64), nil
	case reflect.Slice:
		return string(v.Bytes()), nil
	}
	return "", fmt.Errorf("%s has no text form", v.Type())
}

var nativeModelList []*nativeModel

func nativeModels() []*nativeModel {
	if nativeModelList != nil {
		return nativeModelList
	}
	add := func(name, prefix string, typ reflect.Type, path []int) {
		ns := newModel(prefix).Namespaces()[0].GetName()
		m := &nativeModel{name: name, prefix: prefix}
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			tag, ok := f.Tag.Lookup(ns)
			if f.PkgPath != "" || tag == "-" {
				continue
			}
			if ok && ns != "xmp" {
				m.named = true
			}
			p := append(append([]int{}, path...), i)
			parts := strings.Split(tag, ",")
			any := false
			for _, v := range parts[1:] {
				any = any || v == "any"
			}
			if any {
				m.any, m.anyOf = f.Type == reflect.TypeOf(xmp.TagList{}), p
				continue
			}
			key := parts[0]
			if key == "" {
				key = f.Name
			}
			nt := nativeTag{key: key, path: p, typ: f.Type, goTyp: f.Type.String(), text: hasTextForm(f.Type), multi: isMulti(f.Type)}
			if xt, ok := xmpTag(f); ok && !xt.omit && path == nil {
				nt.prop = xt.name
			}
			m.tags = append(m.tags, nt)
		}
		if len(m.tags) > 0 {
			nativeModelList = append(nativeModelList, m)
		}
	}
	for _, p := range modelPrefixes() {
		typ := reflect.TypeOf(newModel(p)).Elem()
		if typ == reflect.TypeOf(qt.QtInfo{}) {
			// four parts, each with tags of its own
			for i := 0; i < typ.NumField(); i++ {
				f := typ.Field(i)
				if f.Tag.Get("qt") == "-" && f.Type.Kind() == reflect.Ptr && strings.HasPrefix(f.Type.Elem().Name(), "Qt") {
					add("qt."+f.Name, p, f.Type.Elem(), []int{i})
				}
			}
			continue
		}
		add(p, p, typ, nil)
	}
	return nativeModelList
}

// at returns the field of a tag, making the parts it belongs to.
func (t nativeTag) at(m xmp.Model) reflect.Value { return fieldAt(m, t.path) }

func fieldAt(m xmp.Model, path []int) reflect.Value {
	v := reflect.ValueOf(m).Elem()
	for _, i := range path {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v
}

// genNative draws a value for a tag and its text form.
func genNative(t *rapid.T, nt nativeTag, label string) (reflect.Value, string, bool) {
	switch {
	case nt.typ == reflect.TypeOf(id3.Genre{}):
		v := rapid.SampledFrom(genreNames).Draw(t, label)
		return reflect.ValueOf(id3.Genre{v}), v, true
	case nt.multi:
		// items must not contain separators
		n := rapid.IntRange(1, 3).Draw(t, label+".len")
		l := make([]string, n)
		for i := range l {
			l[i] = genWord(t, label)
		}
		sep := "\n"
		v := reflect.New(nt.typ).Elem()
		if nt.typ == reflect.TypeOf(riff.AltString{}) || nt.typ == reflect.TypeOf(riff.StringArray{}) {
			sep = "; "
		}
		if nt.typ == reflect.TypeOf(riff.AltString{}) {
			v.Set(reflect.ValueOf(riff.AltString{{Value: l[0], Lang: "eng", IsDefault: true}}))
			return v, l[0], true
		}
		for _, s := range l {
			v.Set(reflect.Append(v, reflect.ValueOf(s)))
		}
		return v, strings.Join(l, sep), true
	}
	v, ok := genValue(t, nt.typ, label, rapidMaxDepth)
	if !ok || v.IsZero() {
		return v, "", false
	}
	s, err := nativeText(v)
	return v, s, err == nil && s != "" && s == strings.TrimSpace(s)
}

func listTags(m xmp.Model) (map[string]string, error) {
	var l xmp.TagList
	var err error
	if x, ok := m.(interface {
		ListTags() (xmp.TagList, error)
	}); ok {
		l, err = x.ListTags()
	} else {
		l, err = xmp.ListNativeFields(m)
	}
	if err != nil {
		return nil, fmt.Errorf("listing native tags: %v", err)
	}
	r := map[string]string{}
	for _, v := range l {
		k := v.Key
		if v.Lang != "" {
			k += " " + v.Lang
		}
		if old, ok := r[k]; ok {
			return nil, fmt.Errorf("tag %s is listed twice: %q and %q", k, old, v.Value)
		}
		r[k] = v.Value
	}
	return r, nil
}

// written is the document of a model, which stays as it is.
func written(m xmp.Model) (string, error) {
	c := reflect.New(reflect.TypeOf(m).Elem())
	c.Elem().Set(reflect.ValueOf(m).Elem())
	m = c.Interface().(xmp.Model)
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m); err != nil {
		return "", err
	}
	b, err := xmp.Marshal(d)
	return string(b), err
}

// checkTags compares all tags of a model with what they must be.
func (n *nativeModel) checkTags(m xmp.Model, want map[string]string) error {
	for _, nt := range n.tags {
		if !nt.text {
			continue
		}
		if !m.CanTag(nt.key) {
			return fmt.Errorf("tag %s (%s) is not supported", nt.key, nt.goTyp)
		}
		s, err := m.GetTag(nt.key)
		if err != nil {
			return fmt.Errorf("reading tag %s: %v", nt.key, err)
		}
		if s != want[nt.key] {
			return fmt.Errorf("tag %s (%s) is %q, want %q", nt.key, nt.goTyp, s, want[nt.key])
		}
	}
	for k, v := range want {
		if s, err := m.GetTag(k); err != nil || s != v {
			return fmt.Errorf("tag %s is %q (%v), want %q", k, s, err, v)
		}
	}
	l, err := listTags(m)
	if err != nil {
		return err
	}
	if s := diffMaps(want, l); s != "" {
		return fmt.Errorf("the list of native tags is not the tags set:\n  %s", s)
	}
	return nil
}

// fieldNamed returns the field a dotted path of Go names leads to, the zero
// Value when there is none.
func fieldNamed(m xmp.Model, name string) reflect.Value {
	v := reflect.ValueOf(m).Elem()
	for _, s := range strings.Split(name, ".") {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
		if v = v.FieldByName(s); !v.IsValid() {
			return v
		}
	}
	return v
}

func TestP19_Table(t *testing.T) {
	rule("table", "random samples of the published tags of the metadata formats: every model must support the tags of its format, setting one to the text of a valid value of the property it belongs to must change that property and only that; non-trivial: distinct tag and text")
	type entry struct {
		n          *nativeModel
		key, field string
	}
	var l []entry
	for _, n := range nativeModels() {
		for k, f := range voc.Tags[n.name] {
			l = append(l, entry{n, k, f})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n.name+l[i].key < l[j].n.name+l[j].key })
	check(t, 6000, func(rt *rapid.T) {
		if err := try(func() error {
			e := rapid.SampledFrom(l).Draw(rt, "tag")
			m := newModel(e.n.prefix)
			if !m.CanTag(e.key) {
				return fmt.Errorf("%s tag %s is not supported", e.n.name, e.key)
			}
			var nt nativeTag
			for _, v := range e.n.tags {
				if v.key == e.key {
					nt = v
				}
			}
			fresh := newModel(e.n.prefix)
			if i := strings.IndexByte(e.field, '.'); i >= 0 {
				f := fieldNamed(fresh, e.field[:i])
				f.Set(reflect.New(f.Type().Elem()))
			}
			f := fieldNamed(fresh, e.field)
			if !f.IsValid() {
				return fmt.Errorf("%s has no property %s", e.n.name, e.field)
			}
			nt.typ, nt.text, nt.multi = f.Type(), hasTextForm(f.Type()), isMulti(f.Type())
			if !nt.text {
				tally("table", "", false, "structured")
				return nil
			}
			v, s, ok := genNative(rt, nt, e.key)
			if !ok {
				tally("table", "", false, "without text")
				return nil
			}
			tally("table", e.n.name+" "+e.key+"="+s, true, e.n.name)
			f.Set(v)
			if err := m.SetTag(e.key, s); err != nil {
				return fmt.Errorf("setting %s tag %s to %q: %v", e.n.name, e.key, s, err)
			}
			if a, b := canonModel(m), canonModel(fresh); diffMaps(b, a) != "" {
				return fmt.Errorf("%s tag %s set to %q does not set %s only:\n  %s", e.n.name, e.key, s, e.field, diffMaps(b, a))
			}
			if g, err := fresh.GetTag(e.key); err != nil || g != s {
				return fmt.Errorf("%s is %q, tag %s reads as %q (%v)", e.field, s, e.key, g, err)
			}
			return nil
		}); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}

func TestP19_Tags(t *testing.T) {
	rule("tags", "for every native tag with a text form of every model: a random valid value is set through the tag on a model that has a few other tags set; it must read back as the same text and typed value, be listed, leave the other tags alone, and the written document must be the one of a model whose fields were assigned directly; read from there, the tag must have the same value; non-trivial: distinct tag and text")
	assume("P19: tags of structured values without text form are only checked to be rejected or stored without affecting other tags; lists may be extended when set again")
	for _, n := range nativeModels() {
		for _, nt := range n.tags {
			n, nt := n, nt
			if !nt.text {
				continue
			}
			t.Run(n.name+" "+nt.key, func(t *testing.T) {
				check(t, 15, func(rt *rapid.T) {
					if err := try(func() error {
						v, s, ok := genNative(rt, nt, nt.key)
						if !ok {
							tally("tags", "", false, "without text")
							return nil
						}
						m, typed := newModel(n.prefix), newModel(n.prefix)
						want, err := listTags(m)
						if err != nil {
							return err
						}
						if len(want) != 0 && n.prefix != "iXML" {
							return fmt.Errorf("an empty model has tags %v (%v)", want, err)
						}
						for i, k := 0, rapid.IntRange(0, 3).Draw(rt, "others"); i < k; i++ {
							o := n.tags[rapid.IntRange(0, len(n.tags)-1).Draw(rt, "other")]
							if !o.text || o.key == nt.key || want[o.key] != "" {
								continue
							}
							ov, os, ok := genNative(rt, o, o.key)
							if !ok {
								continue
							}
							want[o.key] = os
							o.at(m).Set(ov)
							o.at(typed).Set(ov)
						}
						if err := m.SetTag(nt.key, s); err != nil {
							return fmt.Errorf("setting tag %s (%s) to %q: %v", nt.key, nt.goTyp, s, err)
						}
						nt.at(typed).Set(v)
						want[nt.key] = s
						tally("tags", n.name+" "+nt.key+"="+s, true, nt.goTyp)
						if err := n.checkTags(m, want); err != nil {
							return err
						}
						if a, b := canon(nt.at(m)), canon(v); a != b {
							return fmt.Errorf("tag %s set to %q holds %s, want %s", nt.key, s, a, b)
						}
						if name := voc.Tags[n.name][nt.key]; name != "" {
							f := fieldNamed(m, name)
							if !f.IsValid() || canon(f) != canon(v) {
								return fmt.Errorf("tag %s set to %q is not in field %s, where it belongs", nt.key, s, name)
							}
						}
						a, err := written(m)
						if err != nil {
							return err
						}
						b, err := written(typed)
						if err != nil {
							return err
						}
						if a != b {
							return fmt.Errorf("tag %s set to %q is written as\n%s\nwant\n%s", nt.key, s, a, b)
						}
						if nt.prop == "" || syncing[n.prefix] {
							return nil
						}
						d := xmp.NewDocument()
						defer d.Close()
						if err := xmp.Unmarshal([]byte(a), d); err != nil {
							return err
						}
						ns, _ := xmp.GetNamespace(n.prefix)
						r := d.FindModel(ns)
						if r == nil {
							return fmt.Errorf("tag %s set to %q is not part of the document\n%s", nt.key, s, a)
						}
						if g, err := r.GetTag(nt.key); err != nil || g != s {
							return fmt.Errorf("tag %s set to %q reads as %q (%v) from the written document", nt.key, s, g, err)
						}
						return nil
					}); err != nil {
						rt.Fatalf("%v", err)
					}
				})
			})
		}
	}
}

var oddTexts = []string{"", "x", "-1", "0", "1", "2", "25", "256", "1/3", "1/0", "a/b", "1.5", "abc def", "2001-02-03", "2001:02:03 04:05:06", "12:34", "True", "true", "1, 2", "1;2", "3 4 5", "(4)Disco", "99999999999999999999", "-", "http://example.com/", "\x00\x01", "10/20", "47.5", "-12.25"}

func TestP19_Histories(t *testing.T) {
	rule("histories", "sequences of valid, malformed, empty and unknown tag updates on one model; after each update all tags must read as a model of them says, a rejected update must leave tags and the written document as they were, an accepted one must change no other tag and its text must be stable (setting what a tag reads as gives the same text); unknown tags must be rejected unless the model keeps unknown tags; non-trivial: distinct histories with at least two accepted updates")
	models := nativeModels()
	check(t, 6000, func(rt *rapid.T) {
		var log []string
		if err := try(func() error {
			n := rapid.SampledFrom(models).Draw(rt, "model")
			m := newModel(n.prefix)
			want, err := listTags(m)
			if err != nil {
				return err
			}
			accepted := 0
			var text []nativeTag
			for _, nt := range n.tags {
				if nt.text {
					text = append(text, nt)
				}
			}
			for i, k := 0, rapid.IntRange(1, 8).Draw(rt, "updates"); i < k; i++ {
				before, err := written(m)
				if err != nil {
					return err
				}
				nt := n.tags[rapid.IntRange(0, len(n.tags)-1).Draw(rt, "tag")]
				if len(text) > 0 && rapid.IntRange(0, 4).Draw(rt, "text") > 0 {
					nt = text[rapid.IntRange(0, len(text)-1).Draw(rt, "tag")]
				}
				switch op := rapid.IntRange(0, 5).Draw(rt, "op"); {
				case op == 0: // an unknown tag
					key := rapid.SampledFrom([]string{"ZZZZ", "zzzz", "Nonsense", "com.apple.quicktime.nonsense", "com.example.tag", "0xffff", "ZZ", "tag:tag"}).Draw(rt, "unknown")
					log = append(log, fmt.Sprintf("%s=unknown", key))
					can := m.CanTag(key)
					err := m.SetTag(key, "value")
					after, werr := written(m)
					if werr != nil {
						return werr
					}
					if !can || err != nil {
						if err == nil && n.prefix != "qt" {
							return fmt.Errorf("unknown tag %s is accepted", key)
						}
						if after != before {
							return fmt.Errorf("unknown tag %s changes the document\n%s\nwas\n%s", key, after, before)
						}
						break
					}
					if !n.any && n.prefix != "qt" {
						return fmt.Errorf("unknown tag %s is supported", key)
					}
					if after == before && want[key] == "" {
						return fmt.Errorf("unknown tag %s is accepted but not written:\n%s", key, after)
					}
					want[key] = "value"
				case op <= 3 && nt.text:
					_, s, ok := genNative(rt, nt, nt.key)
					if !ok {
						break
					}
					log = append(log, fmt.Sprintf("%s=%q", nt.key, s))
					if err := m.SetTag(nt.key, s); err != nil {
						return fmt.Errorf("setting tag %s (%s) to %q: %v", nt.key, nt.goTyp, s, err)
					}
					accepted++
					g, err := m.GetTag(nt.key)
					if err != nil {
						return err
					}
					if g != s && !(nt.multi && want[nt.key] != "" && (g == want[nt.key]+"\n"+s || g == want[nt.key]+"; "+s)) {
						return fmt.Errorf("tag %s (%s) set to %q reads as %q", nt.key, nt.goTyp, s, g)
					}
					want[nt.key] = g
				default:
					s := rapid.SampledFrom(oddTexts).Draw(rt, "odd")
					log = append(log, fmt.Sprintf("%s=%q (odd)", nt.key, s))
					err := m.SetTag(nt.key, s)
					if err != nil {
						after, werr := written(m)
						if werr != nil {
							return fmt.Errorf("after setting tag %s (%s) to %q was rejected: %v", nt.key, nt.goTyp, s, werr)
						}
						if after != before {
							return fmt.Errorf("setting tag %s (%s) to %q was rejected (%v) but changed the document to\n%s\nfrom\n%s", nt.key, nt.goTyp, s, err, after, before)
						}
						break
					}
					if !nt.text {
						// a structured value; it has no text to compare
						nt.at(m).Set(reflect.Zero(nt.typ))
						break
					}
					accepted++
					g, err := m.GetTag(nt.key)
					if err != nil {
						return err
					}
					delete(want, nt.key)
					if g != "" {
						want[nt.key] = g
					}
					f := newModel(n.prefix)
					if err := f.SetTag(nt.key, g); g != "" && err != nil {
						return fmt.Errorf("tag %s (%s) set to %q reads as %q, which is rejected: %v", nt.key, nt.goTyp, s, g, err)
					}
					if r, _ := f.GetTag(nt.key); r != g {
						return fmt.Errorf("tag %s (%s) set to %q reads as %q, which reads as %q when set", nt.key, nt.goTyp, s, g, r)
					}
				}
				if err := n.checkTags(m, want); err != nil {
					return err
				}
			}
			tally("histories", n.name+" "+strings.Join(log, ", "), accepted > 1, n.name)
			return nil
		}); err != nil {
			rt.Fatalf("%s: %v", strings.Join(log, ", "), err)
		}
	})
}

func TestP19_Aliases(t *testing.T) {
	rule("aliases", "every ID3 v1 and v2.2 tag is set to the text of a valid value; it must read back through itself and through the v2.4 tag it stands for, and be supported exactly when that is; non-trivial: distinct tag and text")
	byKey := map[string]nativeTag{}
	for _, n := range nativeModels() {
		if n.prefix == "id3" {
			for _, nt := range n.tags {
				byKey[nt.key] = nt
			}
		}
	}
	var old []string
	names := map[string]string{}
	for k, v := range voc.Aliases {
		old = append(old, k)
		names[k] = v
	}
	// tags the table has no opinion on
	for _, l := range []map[string]string{id3.V11_TO_V24_TAGS, id3.V22_TO_V24_TAGS} {
		for k, v := range l {
			if names[k] == "" {
				old = append(old, k)
				names[k] = v
			}
		}
	}
	sort.Strings(old)
	for _, k := range old {
		k := k
		t.Run(k, func(t *testing.T) {
			check(t, 10, func(rt *rapid.T) {
				if err := try(func() error {
					nt, ok := byKey[names[k]]
					m := newModel("id3")
					if a, b := m.CanTag(k), m.CanTag(names[k]); a != b {
						return fmt.Errorf("tag %s is supported: %v, tag %s: %v", k, a, names[k], b)
					}
					if !ok || !nt.text {
						tally("aliases", k, false, "structured")
						return nil
					}
					_, s, ok := genNative(rt, nt, k)
					if !ok {
						return nil
					}
					tally("aliases", k+"="+s, true, nt.goTyp)
					if err := m.SetTag(k, s); err != nil {
						return fmt.Errorf("setting %s to %q: %v", k, s, err)
					}
					for _, x := range []string{k, names[k]} {
						if g, err := m.GetTag(x); err != nil || g != s {
							return fmt.Errorf("%s set to %q: %s is %q (%v)", k, s, x, g, err)
						}
					}
					return nil
				}); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		})
	}
}

func TestP19_Locale(t *testing.T) {
	rule("locale", "for every property of every model: random language entries are set by language and must read back, with all other languages unchanged; properties that are no language alternatives must be rejected without panic and without change; non-trivial: distinct histories on alternatives with at least two languages")
	type field struct {
		n  *nativeModel
		nt nativeTag
	}
	var alts, others []field
	for _, n := range nativeModels() {
		if n.prefix == "qt" {
			continue
		}
		for _, nt := range n.tags {
			if nt.typ == reflect.TypeOf(xmp.AltString{}) {
				alts = append(alts, field{n, nt})
			} else {
				others = append(others, field{n, nt})
			}
		}
	}
	check(t, 2000, func(rt *rapid.T) {
		if err := try(func() error {
			if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
				f := rapid.SampledFrom(others).Draw(rt, "field")
				m := newModel(f.n.prefix)
				tally("locale", f.n.prefix+" "+f.nt.key, false, "no alternative")
				before, err := written(m)
				if err != nil {
					return err
				}
				if err := xmp.SetLocaleField(m, "en", f.nt.key, "text"); err == nil {
					return fmt.Errorf("language entry accepted for %s %s (%s)", f.n.prefix, f.nt.key, f.nt.goTyp)
				}
				if _, err := xmp.GetLocaleField(m, "en", f.nt.key); err == nil {
					return fmt.Errorf("language entry read from %s %s (%s)", f.n.prefix, f.nt.key, f.nt.goTyp)
				}
				// some models have methods for this
				if x, ok := m.(interface {
					GetLocaleTag(string, string) (string, error)
					SetLocaleTag(string, string, string) error
				}); ok {
					for _, k := range []string{f.nt.key, "no such tag", ""} {
						if err := x.SetLocaleTag("en", k, "text"); err == nil {
							return fmt.Errorf("language entry accepted for tag %q of %s", k, f.n.prefix)
						}
						if _, err := x.GetLocaleTag("en", k); err == nil {
							return fmt.Errorf("language entry read from tag %q of %s", k, f.n.prefix)
						}
					}
				}
				if after, err := written(m); err != nil || after != before {
					return fmt.Errorf("rejected language entry for %s %s changes the document to %s (%v)", f.n.prefix, f.nt.key, after, err)
				}
				return nil
			}
			f := rapid.SampledFrom(alts).Draw(rt, "field")
			m := newModel(f.n.prefix)
			want := map[string]string{}
			var log []string
			for i, k := 0, rapid.IntRange(1, 5).Draw(rt, "n"); i < k; i++ {
				lang, v := rapid.SampledFrom(langTags).Draw(rt, "lang"), genText(rt, "value")
				if lang == "x-default" {
					continue
				}
				log = append(log, lang+"="+v)
				if err := xmp.SetLocaleField(m, lang, f.nt.key, v); err != nil {
					return err
				}
				want[lang] = v
				for l, v := range want {
					if g, err := xmp.GetLocaleField(m, l, f.nt.key); err != nil || g != v {
						return fmt.Errorf("%s %s after %q: %s is %q (%v), want %q", f.n.prefix, f.nt.key, log, l, g, err, v)
					}
				}
				if a := f.nt.at(m).Interface().(xmp.AltString); len(a) != len(want) {
					return fmt.Errorf("%s %s after %q: %v", f.n.prefix, f.nt.key, log, a)
				}
			}
			tally("locale", f.n.prefix+" "+f.nt.key+" "+strings.Join(log, ", "), len(want) > 1, f.n.prefix)
			return nil
		}); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}
