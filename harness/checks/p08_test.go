package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// rawListing lists the properties of a document as they are stored, without
// synchronising models first.
func rawListing(d *xmp.Document) (map[string]string, error) {
	m := map[string]string{}
	add := func(l xmp.PathValueList) {
		for _, v := range l {
			if p := string(v.Path); strings.HasPrefix(p, "exif:Flash/") && (v.Value == "False" || v.Value == "0") ||
				strings.HasPrefix(p, "tiff:YCbCrSubSampling[") && v.Value == "0" {
				continue // listed or not depending on their neighbours
			}
			if _, ok := m[string(v.Path)]; !ok {
				m[string(v.Path)] = v.Value
			}
		}
	}
	for _, n := range d.Nodes() {
		if n.Model != nil {
			l, err := xmp.ListModelPaths(n.Model)
			if err != nil {
				return nil, err
			}
			always := alwaysListed(n.Model)
			for _, v := range l {
				if a, ok := always[string(v.Path)]; !ok || a != v.Value {
					add(xmp.PathValueList{v})
				}
			}
		}
		l, err := n.ListPaths(xmp.NewPath(n.Name()))
		if err != nil {
			return nil, err
		}
		add(l)
	}
	return m, nil
}

var alwaysCache = map[reflect.Type]map[string]string{}

// alwaysListed returns the properties a model lists even when they are not
// set, with the value they have then.
func alwaysListed(m xmp.Model) map[string]string {
	typ := reflect.TypeOf(m)
	a, ok := alwaysCache[typ]
	if !ok {
		a = map[string]string{}
		l, _ := xmp.ListModelPaths(newModel(m.Namespaces()[0].GetName()))
		for _, v := range l {
			a[string(v.Path)] = v.Value
		}
		alwaysCache[typ] = a
	}
	return a
}

// foreignTo tells whether model p keeps properties from the namespaces of q.
func foreignTo(p, q string) bool {
	m := newModel(p)
	n := newModel(q)
	for _, f := range modelFields(p) {
		if ns := f.nsPrefix(); ns != "" && !m.Can(ns) && n.Can(ns) {
			return true
		}
	}
	return false
}

// separateModels draws models such that no property belongs to two of them.
func separateModels(t *rapid.T, n int) []string {
	var l []string
next:
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom(modelPrefixes()).Draw(t, "model")
		for _, q := range l {
			if p == q || foreignTo(p, q) || foreignTo(q, p) {
				continue next
			}
		}
		l = append(l, p)
	}
	return l
}

// editDoc is a document under edit together with the content it must have.
type editDoc struct {
	d      *xmp.Document
	models []string
	state  map[string]string
	log    []string
}

const (
	scalarTarget = "scalar"
	listTarget   = "list"
	itemTarget   = "item"
	altTarget    = "alternative"
	langTarget   = "language"
)

// target is a path write to be tried.
type target struct {
	path     string
	kind     string
	value    string // a valid value
	modelled bool
}

func base(path string) string { return path[:strings.LastIndexByte(path, '[')] }

// lastIndex splits the index from the last segment of a path.
func lastIndex(path string) (idx string, ok bool) {
	i := strings.LastIndexByte(path, '[')
	if i < 0 || !strings.HasSuffix(path, "]") {
		return "", false
	}
	return path[i+1 : len(path)-1], true
}

func kindOf(path string) string {
	idx, ok := lastIndex(path)
	if !ok {
		return scalarTarget
	}
	if _, err := strconv.Atoi(idx); err == nil {
		return itemTarget
	}
	return langTarget
}

// items returns the length of a list by its listed items.
func items(state map[string]string, list string) int {
	n := 0
	for k := range state {
		if !strings.HasPrefix(k, list+"[") {
			continue
		}
		s := k[len(list)+1:]
		end := strings.IndexByte(s, ']')
		if end < 0 {
			continue
		}
		i, err := strconv.Atoi(s[:end])
		if err == nil && i >= n {
			n = i + 1
		}
	}
	return n
}

// children returns the listed paths at or below a path.
func children(state map[string]string, path string) (l []string) {
	for k := range state {
		if k == path || strings.HasPrefix(k, path+"[") || strings.HasPrefix(k, path+"/") {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return
}

// fixedArray tells whether a field holds lists of fixed size anywhere.
func fixedArray(typ reflect.Type, depth int) bool {
	switch typ.Kind() {
	case reflect.Array:
		return true
	case reflect.Ptr, reflect.Slice:
		return fixedArray(typ.Elem(), depth)
	case reflect.Struct:
		for i := 0; i < typ.NumField() && depth > 0; i++ {
			if fixedArray(typ.Field(i).Type, depth-1) {
				return true
			}
		}
	}
	return false
}

// donate returns paths with valid values for a property, taken from the
// listing of a document that holds just a random value of the property.
func donate(t *rapid.T, f modelField) (l []target, err error) {
	v, ok := genField(t, f, f.goName)
	if !ok || fixedArray(f.typ, 4) {
		return nil, nil
	}
	m := newModel(f.prefix)
	setField(m, f, v)
	pl, err := xmp.ListModelPaths(m)
	if err != nil {
		return nil, err
	}
	for _, pv := range pl {
		p := string(pv.Path)
		if strings.HasPrefix(p, "exif:Flash/") && (pv.Value == "False" || pv.Value == "0") {
			continue
		}
		if _, always := alwaysListed(m)[p]; always && !strings.HasPrefix(p, f.tag.name) || always && pv.Value == alwaysListed(m)[p] {
			continue
		}
		if i := strings.IndexByte(p, ':'); i > 0 && m.Can(p[:i]) {
			l = append(l, target{path: p, kind: kindOf(p), value: pv.Value, modelled: true})
		}
	}
	return l, nil
}

var editNs = [][2]string{{"edita", "http://example.com/edit/a/"}, {"editb", "urn:edit:b#"}, {"editc", "http://example.com/c"}, {"dc", "http://purl.org/dc/elements/1.1/"}, {"xmpDM", "http://ns.adobe.com/xmp/1.0/DynamicMedia/"}}

func editURI(path string) string {
	for _, v := range editNs {
		if strings.HasPrefix(path, v[0]+":") {
			return v[1]
		}
	}
	return ""
}

// genUnknownTarget draws a path that no model knows. The name of a property
// tells what it holds, so that paths of one document fit together.
func genUnknownTarget(t *rapid.T) target {
	ns := rapid.SampledFrom(editNs).Draw(t, "ns")[0]
	n := strconv.Itoa(rapid.IntRange(0, 1).Draw(t, "n"))
	idx := func(l string) string { return "[" + strconv.Itoa(rapid.IntRange(0, 3).Draw(t, l)) + "]" }
	lang := func(l string) string {
		return "[" + rapid.SampledFrom([]string{"en", "de-CH", "x-default"}).Draw(t, l) + "]"
	}
	tg := target{kind: scalarTarget, value: genText(t, "value")}
	p := ns + ":"
	if ns == "dc" || ns == "xmpDM" {
		n = "X" + n
	}
	switch rapid.IntRange(0, 7).Draw(t, "shape") {
	case 0, 1:
		p += "text" + n
	case 2:
		p += "list" + n + idx("i")
		tg.kind = itemTarget
	case 3:
		p += "alt" + n + lang("l")
		tg.kind = langTarget
	case 4:
		f := rapid.SampledFrom([]string{"a", "b", "editc:c", "tiff:Make"}).Draw(t, "field")
		p += "struct" + n + "/" + strings.TrimPrefix(f, p)
	case 5:
		p += "struct" + n + "/list" + idx("i")
		tg.kind = itemTarget
	case 6:
		p += "structs" + n + idx("i") + "/a"
	case 7:
		p += "struct" + n + "/alt" + lang("l")
		tg.kind = langTarget
	}
	tg.path = p
	return tg
}

// newEditDoc builds a document of several models and unknown properties.
func newEditDoc(t *rapid.T) (*editDoc, error) {
	e := &editDoc{d: xmp.NewDocument(), models: separateModels(t, 6)}
	for i, p := range e.models {
		if i < 3 {
			if _, err := e.d.AddModel(genModel(t, p, p)); err != nil {
				return e, err
			}
		}
	}
	// a namespace for nested names
	if err := e.d.SetPath(xmp.PathValue{Path: "editc:", Namespace: editURI("editc:"), Value: "-", Flags: xmp.CREATE}); err != nil {
		return e, err
	}
	var err error
	e.state, err = rawListing(e.d)
	return e, err
}

// genTarget draws a path to write and a valid value for it.
func (e *editDoc) genTarget(t *rapid.T) (tg target, err error) {
	if len(e.models) == 0 || rapid.IntRange(0, 3).Draw(t, "unknown") == 0 {
		tg = genUnknownTarget(t)
	} else {
		fs := modelFields(rapid.SampledFrom(e.models).Draw(t, "target.model"))
		var l []target
		for i := 0; i < 5 && len(l) == 0; i++ {
			// prefer properties that have a value
			f := fs[rapid.IntRange(0, len(fs)-1).Draw(t, "target.field")]
			for j := 0; j < 20 && rapid.Bool().Draw(t, "target.set"); j++ {
				if len(children(e.state, f.tag.name)) > 0 {
					break
				}
				f = fs[rapid.IntRange(0, len(fs)-1).Draw(t, "target.field")]
			}
			if l, err = donate(t, f); err != nil {
				return
			}
		}
		if len(l) == 0 {
			return genUnknownTarget(t), nil
		}
		tg = l[rapid.IntRange(0, len(l)-1).Draw(t, "target.path")]
	}
	switch tg.kind {
	case itemTarget:
		b := base(tg.path)
		n := items(e.state, b)
		if strings.HasSuffix(b, "/") { // list of lists
			return
		}
		switch rapid.IntRange(0, 2).Draw(t, "item") {
		case 0:
			tg.path, tg.kind = b, listTarget
		case 1:
			tg.path = b + "[" + strconv.Itoa(rapid.IntRange(0, n+1).Draw(t, "index")) + "]"
		}
		if n > 0 && rapid.IntRange(0, 3).Draw(t, "present") == 0 {
			// a value the list has already
			if v, ok := e.state[fmt.Sprintf("%s[%d]", b, rapid.IntRange(0, n-1).Draw(t, "which"))]; ok {
				tg.value = v
			}
		}
	case langTarget:
		if strings.HasSuffix(base(tg.path), "/") { // list of alternatives
			return
		}
		switch rapid.IntRange(0, 2).Draw(t, "lang") {
		case 0:
			tg.path, tg.kind = base(tg.path), altTarget
		case 1:
			if l := children(e.state, base(tg.path)); len(l) > 0 {
				tg.path = l[rapid.IntRange(0, len(l)-1).Draw(t, "which")]
			}
		}
	}
	if cur := e.get(tg.path); cur != "" && (!tg.modelled || textPath(tg.path)) && rapid.IntRange(0, 5).Draw(t, "near") == 0 {
		// a value which is almost the present one
		v := cur
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			v = strings.ToUpper(cur)
		case 1:
			v = strings.ToLower(cur)
		case 2:
			v = cur + "a"
		case 3:
			v = "a" + cur
		}
		if v != cur && strings.TrimSpace(v) == v && v != alwaysListed(modelFor(e.d, tg.path))[tg.path] {
			tg.value = v
		}
	}
	return
}

var textPaths = map[string]map[string]bool{}

// textPath tells whether a path of a model holds any text.
func textPath(p string) bool {
	prefix := p[:strings.IndexByte(p, ':')]
	m := textPaths[prefix]
	if m == nil {
		m = map[string]bool{}
		for _, s := range textSources(prefix) {
			if f := strings.TrimSuffix(strings.TrimSuffix(s, "]"), "[0"); f != "" {
				m[topOf(f)] = true
			}
		}
		textPaths[prefix] = m
	}
	return m[topOf(p)]
}

// outcome of a write according to the documentation of the update flags.
type outcome struct {
	alts  []map[string]string // other possible states when any is set
	state map[string]string
	err   bool // must fail
	any   bool // may fail or not
}

func cloneMap(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// write predicts the effect of writing a path. cur is what the path reads as.
func (e *editDoc) write(tg target, value string, flags xmp.SyncFlags, cur string) outcome {
	o := e.write1(tg, value, flags, cur)
	if _, always := alwaysListed(modelFor(e.d, tg.path))[tg.path]; e.state[tg.path] == "" && always {
		// a property that is always there: writing it is replacing
		o = e.write1(tg, value, flags|xmp.CREATE, "")
		if value == "" {
			o.any = true
			o.state = e.state
		} else if flags&xmp.REPLACE == 0 || flags&xmp.CREATE == 0 && flags != 0 {
			o.any, o.alts = true, []map[string]string{e.state}
		}
		return o
	}
	if flags&xmp.CREATE == 0 && flags&(xmp.APPEND|xmp.UNIQUE) > 0 && value != "" && cur == "" && !o.any {
		// appending to something missing may be creating it
		c := e.write1(tg, value, flags|xmp.CREATE, cur)
		o = outcome{any: true, state: e.state, alts: append(c.alts, c.state)}
		if c.state == nil {
			o.state = nil
		}
	}
	return o
}

func (e *editDoc) write1(tg target, value string, flags xmp.SyncFlags, cur string) outcome {
	if flags == 0 {
		flags = xmp.DEFAULT
	}
	s := e.state
	has := func(f xmp.SyncFlags) bool { return flags&f != 0 }
	refuse := outcome{state: s, err: true}
	keep := outcome{state: s}
	either := outcome{state: s, any: true}
	set := func(del []string, path, v string) outcome {
		n := cloneMap(s)
		for _, k := range del {
			delete(n, k)
		}
		if v != "" {
			n[path] = v
		}
		return outcome{state: n}
	}
	if value == "" && !has(xmp.DELETE) {
		return refuse
	}
	switch tg.kind {
	case scalarTarget, langTarget:
		get := cur
		cur := s[tg.path]
		switch {
		case value == cur:
			return keep
		case cur == "" && get != "" && value != "" && tg.kind == langTarget:
			// the default entry has a language
			if get == value {
				return keep
			}
			if !has(xmp.REPLACE) || !has(xmp.CREATE) {
				return outcome{any: true}
			}
		case value == "":
			return set([]string{tg.path}, "", "")
		case cur == "" && get != "" && value != get:
			// an unset property that is always written as its zero value
			r := set(nil, tg.path, value)
			r.any, r.alts = true, []map[string]string{s}
			return r
		case cur == "" && !has(xmp.CREATE):
			return refuse
		case cur != "" && !has(xmp.REPLACE):
			return refuse
		case cur == "" && !tg.modelled && tg.kind == scalarTarget && has(xmp.APPEND):
			// appending makes a new property of unknown type a list
			return set(nil, tg.path+"[0]", value)
		}
		return set(nil, tg.path, value)

	case itemTarget:
		b := base(tg.path)
		is, _ := lastIndex(tg.path)
		idx, _ := strconv.Atoi(is)
		n := items(s, b)
		cur := s[tg.path]
		switch {
		case value == cur:
			return keep
		case value == "":
			// the items behind move up
			r := cloneMap(s)
			for k := range s {
				if strings.HasPrefix(k, tg.path) {
					delete(r, k)
				}
			}
			for i := idx + 1; i < n; i++ {
				from, to := fmt.Sprintf("%s[%d]", b, i), fmt.Sprintf("%s[%d]", b, i-1)
				for _, k := range children(s, from) {
					delete(r, k)
				}
				for _, k := range children(s, from) {
					r[to+k[len(from):]] = s[k]
				}
			}
			return outcome{state: r}
		case cur == "" && !has(xmp.CREATE):
			return refuse
		case cur == "" || has(xmp.REPLACE):
			return set(nil, tg.path, value)
		}
		o := e.extend(b, value, flags, refuse, either)
		if !has(xmp.CREATE) && !o.err {
			// without create flag an indexed item may as well be left alone
			o.any, o.alts = true, []map[string]string{s}
		}
		return o

	case listTarget:
		l := children(s, tg.path)
		switch {
		case value == "":
			return set(l, "", "")
		case value == cur:
			return keep
		case !tg.modelled && len(l) == 0 && !has(xmp.APPEND):
			// nothing makes this property a list
			if !has(xmp.CREATE) {
				return refuse
			}
			return set(nil, tg.path, value)
		case has(xmp.UNIQUE | xmp.APPEND):
			if len(l) == 0 && !has(xmp.CREATE) {
				return refuse
			}
			return e.extend(tg.path, value, flags, refuse, either)
		case len(l) == 0 && !has(xmp.CREATE):
			return refuse
		case len(l) > 0 && !has(xmp.REPLACE):
			return refuse
		}
		return set(l, tg.path+"[0]", value)

	case altTarget:
		l := children(s, tg.path)
		switch {
		case value == "":
			return set(l, "", "")
		case value == cur:
			return keep
		case !tg.modelled && len(l) == 0:
			if !has(xmp.CREATE) {
				return refuse
			}
			return outcome{any: true}
		case has(xmp.UNIQUE|xmp.APPEND) && len(l) > 0:
			// the default entry, other languages are kept
			if cur != "" && !has(xmp.REPLACE) {
				return refuse
			}
			o := set(nil, tg.path+"[x-default]", value)
			for _, k := range l {
				if !tg.modelled && s[k] == cur {
					// the language entry that is the default may be replaced
					o.alts = append(o.alts, set(nil, k, value).state)
				}
			}
			return o
		case len(l) == 0 && !has(xmp.CREATE):
			return refuse
		case len(l) > 0 && !has(xmp.REPLACE):
			return refuse
		}
		return set(l, tg.path+"[x-default]", value)
	}
	panic(tg.kind)
}

// extend predicts appending to a list.
func (e *editDoc) extend(list, value string, flags xmp.SyncFlags, refuse, either outcome) outcome {
	n := items(e.state, list)
	if flags&xmp.UNIQUE > 0 {
		for i := 0; i < n; i++ {
			if e.state[fmt.Sprintf("%s[%d]", list, i)] == value {
				return either
			}
		}
	} else if flags&xmp.APPEND == 0 {
		return refuse
	}
	r := cloneMap(e.state)
	r[fmt.Sprintf("%s[%d]", list, n)] = value
	return outcome{state: r}
}

// apply writes a path and checks the effect.
func (e *editDoc) apply(tg target, value string, flags xmp.SyncFlags) error {
	pv := xmp.PathValue{Path: xmp.Path(tg.path), Value: value, Flags: flags}
	if !tg.modelled {
		pv.Namespace = editURI(tg.path)
	}
	cur, _ := e.d.GetPath(pv.Path)
	want := e.write(tg, value, flags, cur)
	e.log = append(e.log, fmt.Sprintf("SetPath(%s, %q, %s)", tg.path, value, flagText(flags)))
	// a missing namespace is reported as error
	missing := len(pathsOf(e.state, tg.path)) == 0
	if tg.kind != scalarTarget {
		b := tg.path
		if tg.kind == itemTarget || tg.kind == langTarget {
			b = base(b)
		}
		for _, k := range children(e.state, b) {
			e.log[len(e.log)-1] += fmt.Sprintf(" {%s %q}", k, e.state[k])
		}
	}
	err := e.d.SetPath(pv)
	got, lerr := rawListing(e.d)
	if lerr != nil {
		return fmt.Errorf("listing: %v", lerr)
	}
	if want.state == nil { // not determined
		if err != nil {
			want.state = e.state
		} else {
			want.state = got
		}
	}
	if is, ok := lastIndex(tg.path); ok && tg.modelled && tg.kind == itemTarget && err == nil {
		// items between the end of a list and a new item have the zero value
		b := base(tg.path)
		idx, _ := strconv.Atoi(is)
		for i := items(e.state, b); i < idx; i++ {
			k := fmt.Sprintf("%s[%d]", b, i)
			for _, a := range append([]map[string]string{want.state}, want.alts...) {
				if a[tg.path] != "" && a[k] == "" && got[k] != "" {
					a[k] = got[k]
				}
			}
		}
	}
	s := diffMaps(want.state, got)
	for _, a := range want.alts {
		if a != nil && diffMaps(a, got) == "" {
			s = ""
		}
	}
	if s != "" {
		return fmt.Errorf("%s (error: %v) changed the document in another way than its flags say:\n  %s", e.log[len(e.log)-1], err, s)
	}
	failed := err != nil
	switch {
	case flags&xmp.NOFAIL > 0 && failed && !missing && flags != 0:
		return fmt.Errorf("%s fails although failing is off: %v", e.log[len(e.log)-1], err)
	case flags&xmp.NOFAIL > 0 || want.any:
	case want.err && !failed && !(missing && value == ""):
		return fmt.Errorf("%s must fail and did not", e.log[len(e.log)-1])
	case !want.err && failed:
		return fmt.Errorf("%s must not fail: %v", e.log[len(e.log)-1], err)
	}
	e.state = got
	return nil
}

// pathsOf returns the listed paths with the namespace of a path.
func pathsOf(state map[string]string, path string) (l []string) {
	for k := range state {
		if strings.HasPrefix(k, path[:strings.IndexByte(path, ':')+1]) {
			l = append(l, k)
		}
	}
	return
}

func flagText(f xmp.SyncFlags) string {
	var l []string
	for _, v := range []struct {
		f xmp.SyncFlags
		s string
	}{{xmp.CREATE, "CREATE"}, {xmp.REPLACE, "REPLACE"}, {xmp.DELETE, "DELETE"}, {xmp.APPEND, "APPEND"}, {xmp.UNIQUE, "UNIQUE"}, {xmp.NOFAIL, "NOFAIL"}} {
		if f&v.f > 0 {
			l = append(l, v.s)
		}
	}
	if f == 0 {
		return "0"
	}
	return strings.Join(l, "|")
}

// checkSet writes a value with permissive flags, reads it back, writes it
// again and, when del is set, deletes it.
func (e *editDoc) checkSet(tg target, del bool) error {
	const write = xmp.CREATE | xmp.REPLACE | xmp.DELETE
	if err := e.apply(tg, tg.value, write); err != nil {
		return err
	}
	if v, err := e.d.GetPath(xmp.Path(tg.path)); err != nil || v != tg.value {
		return fmt.Errorf("%s: %s reads as %q, %v", e.log[len(e.log)-1], tg.path, v, err)
	}
	before := cloneMap(e.state)
	for _, f := range []xmp.SyncFlags{write, xmp.DEFAULT} {
		if err := e.apply(tg, tg.value, f); err != nil {
			return fmt.Errorf("again: %v", err)
		}
		if s := diffMaps(before, e.state); s != "" {
			return fmt.Errorf("setting the same value again changes the document:\n  %s", s)
		}
	}
	if !del {
		return nil
	}
	n := 0
	if tg.kind == itemTarget {
		n = items(e.state, base(tg.path))
	}
	if err := e.apply(tg, "", write); err != nil {
		return err
	}
	v, _ := e.d.GetPath(xmp.Path(tg.path))
	switch tg.kind {
	case itemTarget:
		// the next item moves up
		if is, _ := lastIndex(tg.path); is == strconv.Itoa(n-1) && v != "" {
			return fmt.Errorf("%s: %s reads as %q after deleting the last item", e.log[len(e.log)-1], tg.path, v)
		}
	case langTarget:
		// the default falls back to another entry
		if v != "" && !strings.HasSuffix(tg.path, "[x-default]") {
			return fmt.Errorf("%s: %s reads as %q", e.log[len(e.log)-1], tg.path, v)
		}
	default:
		if v != "" && !strings.HasPrefix(tg.path, "exif:Flash/") && v != alwaysListed(modelFor(e.d, tg.path))[tg.path] {
			return fmt.Errorf("%s: %s reads as %q", e.log[len(e.log)-1], tg.path, v)
		}
	}
	return nil
}

func TestP08_Fields(t *testing.T) {
	rule("fields", "every property of every bundled model: each path of a random value is set in an otherwise filled document, read back, set again and deleted; all other paths must keep their values (list items behind a deleted one move up); non-trivial: distinct (path, value) in a document with other content")
	for _, p := range modelPrefixes() {
		for _, f := range modelFields(p) {
			f := f
			t.Run(f.String(), func(t *testing.T) {
				check(t, 8, func(rt *rapid.T) {
					err := try(func() error {
						e := &editDoc{d: xmp.NewDocument()}
						defer e.d.Close()
						for _, q := range []string{f.prefix, rapid.SampledFrom(modelPrefixes()).Draw(rt, "other")} {
							if q != f.prefix && (foreignTo(q, f.prefix) || foreignTo(f.prefix, q)) || q == f.prefix && rapid.Bool().Draw(rt, "empty") {
								continue
							}
							if e.d.FindModel(mustNs(q)) == nil {
								if _, err := e.d.AddModel(genModel(rt, q, q)); err != nil {
									return err
								}
							}
						}
						var err error
						if e.state, err = rawListing(e.d); err != nil {
							return err
						}
						l, err := donate(rt, f)
						if err != nil {
							return err
						}
						if len(l) == 0 {
							excluded("properties without listed value: " + f.String())
						}
						for _, tg := range l {
							tally("fields", tg.path+"="+tg.value, len(e.state) > 0, tg.kind, f.prefix)
							if err := e.checkSet(tg, rapid.Bool().Draw(rt, "delete")); err != nil {
								return fmt.Errorf("%v\n%s", err, strings.Join(e.log, "\n"))
							}
						}
						return nil
					})
					if err != nil {
						rt.Fatalf("%s\n%v", f, err)
					}
				})
			})
		}
	}
}

// modelFor returns a model that holds the namespace of a path.
func modelFor(d *xmp.Document, path string) xmp.Model {
	if ns, _ := xmp.Path(path).Namespace(d); ns != nil {
		if m := d.FindModel(ns); m != nil {
			return m
		}
		if m := ns.NewModel(); m != nil {
			return m
		}
	}
	return newModel("dc")
}

func mustNs(prefix string) *xmp.Namespace {
	ns, err := xmp.GetNamespace(prefix)
	if err != nil {
		panic(err)
	}
	return ns
}

func TestP08_Histories(t *testing.T) {
	rule("histories", "sequences of 1..12 path writes (scalars, whole lists, list items inside and beyond the end, language entries, nested fields; of models and of unknown namespaces) with permissive flags in documents of several models; non-trivial: distinct histories with at least two writes to the same property or two kinds of paths")
	check(t, 3000, func(rt *rapid.T) {
		var e *editDoc
		err := try(func() (err error) {
			e, err = newEditDoc(rt)
			if err != nil {
				return err
			}
			kinds := map[string]bool{}
			n := rapid.IntRange(1, 12).Draw(rt, "writes")
			for i := 0; i < n; i++ {
				tg, err := e.genTarget(rt)
				if err != nil {
					return err
				}
				if tg.value == "" || !tg.modelled && (tg.kind == listTarget || tg.kind == altTarget) && len(children(e.state, tg.path)) == 0 {
					continue
				}
				kinds[tg.kind] = true
				if err := e.checkSet(tg, rapid.IntRange(0, 2).Draw(rt, "delete") == 0); err != nil {
					return err
				}
			}
			var l []string
			for k := range kinds {
				l = append(l, k)
			}
			tally("histories", strings.Join(e.log, ";"), len(l) > 1 || len(e.log) > 4, l...)
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(e.log, "\n"))
		}
		e.d.Close()
	})
}

// topOf returns the first segment of a path without index.
func topOf(path string) string {
	i := strings.IndexByte(path, ':')
	if i < 0 {
		return path
	}
	rest := path[i+1:]
	if j := strings.IndexAny(rest, "/["); j >= 0 {
		rest = rest[:j]
	}
	return path[:i+1] + rest
}

func TestP08_Odd(t *testing.T) {
	rule("odd", "writes to paths that do not fit what the document holds (an index on a single value, a language on a list, a field of a text, missing or doubled segments, negative and huge indexes): the write must either fail and change nothing, or be readable; properties with another name are never touched; non-trivial: distinct (listing, path)")
	check(t, 3000, func(rt *rapid.T) {
		var e *editDoc
		err := try(func() (err error) {
			if e, err = newEditDoc(rt); err != nil {
				return err
			}
			n := rapid.IntRange(1, 6).Draw(rt, "writes")
			for i := 0; i < n; i++ {
				tg, err := e.genTarget(rt)
				if err != nil {
					return err
				}
				p := tg.path
				switch rapid.IntRange(0, 12).Draw(rt, "odd") {
				case 0:
					p += "[" + rapid.SampledFrom([]string{"0", "1", "-1", "99", "1048576", "99999999999999999999", "", "x-default", "en", "-"}).Draw(rt, "index") + "]"
				case 1:
					p += "/" + rapid.SampledFrom([]string{"a", "dc:title", "rdf:value", "[0]", "", "a/b/c", "stDim:w"}).Draw(rt, "field")
				case 2:
					p = strings.Replace(p, "/", "//", 1)
				case 3:
					p = topOf(p)
				case 4:
					p = topOf(p) + "[0]/" + rapid.SampledFrom([]string{"a", "stEvt:action", "[1]"}).Draw(rt, "field")
				case 5:
					p = strings.Replace(p, "[", "[[", 1)
				case 6:
					p = strings.TrimSuffix(p, "]")
				case 7:
					if l := children(e.state, topOf(p)); len(l) > 0 {
						p = l[len(l)-1] + "/x"
					}
				case 8:
					p = strings.Replace(p, ":", ":/", 1)
				case 9:
					p += rapid.SampledFrom([]string{" ", "]", "[", "/", "é", "?"}).Draw(rt, "suffix")
				}
				v := tg.value
				if rapid.IntRange(0, 3).Draw(rt, "delete") == 0 {
					v = ""
				}
				pv := xmp.PathValue{Path: xmp.Path(p), Value: v, Flags: xmp.SyncFlags(rapid.IntRange(0, 31).Draw(rt, "flags")), Namespace: editURI(p)}
				e.log = append(e.log, fmt.Sprintf("SetPath(%q, %q, %s)", p, v, flagText(pv.Flags)))
				tally("odd", fmt.Sprint(e.state, p), p != tg.path, tg.kind)
				err = e.d.SetPath(pv)
				got, lerr := rawListing(e.d)
				if lerr != nil {
					return fmt.Errorf("listing: %v", lerr)
				}
				if err != nil {
					if s := diffMaps(e.state, got); s != "" {
						return fmt.Errorf("%s failed (%v) and changed the document:\n  %s", e.log[len(e.log)-1], err, s)
					}
				}
				before, after := map[string]string{}, map[string]string{}
				for k, v := range e.state {
					if k := strings.Replace(k, ":/", ":", 1); topOf(k) != topOf(strings.Replace(p, ":/", ":", 1)) {
						before[k] = v
					}
				}
				for k, v := range got {
					if k := strings.Replace(k, ":/", ":", 1); topOf(k) != topOf(strings.Replace(p, ":/", ":", 1)) {
						after[k] = v
					}
				}
				for _, m := range []map[string]string{before, after} {
					// fields for unknown names hold any name of their namespace
					for k := range m {
						if strings.Contains(strings.ToLower(k), "extension") {
							delete(m, k)
						}
					}
				}
				if s := diffMaps(before, after); s != "" && topOf(p) != p[:strings.IndexByte(p, ':')+1] {
					return fmt.Errorf("%s (error: %v) changed other properties:\n  %s", e.log[len(e.log)-1], err, s)
				}
				e.state = got
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(e.log, "\n"))
		}
		e.d.Close()
	})
}
