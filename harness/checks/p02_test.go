package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// readAllJSON reads a text as JSON; the result must be a document or an error.
func readAllJSON(b []byte) (accepted bool, err error) {
	defer guard(string(b))()
	d := &xmp.Document{}
	var first xmp.PathValueList
	err = try(func() error {
		e := json.Unmarshal(b, d)
		accepted = e == nil
		if !json.Valid(b) && accepted {
			return fmt.Errorf("text that is not JSON is accepted")
		}
		if accepted {
			first, _ = d.ListPaths()
		}
		return nil
	})
	if err != nil {
		return
	}
	// without the syntax check of encoding/json
	if err = try(func() error {
		d := xmp.NewDocument()
		defer d.Close()
		if e := d.UnmarshalJSON(b); (e == nil) != accepted {
			return fmt.Errorf("UnmarshalJSON: %v, although json.Unmarshal accepts: %v", e, accepted)
		}
		if accepted {
			return sameListing(d, first)
		}
		return nil
	}); err != nil {
		return
	}
	if accepted {
		if err = exercise(d); err != nil {
			return accepted, fmt.Errorf("using the accepted document: %v", err)
		}
	}
	err = try(func() error { d.Close(); return nil })
	return
}

// jsonName draws a member name.
func jsonName(t *rapid.T) string {
	if rapid.IntRange(0, 11).Draw(t, "odd name") == 0 {
		return rapid.SampledFrom([]string{"", ":", "a:", ":a", "a", "xml:lang", "rdf:value", "rdf:li", "rdf:Bag", "rdf:Alt", "rdf:Description", "value", "lang", "isDefault", "about", "x-default", "dc:title/x", "dc:subject[0]", "a:b:c", "é:ü", "a b:c", "<:>", "\u0000:x", "xmlns:a", "dc:", "nope:x"}).Draw(t, "name")
	}
	if rapid.Bool().Draw(t, "plain name") {
		return rapid.SampledFrom([]string{"a:b", "a:c", "b:a", "b:x", "dc:other"}).Draw(t, "name")
	}
	return hostileName(t, "name")
}

// jsonValue draws any JSON value.
func jsonValue(t *rapid.T, depth int) interface{} {
	k := rapid.IntRange(0, 11).Draw(t, "json kind")
	if depth <= 0 && k > 6 {
		k = 0
	}
	switch k {
	default:
		return hostileValue(t, "value")
	case 4:
		return json.Number(rapid.SampledFrom([]string{"0", "1", "-1", "1.5", "1e308", "-0", "1e-400", "123456789012345678901234567890", "0.1", "4294967296"}).Draw(t, "number"))
	case 5:
		return rapid.Bool().Draw(t, "bool")
	case 6:
		return nil
	case 7, 8:
		n := rapid.IntRange(0, 4).Draw(t, "len")
		l := make([]interface{}, n)
		for i := range l {
			if k == 8 {
				// items of a language alternative
				m := map[string]interface{}{}
				for _, f := range []string{"value", "lang", "isDefault"} {
					switch rapid.IntRange(0, 7).Draw(t, f) {
					case 0:
					case 1:
						m[f] = jsonValue(t, depth-1)
					default:
						m[f] = map[string]interface{}{"value": "v", "lang": "en", "isDefault": rapid.Bool().Draw(t, "default")}[f]
					}
				}
				l[i] = m
				continue
			}
			l[i] = jsonValue(t, depth-1)
		}
		return l
	case 9, 10, 11:
		return jsonObject(t, depth-1)
	}
}

func jsonObject(t *rapid.T, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "members"); i < n; i++ {
		m[jsonName(t)] = jsonValue(t, depth)
	}
	return m
}

// jsonDoc draws a document-like object.
func jsonDoc(t *rapid.T, depth int) map[string]interface{} {
	vocab()
	models := map[string]interface{}{}
	ns := map[string]interface{}{"a": "http://a.com/", "b": "http://b.com/"}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "models"); i < n; i++ {
		p := rapid.SampledFrom(append([]string{"a", "b", "a", "b", "a", "b", "a", "b", "", "rdf", "xml", "undeclared"}, vocabNs...)).Draw(t, "model")
		if len(p) > 1 {
			if x, err := xmp.GetNamespace(p); err == nil {
				ns[p] = x.GetURI()
			}
		}
		m := map[string]interface{}{}
		for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "props"); i < n; i++ {
			name := jsonName(t)
			if rapid.IntRange(0, 3).Draw(t, "own") > 0 {
				// a property of this namespace
				var l []string
				for _, v := range vocabTop {
					if strings.HasPrefix(v, p+":") {
						l = append(l, v)
					}
				}
				l = append(l, p+":x", p+":y")
				name = rapid.SampledFrom(l).Draw(t, "own name")
			}
			m[name] = jsonValue(t, depth)
		}
		models[p] = m
		if rapid.IntRange(0, 30).Draw(t, "other") == 0 {
			models[p] = jsonValue(t, depth)
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "declare") > 0 {
		b, _ := json.Marshal(models)
		for _, p := range vocabNs {
			if x, err := xmp.GetNamespace(p); err == nil && bytes.Contains(b, []byte(p+":")) {
				ns[p] = x.GetURI()
			}
		}
	}
	d := map[string]interface{}{"namespaces": ns, "models": models}
	switch rapid.IntRange(0, 20).Draw(t, "frame") {
	case 0:
		d["namespaces"] = jsonValue(t, 1)
	case 1:
		delete(d, "namespaces")
	case 2:
		ns[jsonName(t)] = hostileValue(t, "uri")
	case 3:
		d["about"] = jsonValue(t, 0)
	case 4:
		d["toolkit"] = jsonValue(t, 0)
	case 5:
		d["models"] = jsonValue(t, 1)
	case 6:
		ns["a"] = ns["b"]
	case 7:
		ns["dc"] = "http://a.com/"
	}
	return d
}

func TestP02_Trees(t *testing.T) {
	rule("trees", "random JSON documents in the shape of the JSON form, with names of all models and structures, odd names, values of any kind in any place, damaged language alternatives and frames; must be read or rejected, and be usable when read, without a panic; non-trivial: distinct accepted texts")
	check(t, 18000, func(rt *rapid.T) {
		b, err := json.Marshal(jsonDoc(rt, rapid.IntRange(0, 4).Draw(rt, "depth")))
		if err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		ok, err := readAllJSON(b)
		tally("trees", string(b), ok, map[bool]string{true: "accepted", false: "rejected"}[ok])
		if err != nil {
			rt.Fatalf("%v\n%s", err, b)
		}
	})
}

// breakJSON changes one place of a JSON tree.
func breakJSON(t *rapid.T, v interface{}) string {
	type place struct {
		m map[string]interface{}
		k string
		l []interface{}
		i int
	}
	var at []place
	var walk func(v interface{}, depth int)
	walk = func(v interface{}, depth int) {
		switch x := v.(type) {
		case map[string]interface{}:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if depth > 1 || rapid.IntRange(0, 9).Draw(t, "outer") == 0 {
					at = append(at, place{m: x, k: k})
				}
				walk(x[k], depth+1)
			}
		case []interface{}:
			for i := range x {
				at = append(at, place{l: x, i: i})
				walk(x[i], depth+1)
			}
		}
	}
	walk(v, 0)
	if len(at) == 0 {
		return "nothing"
	}
	p := rapid.SampledFrom(at).Draw(t, "place")
	get := func(p place) interface{} {
		if p.m != nil {
			return p.m[p.k]
		}
		return p.l[p.i]
	}
	set := func(v interface{}) {
		if p.m != nil {
			p.m[p.k] = v
		} else {
			p.l[p.i] = v
		}
	}
	old := get(p)
	switch rapid.IntRange(0, 7).Draw(t, "break") {
	case 0:
		set(jsonValue(t, 2))
		return "value"
	case 1:
		set([]interface{}{old})
		return "list"
	case 2:
		set(map[string]interface{}{jsonName(t): old})
		return "object"
	case 3:
		if p.m != nil {
			p.m[jsonName(t)] = old
			delete(p.m, p.k)
		}
		return "name"
	case 4:
		// the same tree in two places would be a cycle when nested
		b, _ := json.Marshal(get(rapid.SampledFrom(at).Draw(t, "other")))
		var c interface{}
		json.Unmarshal(b, &c)
		set(c)
		return "exchange"
	case 5:
		if x, ok := old.(map[string]interface{}); ok {
			x[jsonName(t)] = jsonValue(t, 1)
		} else {
			set(nil)
		}
		return "member"
	default:
		if s, ok := old.(string); ok {
			if rapid.Bool().Draw(t, "other value") || s == "" {
				set(hostileValue(t, "value"))
			} else {
				set(string(mutateBytes(t, []byte(s), nil, []string{"/", ":", ",", ";", "-", "0", "1", "f", " ", "9999999999999999999", ".", "|", "(", ")"})))
			}
			return "text"
		}
		set(hostileValue(t, "value"))
		return "simple"
	}
}

// jsonBase draws the JSON form of a document.
func jsonBase(t *rapid.T) ([]byte, error) {
	d := xmp.NewDocument()
	defer func() { d.Close() }()
	if rapid.Bool().Draw(t, "sample") {
		c := rapid.SampledFrom(corpusDocs).Draw(t, "doc")
		if len(c.text) < 20000 {
			if err := xmp.Unmarshal(c.text, d); err == nil {
				return json.Marshal(d)
			}
			d.Close()
			d = xmp.NewDocument()
		}
	}
	for _, p := range modelMix(t) {
		if _, err := d.AddModel(genModel(t, p, p)); err != nil {
			return nil, err
		}
	}
	d.SetDirty()
	return json.Marshal(d)
}

func TestP02_Typed(t *testing.T) {
	rule("typed", "the JSON form of documents with random typed content and of the samples, changed in one to three places (other kinds of values, extreme and damaged values, wrapped, renamed, exchanged); must be read or rejected, and be usable when read, without a panic; non-trivial: distinct accepted texts")
	corpus(t)
	check(t, 3500, func(rt *rapid.T) {
		var b []byte
		if err := try(func() (err error) { b, err = jsonBase(rt); return }); err != nil {
			rt.Fatalf("%v", err)
		}
		var v interface{}
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber()
		if err := dec.Decode(&v); err != nil {
			rt.Fatalf("%v\n%s", err, b)
		}
		var how []string
		for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "breaks"); i < n; i++ {
			how = append(how, breakJSON(rt, v))
		}
		b, err := json.Marshal(v)
		if err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		ok, err := readAllJSON(b)
		tally("typed", string(b), ok, append(how, map[bool]string{true: "accepted", false: "rejected"}[ok])...)
		if err != nil {
			rt.Fatalf("%v\n%s", err, b)
		}
	})
}

var jsonTokens = []string{"{", "}", "[", "]", ",", ":", "\"", "null", "true", "false", "0", "-1", "1e999", "{}", "[]", "\"\"", "\\u0000", "\\ud800", "\\", "\"models\":", "\"namespaces\":", "\"about\":", "\"dc\":", "\"dc:title\":", "\"rdf:value\":", "\xff", "\x00", "\xef\xbb\xbf", " ", "/*", "[[", "{\"a\":", "\"value\":", "\"lang\":\"x-default\"", "\"isDefault\":true"}

func TestP02_Bytes(t *testing.T) {
	corpus(t)
	rule("bytes", "byte-level mutants of JSON forms and of random JSON documents; must be read or rejected, and be usable when read, without a panic; non-trivial: distinct mutants that are accepted or longer than 100 bytes")
	check(t, 8000, func(rt *rapid.T) {
		var b []byte
		err := try(func() (err error) {
			if rapid.Bool().Draw(rt, "typed") {
				b, err = jsonBase(rt)
			} else {
				b, err = json.Marshal(jsonDoc(rt, 2))
			}
			return
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		b = mutateBytes(rt, b, b, jsonTokens)
		ok, err := readAllJSON(b)
		tally("bytes", string(b), ok || len(b) > 100, map[bool]string{true: "accepted", false: "rejected"}[ok])
		if err != nil {
			rt.Fatalf("%v\n%q", err, b)
		}
	})
}

func TestP02_Extent(t *testing.T) {
	rule("extent", "JSON documents that are large in one direction: nesting of lists, objects and both, many members, items, languages, models, namespaces, long names and values; sizes drawn, kinds enumerated; all non-trivial")
	frame := func(ns, models string) string {
		return `{"namespaces":{"a":"http://a.com/"` + ns + `},"models":{` + models + `}}`
	}
	rep := func(n int, sep string, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(f(i))
		}
		return b.String()
	}
	nest := func(open, mid, close string) func(int) string {
		return func(n int) string {
			return frame("", `"a":{"a:b":`+strings.Repeat(open, n)+mid+strings.Repeat(close, n)+"}")
		}
	}
	kinds := []struct {
		name string
		max  int
		f    func(n int) string
	}{
		{"nested objects", 2500, nest(`{"a:b":`, "1", "}")},
		{"nested lists", 2500, nest("[", "1", "]")},
		{"nested both", 1500, nest(`[{"a:b":`, "1", "}]")},
		{"nested items", 1500, nest(`[{"value":"1","lang":"","isDefault":`, "1", "}]")},
		{"far too deep", 500000, nest("[", "", "]")},
		{"open lists", 500000, func(n int) string { return strings.Repeat("[", n) }},
		{"open models", 100000, func(n int) string { return `{"models":` + strings.Repeat(`{"a":`, n) }},
		{"nested model lists", 2500, func(n int) string {
			return frame(`,"dc":"http://purl.org/dc/elements/1.1/"`, `"dc":{"dc:subject":`+strings.Repeat("[", n)+strings.Repeat("]", n)+"}")
		}},
		{"nested model structures", 2500, func(n int) string {
			return frame("", `"xmpMM":{"xmpMM:DerivedFrom":`+strings.Repeat(`{"stRef:instanceID":`, n)+"1"+strings.Repeat("}", n)+"}")
		}},
		{"nested pantry", 2000, func(n int) string {
			return frame("", `"xmpMM":{"xmpMM:Pantry":`+strings.Repeat(`[{"xmpMM:Pantry":`, n)+"[]"+strings.Repeat("}]", n)+"}")
		}},
		{"members", 5000, func(n int) string {
			return frame("", `"a":{`+rep(n, ",", func(i int) string { return fmt.Sprintf(`"a:p%d":%d`, i, i) })+"}")
		}},
		{"items", 20000, func(n int) string {
			return frame("", `"a":{"a:b":[`+rep(n, ",", func(i int) string { return "\"x\"" })+"]}")
		}},
		{"languages", 3000, func(n int) string {
			return frame("", `"dc":{"dc:title":[`+rep(n, ",", func(i int) string { return fmt.Sprintf(`{"value":"x","lang":"l%d","isDefault":false}`, i) })+"]}")
		}},
		{"namespaces", 2000, func(n int) string {
			return frame(rep(n, "", func(i int) string { return fmt.Sprintf(`,"p%d":"http://p%d/"`, i, i) }), rep(n, ",", func(i int) string { return fmt.Sprintf(`"p%d":{"p%d:x":"1"}`, i, i) }))
		}},
		{"long name", 200000, func(n int) string { return frame("", `"a":{"a:`+strings.Repeat("n", n)+`":"x"}`) }},
		{"long value", 1000000, func(n int) string {
			return frame("", `"dc":{"dc:format":"`+strings.Repeat("v", n)+`"}`)
		}},
		{"repeated members", 20000, func(n int) string {
			return frame("", `"a":{`+rep(n, ",", func(i int) string { return `"a:p":1` })+"}")
		}},
		{"spaces", 500000, func(n int) string { return strings.Repeat(" ", n) + frame("", "") }},
	}
	check(t, 70, func(rt *rapid.T) {
		k := rapid.SampledFrom(kinds).Draw(rt, "kind")
		n := rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(30, 140), rapid.IntRange(1, k.max), rapid.Just(k.max)).Draw(rt, "n")
		if rapid.IntRange(0, 3).Draw(rt, "scaled") > 0 && n > 3000 {
			n = n % 3000
		}
		s := k.f(n)
		ok, err := readAllJSON([]byte(s))
		tally("extent", fmt.Sprint(k.name, " ", n), true, k.name+map[bool]string{true: " accepted", false: " rejected"}[ok])
		if err != nil {
			rt.Fatalf("%s %d: %v", k.name, n, err)
		}
	})
}
