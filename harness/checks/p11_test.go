package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

var itemPath = regexp.MustCompile(`^(.*)\[(\d+)\]$`)

// shapes tells for every node on the paths of a listing what it holds.
func shapes(l map[string]string) map[string]string {
	m := map[string]string{}
	for p := range l {
		for i := 0; i < len(p); i++ {
			switch p[i] {
			case '/':
				m[p[:i]] = "struct"
			case '[':
				if i > 0 && p[i-1] == '/' {
					break
				}
				if i+1 < len(p) && p[i+1] >= '0' && p[i+1] <= '9' {
					m[p[:i]] = "list"
				} else {
					m[p[:i]] = "alt"
				}
			}
		}
		m[p] = "value"
	}
	return m
}

// checkMerged compares a document merged from dst and src with what the
// policy promises.
func checkMerged(dst, src, got, always map[string]string, extend bool) error {
	// properties of different type in both documents are only kept
	ds, ss := shapes(dst), shapes(src)
	conflict := map[string]bool{}
	for p, k := range ss {
		if d, ok := ds[p]; ok && d != k {
			conflict[topOf(p)] = true
		}
	}
	type group struct{ dst, src []string }
	lists := map[string]bool{}
	allowed := map[string][]string{}
	noDefault := func(l map[string]string, alt string) bool {
		_, ok := l[alt+"[x-default]"]
		return !ok && len(children(l, alt)) > 0
	}
	for _, p := range unionKeys(dst, src) {
		dv, sv := dst[p], src[p]
		if m := itemPath.FindStringSubmatch(p); m != nil && !strings.HasSuffix(m[1], "/") {
			lists[m[1]] = true
			continue
		}
		if conflict[topOf(p)] {
			if !extend && dv != "" {
				allowed[p] = []string{dv}
			}
			continue
		}
		if strings.HasSuffix(p, "]") && !itemPath.MatchString(p) {
			alt := base(p)
			if extend && (noDefault(dst, alt) || noDefault(src, alt)) {
				continue
			}
			if !extend && strings.HasSuffix(p, "[x-default]") && noDefault(dst, alt) {
				allowed[p] = []string{dv, sv}
				continue
			}
		}
		switch _, a := always[p]; {
		case a: // the unset value may count as a value
			allowed[p] = []string{dv, sv}
		case dv == "" || extend && sv != "":
			allowed[p] = []string{sv}
		default:
			allowed[p] = []string{dv}
		}
	}
	for p, l := range allowed {
		ok := false
		for _, v := range l {
			ok = ok || got[p] == v
		}
		if !ok {
			return fmt.Errorf("%s is %q, want %q (had %q, source %q)", p, got[p], l, dst[p], src[p])
		}
	}
	for p, v := range got {
		if _, ok := allowed[p]; ok || conflict[topOf(p)] {
			continue
		}
		if m := itemPath.FindStringSubmatch(p); m != nil && lists[m[1]] || strings.HasSuffix(p, "]") && extend {
			continue
		}
		if dst[p] == "" && src[p] == "" {
			return fmt.Errorf("%s = %q appeared", p, v)
		}
	}
	values := func(l map[string]string, list string) (r []string) {
		for i, n := 0, items(l, list); i < n; i++ {
			r = append(r, l[fmt.Sprintf("%s[%d]", list, i)])
		}
		return
	}
	for list := range lists {
		if conflict[topOf(list)] {
			continue
		}
		d, s, g := values(dst, list), values(src, list), values(got, list)
		has := func(l []string, v string) bool {
			for _, x := range l {
				if x == v {
					return true
				}
			}
			return v == ""
		}
		for _, v := range s {
			if !has(g, v) {
				return fmt.Errorf("list %s: %q is missing in %q (had %q, source %q)", list, v, g, d, s)
			}
		}
		for _, v := range g {
			if !has(d, v) && !has(s, v) {
				return fmt.Errorf("list %s: %q appeared in %q (had %q, source %q)", list, v, g, d, s)
			}
		}
		if extend {
			continue
		}
		if len(g) < len(d) || fmt.Sprintf("%q", g[:len(d)]) != fmt.Sprintf("%q", d) && !has(d, "") {
			return fmt.Errorf("list %s was %q and is %q (source %q)", list, d, g, s)
		}
		if len(g) > len(d)+len(s) {
			return fmt.Errorf("list %s: %q has too many items (had %q, source %q)", list, g, d, s)
		}
		// an item the list has already is not added (once it holds as many)
		n := map[string]int{}
		for _, v := range g {
			n[v]++
		}
		for v, k := range n {
			max := 0
			for _, l := range [][]string{d, s} {
				c := 0
				for _, x := range l {
					if x == v {
						c++
					}
				}
				if c > max {
					max = c
				}
			}
			if k > max && v != "" && !has(d, "") && !has(s, "") {
				return fmt.Errorf("list %s: %q holds %q %d times (had %q, source %q)", list, g, v, k, d, s)
			}
		}
	}
	return nil
}

type mergeSource struct {
	d       *xmp.Document
	listing map[string]string
	text    string
	ns      string
}

func newMergeSource(d *xmp.Document) (*mergeSource, error) {
	s := &mergeSource{d: d}
	b, err := xmp.Marshal(d)
	if err != nil {
		return nil, fmt.Errorf("writing source: %v", err)
	}
	s.text, s.ns = string(b), namesOf(d)
	s.listing, err = rawListing(d)
	return s, err
}

func (s *mergeSource) same(when string) error {
	l, err := rawListing(s.d)
	if err != nil {
		return err
	}
	if d := diffMaps(s.listing, l); d != "" {
		return fmt.Errorf("source changed by %s:\n  %s", when, d)
	}
	if ns := namesOf(s.d); ns != s.ns {
		return fmt.Errorf("source knows other namespaces after %s:\n%s\nwas\n%s", when, ns, s.ns)
	}
	b, err := xmp.Marshal(s.d)
	if err != nil {
		return err
	}
	if string(b) != s.text {
		return fmt.Errorf("source is written differently after %s:\n%s\nwas\n%s", when, b, s.text)
	}
	return nil
}

func alwaysOf(d *xmp.Document) map[string]string {
	m := map[string]string{}
	for _, n := range d.Nodes() {
		if n.Model != nil {
			for k, v := range alwaysListed(n.Model) {
				m[k] = v
			}
		}
	}
	return m
}

// syncingModels counts the models that are kept in step with others.
func syncingModels(d *xmp.Document) (n int) {
	for _, v := range d.Nodes() {
		if v.Model != nil && syncing[v.Model.Namespaces()[0].GetName()] {
			n++
		}
	}
	return
}

func TestP11_Empty(t *testing.T) {
	rule("empty", "a document with a random value of every property of every bundled model in turn, plus mixtures of models and unknown properties, is merged into an empty document with each policy that creates; both must list the same properties and be written with the same content as far as paths tell, and the source must stay as it was; non-trivial: distinct listing with at least one path")
	policies := []xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.ADD, xmp.DEFAULT, xmp.CREATE | xmp.REPLACE}
	run := func(rt *rapid.T, sub string, d *xmp.Document) error {
		defer d.Close()
		src, err := newMergeSource(d)
		if err != nil {
			return err
		}
		flags := rapid.SampledFrom(policies).Draw(rt, "policy")
		dst := xmp.NewDocument()
		defer dst.Close()
		tally(sub, fmt.Sprint(src.listing, flags), len(src.listing) > 0, flagText(flags))
		if err := dst.Merge(d, flags); err != nil {
			return fmt.Errorf("merging with %s: %v", flagText(flags), err)
		}
		want, err := listing(d)
		if err != nil {
			return err
		}
		got, err := listing(dst)
		if err != nil {
			return err
		}
		if n := syncingModels(d); n > 1 {
			// which of them prevails depends on their order
			for _, l := range []map[string]string{want, got} {
				for k := range l {
					if syncTarget[k[:strings.IndexByte(k, ':')]] {
						delete(l, k)
					}
				}
			}
		}
		if s := diffMaps(want, got); s != "" {
			return fmt.Errorf("merged with %s into an empty document:\n  %s", flagText(flags), s)
		}
		if err := src.same("merging"); err != nil {
			return err
		}
		b, err := xmp.Marshal(dst)
		if err != nil {
			return fmt.Errorf("writing the result: %v", err)
		}
		if _, err := parseRDF(b); err != nil {
			return fmt.Errorf("the result is not written as valid document: %v\n%s", err, b)
		}
		dst.Close()
		return src.same("closing the result")
	}
	for _, p := range modelPrefixes() {
		for _, f := range modelFields(p) {
			f := f
			if fixedArray(f.typ, 4) {
				continue
			}
			t.Run(f.String(), func(t *testing.T) {
				check(t, 3, func(rt *rapid.T) {
					if err := try(func() error {
						v, ok := genField(rt, f, f.goName)
						if !ok {
							return nil
						}
						m := newModel(f.prefix)
						setField(m, f, v)
						d := xmp.NewDocument()
						if _, err := d.AddModel(m); err != nil {
							return err
						}
						return run(rt, "empty", d)
					}); err != nil {
						rt.Fatalf("%v", err)
					}
				})
			})
		}
	}
	if t.Failed() {
		return
	}
	check(t, 400, func(rt *rapid.T) {
		if err := try(func() error {
			e, err := newEditDoc(rt)
			if err != nil {
				return err
			}
			e.fill(rt, 5)
			return run(rt, "empty", e.d)
		}); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}

// fill writes some more properties, as far as they fit.
func (e *editDoc) fill(rt *rapid.T, max int) {
	for i, n := 0, rapid.IntRange(0, max).Draw(rt, "fill"); i < n; i++ {
		if tg, err := e.genTarget(rt); err == nil && !strings.HasPrefix(tg.path, "tiff:YCbCrSubSampling") {
			if is, ok := lastIndex(tg.path); ok && tg.kind == itemTarget && is != "0" {
				tg.path = fmt.Sprintf("%s[%d]", base(tg.path), items(e.state, base(tg.path)))
			}
			e.d.SetPath(xmp.PathValue{Path: xmp.Path(tg.path), Value: tg.value, Flags: xmp.CREATE | xmp.REPLACE, Namespace: editURI(tg.path)})
			if s, err := rawListing(e.d); err == nil {
				e.state = s
			}
		}
	}
}

func TestP11_Documents(t *testing.T) {
	rule("documents", "a source document is merged into a non-empty one that shares models, unknown properties and some values with it, with the merge or the extend policy; existing values must be kept (merge) or replaced by the source's (extend), missing ones added, lists extended by what they lack; merging again must change nothing, the source must stay as it was and be independent of the result; non-trivial: distinct pairs of listings with at least one common path")
	assume("P11: lists of structures are merged item by item; properties of different type in both documents are only checked to be kept; which language entry of an alternative is the default is not part of the listing")
	check(t, 3000, func(rt *rapid.T) {
		var log string
		err := try(func() error {
			a, err := newEditDoc(rt)
			if err != nil {
				return err
			}
			defer a.d.Close()
			b := &editDoc{d: xmp.NewDocument(), models: a.models}
			defer b.d.Close()
			if err := b.d.SetPath(xmp.PathValue{Path: "editc:", Namespace: editURI("editc:"), Value: "-", Flags: xmp.CREATE}); err != nil {
				return err
			}
			for _, p := range b.models {
				if rapid.Bool().Draw(rt, "source.model") {
					if _, err := b.d.AddModel(genModel(rt, p, "source."+p)); err != nil {
						return err
					}
				}
			}
			if b.state, err = rawListing(b.d); err != nil {
				return err
			}
			a.fill(rt, 5)
			b.fill(rt, 5)
			// common values
			sl, err := b.d.ListPaths()
			if err != nil {
				return err
			}
			for _, v := range sl {
				if rapid.IntRange(0, 4).Draw(rt, "common") == 0 {
					p := v.Path
					if m := itemPath.FindStringSubmatch(string(p)); m != nil && rapid.Bool().Draw(rt, "other item") {
						if n := items(a.state, m[1]); n > 0 {
							p = xmp.Path(fmt.Sprintf("%s[%d]", m[1], n))
						}
					}
					a.d.SetPath(xmp.PathValue{Path: p, Value: v.Value, Flags: xmp.CREATE, Namespace: editURI(string(p))})
					if a.state, err = rawListing(a.d); err != nil {
						return err
					}
				}
			}
			for _, d := range []*xmp.Document{a.d, b.d} {
				if _, err := d.ListPaths(); err != nil { // synchronises
					return err
				}
			}
			sync := false
			for _, p := range a.models {
				sync = sync || syncing[p]
			}
			before, err := rawListing(a.d)
			if err != nil {
				return err
			}
			src, err := newMergeSource(b.d)
			if err != nil {
				return err
			}
			always := alwaysOf(b.d)
			for k, v := range alwaysOf(a.d) {
				always[k] = v
			}
			common := 0
			for k := range src.listing {
				if before[k] != "" {
					common++
				}
			}
			extend := rapid.Bool().Draw(rt, "extend")
			flags := xmp.MERGE
			if extend {
				flags = xmp.EXTEND
			}
			tally("documents", fmt.Sprint(before, src.listing, flags), common > 0, flagText(flags))
			log = fmt.Sprintf("merging with %s\n%v\ninto\n%v", flagText(flags), sorted(src.listing), sorted(before))
			if err := a.d.Merge(b.d, flags); err != nil {
				return fmt.Errorf("merge fails: %v", err)
			}
			got, err := rawListing(a.d)
			if err != nil {
				return err
			}
			mirrored := map[string]bool{}
			for _, p := range a.models {
				m := newModel(p)
				for _, f := range modelFields(p) {
					if !m.Can(f.nsPrefix()) {
						mirrored[f.nsPrefix()], mirrored[p] = true, true
					}
				}
			}
			for _, m := range []map[string]string{before, src.listing, got} {
				for k := range m {
					if mirrored[k[:strings.IndexByte(k, ':')]] || strings.HasPrefix(k, "tiff:YCbCrSubSampling[") || strings.HasPrefix(k, "exif:Flash/") {
						delete(m, k)
					}
				}
			}
			if err := checkMerged(before, src.listing, got, always, extend); err != nil {
				return err
			}
			if src.listing, err = rawListing(b.d); err != nil {
				return err
			}
			if err := src.same("merging"); err != nil {
				return err
			}
			// again
			if got, err = rawListing(a.d); err != nil {
				return err
			}
			if err := a.d.Merge(b.d, flags); err != nil {
				return fmt.Errorf("second merge fails: %v", err)
			}
			again, err := rawListing(a.d)
			if err != nil {
				return err
			}
			if s := diffMaps(got, again); s != "" {
				return fmt.Errorf("merging again changes the result:\n  %s", s)
			}
			text, err := xmp.Marshal(a.d)
			if err != nil {
				return fmt.Errorf("writing the result: %v", err)
			}
			if _, err := parseRDF(text); err != nil {
				return fmt.Errorf("the result is not written as valid document: %v\n%s", err, text)
			}
			// independence: change and drop one, then the other
			if rapid.Bool().Draw(rt, "source first") {
				want, err := rawListing(a.d)
				if err != nil {
					return err
				}
				clearAll(b.d)
				b.d.Close()
				now, err := rawListing(a.d)
				if err != nil {
					return err
				}
				if s := diffMaps(want, now); s != "" {
					return fmt.Errorf("clearing the source changes the result:\n  %s", s)
				}
				return nil
			}
			clearAll(a.d)
			if err := src.same("clearing the result"); err != nil {
				return err
			}
			p := rapid.SampledFrom(modelPrefixes()).Draw(rt, "late model")
			if _, err := a.d.AddModel(newModel(p)); err != nil {
				return err
			}
			for _, n := range append(xmp.NodeList{}, a.d.Nodes()...) {
				a.d.RemoveNamespaceByName(n.Name())
			}
			if err := src.same("removing everything from the result"); err != nil {
				return err
			}
			a.d.Close()
			return src.same("closing the result")
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, log)
		}
	})
}

// clearAll changes and then deletes every listed path of a document.
func clearAll(d *xmp.Document) {
	l, _ := d.ListPaths()
	for i := len(l) - 1; i >= 0; i-- {
		d.SetPath(xmp.PathValue{Path: l[i].Path, Value: "changed", Flags: xmp.REPLACE | xmp.NOFAIL})
		d.SetPath(xmp.PathValue{Path: l[i].Path, Value: "", Flags: xmp.DELETE | xmp.NOFAIL})
	}
}

func sorted(m map[string]string) (l []string) {
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return
}

func TestP11_Prefixes(t *testing.T) {
	rule("prefixes", "two documents read from text that bind unknown namespaces to prefixes of their own (the same prefix to different URIs, the same URI to different prefixes) with properties and nested fields from them are merged; by namespace URI, the result must hold every property of both, and be written as a valid document that says the same; non-trivial: distinct pairs where a prefix or URI is shared")
	uris := []string{"http://example.com/u/0/", "http://example.com/u/1/", "http://example.com/u/2/", "urn:u:3#"}
	prefixes := []string{"p", "q", "p1", "r"}
	check(t, 1500, func(rt *rapid.T) {
		var texts [2]string
		gen := func(k int) string {
			perm := rapid.Permutation(prefixes).Draw(rt, "prefixes")
			var b strings.Builder
			b.WriteString(`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about=""`)
			used := map[int]bool{}
			var body strings.Builder
			for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "properties"); i < n; i++ {
				u, v := rapid.IntRange(0, 3).Draw(rt, "uri"), rapid.IntRange(0, 3).Draw(rt, "field uri")
				used[u] = true
				switch rapid.IntRange(0, 2).Draw(rt, "kind") {
				case 0:
					fmt.Fprintf(&body, "<%s:t%d%d>%d</%[1]s:t%[2]d%d>", perm[u], i, u, rapid.IntRange(0, 3).Draw(rt, "value"), u)
				case 1:
					used[v] = true
					fmt.Fprintf(&body, `<%s:s%d%d rdf:parseType="Resource"><%s:f>%d%d%d</%[4]s:f></%[1]s:s%[2]d%[3]d>`, perm[u], i, u, perm[v], v, k, i)
				case 2:
					fmt.Fprintf(&body, `<%s:l%d><rdf:Bag><rdf:li>%d</rdf:li></rdf:Bag></%[1]s:l%[2]d>`, perm[u], u, i)
					i = n
				}
			}
			for u := range uris {
				if used[u] {
					fmt.Fprintf(&b, " xmlns:%s=%q", perm[u], uris[u])
				}
			}
			return b.String() + ">" + body.String() + "</rdf:Description></rdf:RDF>"
		}
		texts[0], texts[1] = gen(0), gen(1)
		err := try(func() error {
			var docs [2]*xmp.Document
			var lists [2]map[string]string
			for i := range docs {
				docs[i] = xmp.NewDocument()
				defer docs[i].Close()
				if err := xmp.Unmarshal([]byte(texts[i]), docs[i]); err != nil {
					return fmt.Errorf("reading %d: %v", i, err)
				}
				r, err := readDoc(docs[i])
				if err != nil {
					return err
				}
				lists[i] = r.paths
			}
			tally("prefixes", fmt.Sprint(texts), true)
			if err := docs[0].Merge(docs[1], xmp.MERGE); err != nil {
				return fmt.Errorf("merging: %v", err)
			}
			r, err := readDoc(docs[0])
			if err != nil {
				return err
			}
			if err := checkMerged(lists[0], lists[1], r.paths, nil, false); err != nil {
				return err
			}
			b, err := xmp.Marshal(docs[0])
			if err != nil {
				return err
			}
			r2, err := readText(string(b))
			if err != nil {
				return fmt.Errorf("%v\n%s", err, b)
			}
			if s := r.diff(r2); s != "" {
				return fmt.Errorf("the result reads back differently: %s\n%s", s, b)
			}
			before := r.paths
			if err := docs[0].Merge(docs[1], xmp.MERGE); err != nil {
				return fmt.Errorf("merging again: %v", err)
			}
			if r, err = readDoc(docs[0]); err != nil {
				return err
			}
			if s := diffMaps(before, r.paths); s != "" {
				return fmt.Errorf("merging again changes the result:\n  %s", s)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s\n%s", err, texts[0], texts[1])
		}
	})
}
