package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

const pantryKey = "{http://ns.adobe.com/xap/1.0/mm/}Pantry"

// genEmbedDoc draws a document for a pantry or to host one, its unknown
// namespaces have prefixes of its own.
func genEmbedDoc(rt *rapid.T, models []string, label string) (*xmp.Document, error) {
	models = oneSyncing(models)
	d, err := genEmbedDoc1(rt, models, label)
	for _, p := range models {
		// models gain properties of other models when they are read
		for i := 0; i < 2 && err == nil && (syncing[p] || syncTarget[p]); i++ {
			var b []byte
			if b, err = xmp.Marshal(d); err == nil {
				d = xmp.NewDocument()
				err = xmp.Unmarshal(b, d)
			}
		}
	}
	return d, err
}

// oneSyncing drops models such that no two of them write properties of the
// same others.
func oneSyncing(models []string) (l []string) {
	n := 0
	for _, p := range models {
		if syncing[p] || syncTarget[p] {
			if n++; n > 1 {
				continue
			}
		}
		l = append(l, p)
	}
	return l
}

func genEmbedDoc1(rt *rapid.T, models []string, label string) (*xmp.Document, error) {
	d := xmp.NewDocument()
	for _, p := range models {
		if _, err := d.AddModel(genModel(rt, p, label+"."+p)); err != nil {
			return d, err
		}
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return d, err
	}
	if rapid.IntRange(0, 2).Draw(rt, label+".made") == 0 && len(models) > 0 {
		return d, nil
	}
	doc, err := parseRDF(b)
	if err != nil {
		return d, err
	}
	nss := unknownNs[:2:2]
	if rapid.Bool().Draw(rt, label+".unknown") {
		doc.props = append(doc.props, genRdfProps(rt, append(nss, knownUnknownNs...), 2, 0, 4, label+".x")...)
	}
	doc.about = ""
	own := append([]rdfNs(nil), unknownNs...)
	if rapid.Bool().Draw(rt, label+".swapped") {
		for i := range own {
			own[i].prefix = unknownNs[(i+1)%len(own)].prefix
		}
	}
	text, _ := writeRDF(rt, doc, prefixTable(own), nil)
	d.Close()
	d = xmp.NewDocument()
	if err := xmp.Unmarshal([]byte(text), d); err != nil {
		return d, fmt.Errorf("%v\n%s", err, text)
	}
	return d, nil
}

// absPaths completes the namespaces of fields in the paths of a listing, they
// default to that of the top level property.
func absPaths(paths map[string]string) map[string]string {
	m := map[string]string{}
	for p, v := range paths {
		// URIs contain slashes
		p = strings.Replace(p, "{", "\x00{", -1)
		m[absPath(p)] = v
	}
	return m
}

func absPath(p string) string {
	var segs []string
	for i, in := 0, false; i < len(p); i++ {
		if i == 0 || p[i] == '/' && !in {
			segs = append(segs, "")
			if i > 0 {
				continue
			}
		}
		switch p[i] {
		case 0:
			continue
		case '{':
			in = true
		case '}':
			in = false
		}
		segs[len(segs)-1] += string(p[i])
	}
	top := segs[0][:strings.IndexByte(segs[0], '}')+1]
	for i, s := range segs {
		if !strings.HasPrefix(s, "{") && !strings.HasPrefix(s, "[") {
			segs[i] = top + s
		}
	}
	return strings.Join(segs, "/")
}

type embedded struct {
	paths, out map[string]string
}

func embeddedOf(d *xmp.Document) (embedded, error) {
	r, err := readDoc(d)
	if err != nil {
		return embedded{}, err
	}
	delete(r.out, "rdf:about")
	return embedded{absPaths(r.paths), r.out}, nil
}

// hosted returns what a host with a pantry must consist of.
func hosted(host embedded, l []embedded) embedded {
	r := embedded{cloneMap(host.paths), cloneMap(host.out)}
	if len(l) > 0 {
		r.out[pantryKey] = fmt.Sprintf("Bag %d", len(l))
	}
	for i, v := range l {
		k := fmt.Sprintf("%s[%d]", pantryKey, i)
		r.out[k] = "struct"
		for p, v := range v.paths {
			r.paths[k+"/"+p] = v
		}
		for p, v := range v.out {
			r.out[k+"/"+p] = v
		}
	}
	return r
}

func (x embedded) diff(y embedded) error {
	if s := diffMaps(x.paths, y.paths); s != "" {
		return fmt.Errorf("paths differ: %s", s)
	}
	if s := diffMaps(x.out, y.out); s != "" {
		return fmt.Errorf("output differs: %s", s)
	}
	return nil
}

func TestP25_Pantry(t *testing.T) {
	rule("pantry", "one to three documents of typed models, unknown properties (their prefixes may collide with the host's) and sometimes a pantry of their own are added to the pantry of a document that has content; the host must consist of exactly what it had plus the embedded properties below their index, by path, in XML and in JSON, before and after reading it back, and whatever happens to the embedded documents later; non-trivial: distinct texts with at least two embedded properties")
	check(t, 800, func(rt *rapid.T) {
		var text string
		err := try(func() error {
			models := oneSyncing(separateModels(rt, 4))
			split := rapid.IntRange(0, len(models)).Draw(rt, "split")
			host, err := genEmbedDoc(rt, models[:split], "host")
			defer host.Close()
			if err != nil {
				return err
			}
			base, err := embeddedOf(host)
			if err != nil {
				return err
			}
			mm, err := xmpmm.MakeModel(host)
			if err != nil {
				return err
			}
			if len(mm.Pantry) > 0 {
				assume("hosts start without pantry")
				return nil
			}
			var l []embedded
			n := rapid.IntRange(1, 3).Draw(rt, "embedded")
			for i := 0; i < n; i++ {
				label := fmt.Sprintf("e%d", i)
				ing, err := genEmbedDoc(rt, separateModels(rt, 3), label)
				defer ing.Close()
				if err != nil {
					return err
				}
				if rapid.IntRange(0, 4).Draw(rt, label+".nested") == 0 {
					sub, err := genEmbedDoc(rt, separateModels(rt, 1), label+".sub")
					defer sub.Close()
					if err != nil {
						return err
					}
					m, err := xmpmm.MakeModel(ing)
					if err != nil {
						return err
					}
					m.AddPantry(sub)
				}
				e, err := embeddedOf(ing)
				if err != nil {
					return err
				}
				l = append(l, e)
				mm.AddPantry(ing)
				if e2, err := embeddedOf(ing); err != nil {
					return err
				} else if err := e.diff(e2); err != nil {
					return fmt.Errorf("adding changes the embedded document: %v", err)
				}
				switch rapid.IntRange(0, 2).Draw(rt, label+".then") {
				case 0:
					clearAll(ing)
				case 1:
					ing.Close()
				}
			}
			if rapid.Bool().Draw(rt, "dirty") {
				host.SetDirty()
			}
			want := hosted(base, l)
			got, err := embeddedOf(host)
			if err != nil {
				return err
			}
			if err := want.diff(got); err != nil {
				return fmt.Errorf("host: %v", err)
			}
			pvl, err := host.ListPaths()
			if err != nil {
				return err
			}
			for _, v := range pvl {
				if s, err := host.GetPath(v.Path); err != nil || s != v.Value {
					return fmt.Errorf("%s is %q, %v, listed as %q", v.Path, s, err, v.Value)
				}
			}
			b, err := xmp.Marshal(host)
			if err != nil {
				return err
			}
			text = string(b)
			count := 0
			for _, e := range l {
				count += len(e.paths)
			}
			tally("pantry", text, count > 1)
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal(b, d); err != nil {
				return err
			}
			if got, err = embeddedOf(d); err != nil {
				return err
			}
			if err := want.diff(got); err != nil {
				return fmt.Errorf("after reading: %v", err)
			}
			if count == 0 {
				excluded("P25: pantries of nothing but empty documents in JSON")
				return nil
			}
			j, err := json.Marshal(host)
			if err != nil {
				return err
			}
			d = xmp.NewDocument()
			defer d.Close()
			if err := json.Unmarshal(j, d); err != nil {
				return fmt.Errorf("%v\n%s", err, j)
			}
			if got, err = embeddedOf(d); err != nil {
				return err
			}
			anyList(got.out)
			anyList(want.out)
			if err := want.diff(got); err != nil {
				return fmt.Errorf("after reading JSON: %v\n%s", err, j)
			}
			if got, err = embeddedOf(host); err != nil {
				return err
			}
			anyList(got.out)
			return want.diff(got)
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, text)
		}
	})
}

func TestP25_PantryPaths(t *testing.T) {
	rule("pantry-paths", "paths of models and unknown properties are created, replaced, appended and deleted below an entry of a pantry with one to three entries; the entry must become what a document of its own becomes by the same writes, with the same errors, and host and other entries must stay as they are, also after reading the host back; non-trivial: distinct histories with at least two changes")
	check(t, 800, func(rt *rapid.T) {
		var log []string
		err := try(func() error {
			host := xmp.NewDocument()
			defer host.Close()
			if rapid.Bool().Draw(rt, "host") {
				if _, err := host.AddModel(&xmpmm.XmpMM{DocumentID: "host"}); err != nil {
					return err
				}
			}
			for _, v := range editNs[:3] {
				if err := host.SetPath(xmp.PathValue{Path: xmp.Path(v[0] + ":"), Namespace: v[1], Value: "-", Flags: xmp.CREATE}); err != nil {
					return err
				}
			}
			mm, err := xmpmm.MakeModel(host)
			if err != nil {
				return err
			}
			base, err := embeddedOf(host)
			if err != nil {
				return err
			}
			var l []*editDoc
			for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "entries"); i < n; i++ {
				e := &editDoc{d: xmp.NewDocument()}
				defer e.d.Close()
				for _, p := range separateModels(rt, 3) {
					if syncing[p] || syncTarget[p] || p == "xmpMM" {
						continue
					}
					e.models = append(e.models, p)
					if _, err := e.d.AddModel(genModel(rt, p, p)); err != nil {
						return err
					}
				}
				for _, v := range editNs[:3] {
					if err := e.d.SetPath(xmp.PathValue{Path: xmp.Path(v[0] + ":"), Namespace: v[1], Value: "-", Flags: xmp.CREATE}); err != nil {
						return err
					}
				}
				if e.state, err = rawListing(e.d); err != nil {
					return err
				}
				mm.AddPantry(e.d)
				l = append(l, e)
			}
			changes := 0
			compare := func(d *xmp.Document, again bool) error {
				var x []embedded
				for _, e := range l {
					s := e.d
					if again {
						b, err := xmp.Marshal(s)
						if err != nil {
							return err
						}
						s = xmp.NewDocument()
						defer s.Close()
						if err := xmp.Unmarshal(b, s); err != nil {
							return err
						}
					}
					y, err := embeddedOf(s)
					if err != nil {
						return err
					}
					x = append(x, y)
				}
				got, err := embeddedOf(d)
				if err != nil {
					return err
				}
				return hosted(base, x).diff(got)
			}
			if err := compare(host, false); err != nil {
				return fmt.Errorf("at first: %v", err)
			}
			for n := rapid.IntRange(1, 6).Draw(rt, "writes"); n > 0; n-- {
				i := rapid.IntRange(0, len(l)-1).Draw(rt, "entry")
				e := l[i]
				tg, err := e.genTarget(rt)
				if err != nil {
					return err
				}
				value := tg.value
				if rapid.IntRange(0, 3).Draw(rt, "delete") == 0 {
					value = ""
				}
				flags := xmp.CREATE | xmp.REPLACE | xmp.DELETE
				if rapid.IntRange(0, 2).Draw(rt, "permissive") == 0 {
					flags = xmp.SyncFlags(rapid.IntRange(0, 63).Draw(rt, "flags"))
					if flags&(xmp.APPEND|xmp.UNIQUE) > 0 {
						// appending to something missing is not specified
						flags |= xmp.CREATE
					}
				}
				full := fmt.Sprintf("xmpMM:Pantry[%d]/%s", i, tg.path)
				was, _ := e.d.GetPath(xmp.Path(tg.path))
				got, _ := host.GetPath(xmp.Path(full))
				if was != got {
					return fmt.Errorf("%s is %q, want %q", full, got, was)
				}
				log = append(log, fmt.Sprintf("SetPath(%s, %q, %s)", full, value, flagText(flags)))
				err1 := e.d.SetPath(xmp.PathValue{Path: xmp.Path(tg.path), Value: value, Flags: flags})
				err2 := host.SetPath(xmp.PathValue{Path: xmp.Path(full), Value: value, Flags: flags})
				if (err1 == nil) != (err2 == nil) {
					return fmt.Errorf("error is %v, in a document of its own %v", err2, err1)
				}
				if err := compare(host, false); err != nil {
					return err
				}
				state, err := rawListing(e.d)
				if err != nil {
					return err
				}
				if diffMaps(state, e.state) != "" {
					changes++
				}
				e.state = state
			}
			tally("pantry-paths", strings.Join(log, "\n"), changes > 1)
			b, err := xmp.Marshal(host)
			if err != nil {
				return err
			}
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal(b, d); err != nil {
				return err
			}
			if err := compare(d, true); err != nil {
				return fmt.Errorf("after reading: %v\n%s", err, b)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(log, "\n"))
		}
	})
}

// genExtensionTarget draws a path into a named extension. Names tell what
// they hold, so that paths of one document fit together.
func genExtensionTarget(rt *rapid.T, ext string) target {
	p := ext + "/" + rapid.SampledFrom([]string{"AAF", "TITLE", "extension", "x-y.z"}).Draw(rt, "name")
	tg := target{kind: scalarTarget, value: genText(rt, "value")}
	idx := func() string { return fmt.Sprintf("[%d]", rapid.IntRange(0, 2).Draw(rt, "i")) }
	switch rapid.IntRange(0, 7).Draw(rt, "shape") {
	case 0, 1:
		tg.path = p + "/" + rapid.SampledFrom([]string{"FIELD", "note", "editc:other", "dc:title"}).Draw(rt, "field")
	case 2:
		tg.path, tg.kind = p+"/LIST"+idx(), itemTarget
	case 3:
		tg.path, tg.kind = p+"/ALT["+rapid.SampledFrom([]string{"en", "de-CH", "x-default"}).Draw(rt, "lang")+"]", langTarget
	case 4:
		tg.path = p + "/SUB/" + rapid.SampledFrom([]string{"FIELD", "B", "editc:C"}).Draw(rt, "field")
	case 5:
		tg.path = p + "/STRUCTS" + idx() + "/A"
	case 6:
		tg.path, tg.kind = p+"/SUB/LIST"+idx(), itemTarget
	case 7:
		tg.path = ext + "/" + rapid.SampledFrom([]string{"SINGLE", "Note"}).Draw(rt, "single")
	}
	return tg
}

func TestP25_Named(t *testing.T) {
	rule("named", "paths of named extensions (texts, lists, alternatives, structures and lists of structures under several names) of xmp:extension and iXML:extension are created, replaced, appended and deleted with all flags in a document that has other content; every write must have just the effect its flags say, and the document must read back the same from XML and JSON; non-trivial: distinct histories of at least two writes that leave extension content")
	check(t, 6000, func(rt *rapid.T) {
		e := &editDoc{d: xmp.NewDocument()}
		// iXML models copy properties to others when they are written
		own := func(m map[string]string) map[string]string {
			r := map[string]string{}
			for k, v := range m {
				if !syncTarget[k[:strings.IndexByte(k, ':')]] || strings.HasPrefix(k, "iXML:") || strings.HasPrefix(k, "xmp:extension/") {
					r[k] = v
				}
			}
			return r
		}
		err := try(func() error {
			defer e.d.Close()
			ext := rapid.SampledFrom([]string{"xmp:extension", "iXML:extension"}).Draw(rt, "extension")
			if rapid.Bool().Draw(rt, "filled") {
				p := ext[:strings.IndexByte(ext, ':')]
				if _, err := e.d.AddModel(genModel(rt, p, p)); err != nil {
					return err
				}
			}
			if p := rapid.SampledFrom(modelPrefixes()).Draw(rt, "other"); !syncing[p] && !syncTarget[p] {
				if _, err := e.d.AddModel(genModel(rt, p, p)); err != nil {
					return err
				}
			}
			if err := e.d.SetPath(xmp.PathValue{Path: "editc:", Namespace: editURI("editc:"), Value: "-", Flags: xmp.CREATE}); err != nil {
				return err
			}
			if err := e.d.SetPath(xmp.PathValue{Path: xmp.Path(ext + "/AAF/FIELD"), Value: "x", Flags: xmp.CREATE}); err != nil {
				return err
			}
			var err error
			if e.state, err = rawListing(e.d); err != nil {
				return err
			}
			if e.state[ext+"/AAF/FIELD"] != "x" {
				return fmt.Errorf("the first field of an extension is lost")
			}
			for n := rapid.IntRange(1, 8).Draw(rt, "writes"); n > 0; n-- {
				tg := genExtensionTarget(rt, ext)
				if rapid.IntRange(0, 2).Draw(rt, "permissive") > 0 {
					if err := e.checkSet(tg, rapid.IntRange(0, 2).Draw(rt, "delete") == 0); err != nil {
						return err
					}
					continue
				}
				value := tg.value
				if rapid.IntRange(0, 3).Draw(rt, "delete") == 0 {
					value = ""
				}
				flags := xmp.SyncFlags(rapid.IntRange(0, 63).Draw(rt, "flags"))
				if tg.kind == scalarTarget {
					// texts stay texts
					flags &^= xmp.APPEND | xmp.UNIQUE
				}
				if err := e.apply(tg, value, flags); err != nil {
					return err
				}
			}
			tally("named", strings.Join(e.log, "\n"), len(e.log) > 1 && len(children(e.state, ext)) > 1)
			b, err := xmp.Marshal(e.d)
			if err != nil {
				return err
			}
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal(b, d); err != nil {
				return err
			}
			got, err := rawListing(d)
			if err != nil {
				return err
			}
			if s := diffMaps(own(e.state), own(got)); s != "" {
				return fmt.Errorf("after reading: %s\n%s", s, b)
			}
			j, err := json.Marshal(e.d)
			if err != nil {
				return err
			}
			d = xmp.NewDocument()
			defer d.Close()
			if err := json.Unmarshal(j, d); err != nil {
				return fmt.Errorf("%v\n%s", err, j)
			}
			if got, err = rawListing(d); err != nil {
				return err
			}
			if s := diffMaps(own(e.state), own(got)); s != "" {
				return fmt.Errorf("after reading JSON: %s\n%s", s, j)
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(e.log, "\n"))
		}
	})
}
