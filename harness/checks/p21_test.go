package checks

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// syncConv is a conversion with a way back.
type syncConv struct {
	name string
	f    xmp.ConverterFunc
	back func(string) string
}

var syncConvs = []syncConv{
	{name: "none"},
	{"prefix", func(s string) string { return strings.TrimPrefix(s, "conv:") }, func(s string) string { return "conv:" + s }},
	{"reverse", reverse, reverse},
	{"drop", func(s string) string { return "" }, func(s string) string { return "dropped" }},
}

func reverse(s string) string {
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

// textSources lists paths of a model which hold any text.
func textSources(prefix string) (l []string) {
	for _, f := range modelFields(prefix) {
		if !strings.HasPrefix(f.tag.name, prefix+":") {
			continue
		}
		switch {
		case f.typ.Kind() == reflect.String && !f.typ.Implements(textMarshaler) && !reflect.PtrTo(f.typ).Implements(textUnmarshaler):
			l = append(l, f.tag.name)
		case f.typ == reflect.TypeOf(xmp.StringArray{}), f.typ == reflect.TypeOf(xmp.StringList{}):
			l = append(l, f.tag.name+"[0]", f.tag.name+"[1]", f.tag.name)
		case f.typ == reflect.TypeOf(xmp.AltString{}):
			l = append(l, f.tag.name+"[en]", f.tag.name)
		}
	}
	return l
}

// modelNames lists the models in a document.
func modelNames(d *xmp.Document) string {
	var l []string
	for _, n := range d.Nodes() {
		if n.Model != nil {
			l = append(l, n.Name())
		}
	}
	return strings.Join(l, " ")
}

// sync synchronises two properties and checks the effect.
func (e *editDoc) sync(t *rapid.T, tg target, src string, conv syncConv, flags xmp.SyncFlags) (changed bool, err error) {
	dst := xmp.Path(tg.path)
	sval := e.get(src)
	dval := e.get(tg.path)
	val := sval
	if conv.f != nil {
		val = conv.f(sval)
	}
	eff := flags
	if eff == 0 {
		eff = xmp.DEFAULT
	}
	smodel := e.hasModel(src)
	dmodel := e.hasModel(tg.path)
	skip := !smodel || !dmodel && (eff&xmp.CREATE == 0 || val == "") || val == dval ||
		sval == "" && eff&xmp.DELETE == 0 ||
		dval == "" && eff&xmp.CREATE == 0 ||
		dval != "" && eff&(xmp.REPLACE|xmp.APPEND|xmp.UNIQUE) == 0 && (val != "" || eff&xmp.DELETE == 0)
	log := fmt.Sprintf("Sync(%s %q, %s %q, %s, %s)", src, sval, tg.path, dval, flagText(flags), conv.name)
	e.log = append(e.log, log)
	models := modelNames(e.d)
	var mod xmp.Model
	if rapid.IntRange(0, 2).Draw(t, "model") == 0 {
		if ns, _ := dst.Namespace(e.d); ns != nil {
			mod = e.d.FindModel(ns) // the same with the model at hand
			if mod != nil && mod.Namespaces()[0] != ns {
				mod = nil
			}
		}
	}
	var serr error
	if rapid.Bool().Draw(t, "multi") {
		serr = e.d.SyncMulti(xmp.SyncDescList{&xmp.SyncDesc{Source: xmp.Path(src), Dest: dst, Flags: flags, Convert: conv.f}}, mod)
	} else {
		serr = e.d.Sync(xmp.Path(src), dst, flags, mod, conv.f)
	}
	got, lerr := rawListing(e.d)
	if lerr != nil {
		return false, fmt.Errorf("%s: listing: %v", log, lerr)
	}
	if flags&xmp.NOFAIL > 0 && serr != nil {
		return false, fmt.Errorf("%s fails although failing is off: %v", log, serr)
	}
	if skip {
		if s := diffMaps(e.state, got); s != "" {
			return false, fmt.Errorf("%s (error: %v) must leave the document alone:\n  %s", log, serr, s)
		}
		if m := modelNames(e.d); m != models {
			return false, fmt.Errorf("%s must leave the document alone: models were %s, are %s", log, models, m)
		}
		if serr != nil && smodel {
			return false, fmt.Errorf("%s fails: %v", log, serr)
		}
		return false, nil
	}
	want := e.write(tg, val, eff, dval)
	alts := append([]map[string]string{want.state}, want.alts...)
	if want.state == nil { // not determined
		alts = append(alts, e.state)
		if serr == nil {
			alts = append(alts, got)
		}
	}
	if is, ok := lastIndex(tg.path); ok && tg.kind == itemTarget && serr == nil {
		// items between the end of a list and a new item have the zero value
		b := base(tg.path)
		idx := 0
		fmt.Sscan(is, &idx)
		for i := items(e.state, b); i < idx; i++ {
			k := fmt.Sprintf("%s[%d]", b, i)
			for _, a := range alts {
				if a != nil && a[tg.path] != "" && a[k] == "" && got[k] != "" {
					a[k] = got[k]
				}
			}
		}
	}
	ok := false
	s := ""
	for _, a := range alts {
		if a == nil {
			continue
		}
		d := diffMaps(a, got)
		if d == "" {
			ok = true
		} else if s == "" {
			s = d
		}
	}
	if !ok {
		return false, fmt.Errorf("%s (error: %v) does not copy the value as its flags say:\n  %s", log, serr, s)
	}
	if serr != nil && !want.err && !want.any {
		return false, fmt.Errorf("%s must not fail: %v", log, serr)
	}
	changed = diffMaps(e.state, got) != ""
	e.state = got
	// once synchronised, the two agree
	if changed && tg.kind == scalarTarget && e.get(tg.path) != val && val != "" {
		return false, fmt.Errorf("%s: the destination reads as %q", log, e.get(tg.path))
	}
	if e.get(src) != sval {
		return false, fmt.Errorf("%s: the source changes to %q", log, e.get(src))
	}
	if changed {
		if serr := e.d.Sync(xmp.Path(src), dst, xmp.EXTEND, nil, conv.f); serr != nil {
			return false, fmt.Errorf("%s, again: %v", log, serr)
		}
		if e.state, err = rawListing(e.d); err != nil {
			return false, err
		}
		if tg.kind == scalarTarget && e.get(tg.path) != val && val != "" {
			return false, fmt.Errorf("%s, again: the destination reads as %q", log, e.get(tg.path))
		}
	}
	return changed, nil
}

func (e *editDoc) get(p string) string {
	v, _ := e.d.GetPath(xmp.Path(p))
	return v
}

func (e *editDoc) hasModel(p string) bool {
	ns, _ := xmp.Path(p).Namespace(e.d)
	return ns != nil && e.d.FindModel(ns) != nil
}

func TestP21_Sync(t *testing.T) {
	rule("P21/sync", "sequences of 1..8 synchronisations between random properties of several models, with every policy and several conversions; the document must be as the policy says for the converted source value; non-trivial: distinct histories in which at least one destination changed")
	assume("P21: source and destination are different properties of modelled namespaces; a conversion makes nothing from an empty source")
	check(t, 4000, func(rt *rapid.T) {
		var e *editDoc
		err := try(func() (err error) {
			e, err = newEditDoc(rt)
			if err != nil {
				return err
			}
			var srcs []string
			for _, p := range e.models {
				srcs = append(srcs, textSources(p)...)
			}
			if len(srcs) == 0 {
				return nil
			}
			kinds := map[string]bool{}
			changes := 0
			n := rapid.IntRange(1, 8).Draw(rt, "syncs")
			for i := 0; i < n; i++ {
				tg, err := e.genTarget(rt)
				if err != nil {
					return err
				}
				if !tg.modelled || tg.value == "" {
					continue
				}
				src := rapid.SampledFrom(srcs).Draw(rt, "source")
				if topOf(src) == topOf(tg.path) {
					continue
				}
				if !foreignPaths(e, src, tg.path) {
					continue
				}
				conv := rapid.SampledFrom(syncConvs).Draw(rt, "conv")
				if m := rapid.IntRange(0, 9).Draw(rt, "sourcevalue"); m > 1 {
					v := tg.value
					if m == 2 {
						if c := e.get(tg.path); c != "" {
							v = c // nothing to do, unless converted
						}
					}
					if conv.back != nil && m != 3 {
						v = conv.back(v)
					}
					if conv.name == "reverse" && m == 3 && tg.kind != scalarTarget {
						continue
					}
					if err := e.d.SetPath(xmp.PathValue{Path: xmp.Path(src), Value: v, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
						return fmt.Errorf("setting the source %s to %q: %v", src, v, err)
					}
					if e.state, err = rawListing(e.d); err != nil {
						return err
					}
				}
				// the value must be a valid one
				if c := e.get(src); c == "" && kindOf(src) == itemTarget {
					excluded("P21: sources that are missing list items")
					continue
				} else if c != "" {
					if conv.f != nil {
						c = conv.f(c)
					}
					if c != "" && c != tg.value && c != e.get(tg.path) {
						excluded("P21: the converted value may not be valid for the destination")
						continue
					}
				} else if conv.f != nil && conv.f("") != "" {
					continue
				}
				flags := xmp.SyncFlags(rapid.IntRange(0, 63).Draw(rt, "flags"))
				if rapid.Bool().Draw(rt, "named") {
					flags = rapid.SampledFrom([]xmp.SyncFlags{0, xmp.DEFAULT, xmp.MERGE, xmp.EXTEND, xmp.ADD, xmp.CREATE, xmp.CREATE | xmp.REPLACE, xmp.CREATE | xmp.DELETE, xmp.CREATE | xmp.REPLACE | xmp.DELETE, xmp.DELETE, xmp.REPLACE}).Draw(rt, "preset")
				}
				ch, err := e.sync(rt, tg, src, conv, flags)
				if err != nil {
					return err
				}
				if ch {
					changes++
					kinds[tg.kind] = true
				} else {
					kinds["nothing to do"] = true
				}
				kinds["conversion "+conv.name] = true
			}
			var l []string
			for k := range kinds {
				l = append(l, k)
			}
			tally("P21/sync", strings.Join(e.log, ";"), changes > 0, l...)
			return nil
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.Join(e.log, "\n"))
		}
		e.d.Close()
	})
}

// foreignPaths tells whether two paths belong to models that do not mirror
// each other.
func foreignPaths(e *editDoc, a, b string) bool {
	pa, pb := a[:strings.IndexByte(a, ':')], b[:strings.IndexByte(b, ':')]
	return pa == pb || foreignTo(pa, pb) && foreignTo(pb, pa)
}

// TestP21_Detached synchronises into models outside of the document and with
// paths that lead nowhere.
func TestP21_Detached(t *testing.T) {
	rule("P21/detached", "a synchronisation into a model outside of the document, one with a model of another namespace, or one whose paths are no XMP paths or lead to unknown namespaces or properties; distinct calls counted")
	check(t, 1500, func(rt *rapid.T) {
		key := ""
		err := try(func() error {
			e, err := newEditDoc(rt)
			if err != nil {
				return err
			}
			defer e.d.Close()
			tg, err := e.genTarget(rt)
			if err != nil || !tg.modelled || tg.value == "" || tg.kind == langTarget || tg.kind == altTarget {
				return err
			}
			var srcs []string
			for _, p := range e.models {
				for _, s := range textSources(p) {
					if topOf(s) != topOf(tg.path) {
						srcs = append(srcs, s)
					}
				}
			}
			if len(srcs) == 0 {
				return nil
			}
			src := rapid.SampledFrom(srcs).Draw(rt, "source")
			if err := e.d.SetPath(xmp.PathValue{Path: xmp.Path(src), Value: tg.value, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
				return fmt.Errorf("setting the source %s to %q: %v", src, tg.value, err)
			}
			before, err := rawListing(e.d)
			if err != nil {
				return err
			}
			unchanged := func(what string, err error) error {
				after, lerr := rawListing(e.d)
				if lerr != nil {
					return lerr
				}
				if s := diffMaps(before, after); s != "" {
					return fmt.Errorf("%s (error: %v) changes the document: %s", what, err, s)
				}
				return nil
			}
			flags := rapid.SampledFrom([]xmp.SyncFlags{0, xmp.DEFAULT, xmp.MERGE, xmp.EXTEND, xmp.CREATE, xmp.CREATE | xmp.REPLACE, xmp.CREATE | xmp.DELETE | xmp.NOFAIL}).Draw(rt, "flags")
			prefix := tg.path[:strings.IndexByte(tg.path, ':')]
			kind := rapid.IntRange(0, 3).Draw(rt, "kind")
			key = fmt.Sprintf("%d %s %s %q %s", kind, src, tg.path, tg.value, flagText(flags))
			switch kind {
			case 0, 1: // a model of its own
				m := newModel(prefix)
				if m == nil || m.Namespaces()[0].GetName() != prefix {
					return nil
				}
				if tg.kind == itemTarget {
					tg.path = base(tg.path)
				}
				cur, _ := xmp.GetModelPath(m, xmp.Path(tg.path))
				err := e.d.Sync(xmp.Path(src), xmp.Path(tg.path), flags, m, nil)
				if err != nil && (cur == "" || flags&xmp.NOFAIL > 0) {
					return fmt.Errorf("sync to a model: %v", err)
				}
				if got, err := xmp.GetModelPath(m, xmp.Path(tg.path)); (err != nil || got != tg.value) && cur == "" {
					return fmt.Errorf("sync to a model: %s reads as %q, %v; want %q", tg.path, got, err, tg.value)
				}
				pl, err := xmp.ListModelPaths(m)
				if err != nil {
					return err
				}
				always := alwaysListed(m)
				for _, v := range pl {
					p := string(v.Path)
					if a, ok := always[p]; (!ok || a != v.Value) && topOf(p) != topOf(tg.path) {
						return fmt.Errorf("sync to a model: %s is %q", p, v.Value)
					}
				}
				tally("P21/detached", key, true, "detached")
				return unchanged("sync to a model outside", err)
			case 2: // another model
				other := "dc"
				if prefix == "dc" {
					other = "xmpRights"
				}
				m := newModel(other)
				err := e.d.Sync(xmp.Path(src), xmp.Path(tg.path), flags, m, nil)
				if s := canonModel(m); s == nil || diffMaps(canonModel(newModel(other)), s) != "" {
					return fmt.Errorf("a model of another namespace changes: %v", s)
				}
				tally("P21/detached", key, true, "foreign model")
				return unchanged("sync to a model of another namespace", err)
			default:
				bad := rapid.SampledFrom([]string{"", "nope:text", "editz:a/b", "noprefix", "/tmp/file", prefix + ":NoSuchProperty", "stDim:w", "xmpG:mode", "editc:text"}).Draw(rt, "path")
				key += bad
				var err error
				if rapid.Bool().Draw(rt, "source") {
					err = e.d.Sync(xmp.Path(bad), xmp.Path(tg.path), flags, nil, nil)
				} else {
					err = e.d.Sync(xmp.Path(src), xmp.Path(bad), flags, nil, nil)
				}
				if err != nil && flags&xmp.NOFAIL > 0 {
					return fmt.Errorf("sync with %q: %v", bad, err)
				}
				tally("P21/detached", key, true, "no such path")
				return unchanged(fmt.Sprintf("sync with %q", bad), err)
			}
		})
		if err != nil {
			rt.Fatalf("%v\n%s", err, key)
		}
	})
}
