package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/models/ixml"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// reference model of a language alternative
type altEntry struct {
	lang, value string
	def         bool
}

type altModel []altEntry

func (m altModel) index(lang string) int {
	for i, v := range m {
		if v.lang == lang {
			return i
		}
	}
	return -1
}

func (m altModel) ensure() altModel {
	if len(m) == 0 {
		return m
	}
	for _, v := range m {
		if v.def {
			return m
		}
	}
	m[0].def = true
	return m
}

func (m altModel) add(lang, value string) altModel {
	if value == "" {
		return m
	}
	return append(append(altModel{}, m...), altEntry{lang, value, false}).ensure()
}

func showAlt(a xmp.AltString) string {
	s := ""
	for _, v := range a {
		s += fmt.Sprintf("[%s=%q", v.Lang, v.Value)
		if v.IsDefault {
			s += " default"
		}
		s += "]"
	}
	return s
}

func showAltModel(m altModel) string {
	a := xmp.AltString{}
	for _, v := range m {
		a = append(a, xmp.AltItem{Lang: v.lang, Value: v.value, IsDefault: v.def})
	}
	return showAlt(a)
}

func TestP16_AltString(t *testing.T) {
	rule("altstring", "histories of up to 12 operations (new, add, add default, add unique, set, remove) with 5 languages and 5 values against a list model; non-trivial: at least two entries at some point")
	langs := []string{"", "en", "de", "en-US", "fr"}
	vals := []string{"a", "b", "c", "a b", "", "ä\"<"}
	check(t, 40000, func(rt *rapid.T) {
		var a xmp.AltString
		var m altModel
		var hist []string
		// constructor
		n := rapid.IntRange(0, 4).Draw(rt, "initial")
		if n > 0 {
			perm := rapid.Permutation(langs).Draw(rt, "langs")
			var items []interface{}
			var want altModel
			defs := 0
			for i := 0; i < n; i++ {
				v := rapid.SampledFrom(vals).Draw(rt, "v")
				e := altEntry{perm[i], v, rapid.Bool().Draw(rt, "def")}
				switch k := rapid.IntRange(0, 3).Draw(rt, "kind"); {
				case k == 0 && e.lang == "":
					e.def = false
					items = append(items, v)
				case k == 1 && e.lang == "":
					e.def = false
					items = append(items, xmp.GUID(v))
				default:
					items = append(items, xmp.AltItem{Value: v, Lang: e.lang, IsDefault: e.def})
				}
				if v == "" {
					continue
				}
				if e.def {
					defs++
				}
				want = append(want, e)
			}
			a = xmp.NewAltString(items...)
			hist = append(hist, "new"+showAltModel(want))
			// contents are the same items, one default, listed first
			if len(a) != len(want) {
				rt.Fatalf("%v: %s", hist, showAlt(a))
			}
			for _, w := range want {
				if a.Get(w.lang) != w.value && w.lang != "" {
					rt.Fatalf("%v: lost %q: %s", hist, w.lang, showAlt(a))
				}
			}
			if len(a) > 0 {
				if !a[0].IsDefault {
					rt.Fatalf("%v: default is not first: %s", hist, showAlt(a))
				}
				i := want.index(a[0].Lang)
				if i < 0 || defs > 0 && !want[i].def {
					rt.Fatalf("%v: wrong default: %s", hist, showAlt(a))
				}
			}
			for i, v := range a {
				if i > 0 && v.IsDefault {
					rt.Fatalf("%v: two defaults: %s", hist, showAlt(a))
				}
				m = append(m, altEntry{v.Lang, v.Value, v.IsDefault})
			}
		}
		maxLen := 0
		for i, l := 0, rapid.IntRange(1, 12).Draw(rt, "ops"); i < l; i++ {
			lang := rapid.SampledFrom(langs).Draw(rt, "lang")
			val := rapid.SampledFrom(vals).Draw(rt, "val")
			before := append(altModel{}, m...)
			op := rapid.SampledFrom([]string{"add", "default", "unique", "set", "set", "remove", "ensure"}).Draw(rt, "op")
			hist = append(hist, fmt.Sprintf("%s(%q,%q)", op, lang, val))
			if err := try(func() error {
				switch op {
				case "add":
					a.Add(lang, val)
					m = m.add(lang, val)
				case "default":
					a.AddDefault(lang, val)
					if val != "" {
						m = append(altModel{{lang, val, true}}, m...)
						for j := 1; j < len(m); j++ {
							m[j].def = false
						}
					}
				case "unique":
					ok := a.AddUnique(lang, val)
					idx := m.index(lang)
					want := val != "" && !(idx >= 0 && m[idx].value == val)
					if ok != want {
						return fmt.Errorf("AddUnique returned %v", ok)
					}
					if want {
						m = m.add(lang, val)
					}
				case "set":
					a.Set(lang, val)
					if val != "" {
						if idx := m.index(lang); idx >= 0 {
							m[idx].value = val
						} else {
							m = m.add(lang, val)
						}
					}
				case "remove":
					a.RemoveLang(lang)
					if idx := m.index(lang); idx >= 0 {
						m = append(append(altModel{}, m[:idx]...), m[idx+1:]...).ensure()
					}
				case "ensure":
					a.EnsureDefault()
				}
				return nil
			}); err != nil {
				rt.Fatalf("%v: %v", hist, err)
			}
			if showAlt(a) != showAltModel(m) {
				rt.Fatalf("%v\n got %s\nwant %s\nwas  %s", hist, showAlt(a), showAltModel(m), showAltModel(before))
			}
			// observers
			defs := 0
			for j, v := range a {
				if v.IsDefault {
					defs++
					if j != 0 {
						rt.Fatalf("%v: default not first: %s", hist, showAlt(a))
					}
				}
				if want := v.Lang; v.IsDefault && v.Lang == "" {
					if v.GetLang() != "x-default" {
						rt.Fatalf("GetLang %q", v.GetLang())
					}
				} else if v.GetLang() != want {
					rt.Fatalf("GetLang %q", v.GetLang())
				}
			}
			if len(a) > 0 && defs != 1 || len(a) == 0 && defs != 0 {
				rt.Fatalf("%v: %d defaults: %s", hist, defs, showAlt(a))
			}
			def := ""
			if len(m) > 0 {
				def = m[0].value
			}
			if a.Default() != def || a.Get("") != def {
				rt.Fatalf("%v: default %q/%q, want %q", hist, a.Default(), a.Get(""), def)
			}
			if a.IsZero() != (len(m) == 0) {
				rt.Fatalf("%v: IsZero", hist)
			}
			for _, l := range append(langs, "xx") {
				idx := m.index(l)
				if a.Index(l) != idx {
					rt.Fatalf("%v: Index(%q) = %d, want %d", hist, l, a.Index(l), idx)
				}
				if l == "" {
					continue
				}
				want := ""
				if idx >= 0 {
					want = m[idx].value
				}
				if a.Get(l) != want {
					rt.Fatalf("%v: Get(%q) = %q, want %q", hist, l, a.Get(l), want)
				}
			}
			if op == "set" && val != "" && lang != "" && a.Get(lang) != val {
				rt.Fatalf("%v: Get after Set = %q", hist, a.Get(lang))
			}
			if len(m) > maxLen {
				maxLen = len(m)
			}
		}
		tally("altstring", strings.Join(hist, " "), maxLen > 1)
	})
	example(t, "NewAltString without default", func() error {
		a := xmp.NewAltString("a", "b")
		if showAlt(a) != `[="a" default][="b"]` {
			return fmt.Errorf("%s", showAlt(a))
		}
		return nil
	})
}

// strlist abstracts the string containers of the library
type strlist struct {
	name      string
	skipEmpty bool
	get       func() []string
	add       func(string)
	addUnique func(string)
	remove    func(string)
	index     func(string) int
	contains  func(string) bool
}

func newStrList(kind string, init []string) strlist {
	switch kind {
	case "StringList":
		x := xmp.NewStringList(init...)
		return strlist{kind, true, func() []string { return x }, func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) { x.Remove(s) }, func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }}
	case "StringArray":
		x := xmp.NewStringArray(init...)
		return strlist{kind, true, func() []string { return x }, func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) { x.Remove(s) }, func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }}
	case "IdentifierArray":
		var l []interface{}
		for _, v := range init {
			l = append(l, v)
		}
		x := xmpbase.NewIdentifierArray(l...)
		return strlist{kind, false, func() []string {
			var r []string
			for _, v := range x {
				if v.Scheme != "" {
					r = append(r, "scheme!"+v.Scheme)
				}
				r = append(r, v.ID)
			}
			return r
		}, func(s string) { x.Add(s) }, func(s string) { x.AddUnique(s) }, func(s string) { x.Remove(s) }, func(s string) int { return x.Index(s) }, func(s string) bool { return x.Contains(s) }}
	case "TakeTypeList":
		var x ixml.TakeTypeList
		for _, v := range init {
			x = append(x, ixml.TakeType(v))
		}
		return strlist{kind, false, func() []string { return convStrings(x) }, nil, func(s string) { x.Add(ixml.TakeType(s)) }, func(s string) { x.Del(ixml.TakeType(s)) }, nil, func(s string) bool { return x.Contains(ixml.TakeType(s)) }}
	case "LocationTypeList":
		var x ixml.LocationTypeList
		for _, v := range init {
			x = append(x, ixml.LocationType(v))
		}
		return strlist{kind, false, func() []string { return convStrings(x) }, nil, func(s string) { x.Add(ixml.LocationType(s)) }, func(s string) { x.Del(ixml.LocationType(s)) }, nil, func(s string) bool { return x.Contains(ixml.LocationType(s)) }}
	case "LocationTimeList":
		var x ixml.LocationTimeList
		for _, v := range init {
			x = append(x, ixml.LocationTime(v))
		}
		return strlist{kind, false, func() []string { return convStrings(x) }, nil, func(s string) { x.Add(ixml.LocationTime(s)) }, func(s string) { x.Del(ixml.LocationTime(s)) }, nil, func(s string) bool { return x.Contains(ixml.LocationTime(s)) }}
	case "FunctionSet":
		var x ixml.FunctionSet
		for _, v := range init {
			x = append(x, ixml.FunctionType(v))
		}
		return strlist{kind, false, func() []string { return convStrings(x) }, nil, func(s string) { x.Merge(ixml.FunctionSet{ixml.FunctionType(s)}) }, func(s string) { x.Sub(ixml.FunctionSet{ixml.FunctionType(s)}) }, nil, func(s string) bool { return x.Contains(ixml.FunctionType(s)) }}
	}
	panic(kind)
}

func convStrings[T ~string](x []T) []string {
	var r []string
	for _, v := range x {
		r = append(r, string(v))
	}
	return r
}

func TestP16_Lists(t *testing.T) {
	rule("list", "histories of up to 12 operations (add, add unique, remove, find) on every string list type against a slice model; non-trivial: a removal from a list of two or more items")
	kinds := []string{"StringList", "StringArray", "IdentifierArray", "TakeTypeList", "LocationTypeList", "LocationTimeList", "FunctionSet"}
	vals := []string{"a", "b", "c", "d", "e", ""}
	check(t, 40000, func(rt *rapid.T) {
		kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
		set := kind != "StringList" && kind != "StringArray" && kind != "IdentifierArray"
		var init []string
		if set {
			init = rapid.SliceOfNDistinct(rapid.SampledFrom(vals[:5]), 0, 4, rapid.ID[string]).Draw(rt, "init")
		} else {
			init = rapid.SliceOfN(rapid.SampledFrom(vals), 0, 4).Draw(rt, "init")
		}
		x := newStrList(kind, init)
		var m []string
		for _, v := range init {
			if v != "" {
				m = append(m, v)
			}
		}
		idx := func(s string) int {
			for i, v := range m {
				if v == s {
					return i
				}
			}
			return -1
		}
		hist := []string{kind, fmt.Sprintf("%q", init)}
		nt := false
		for i, l := 0, rapid.IntRange(1, 12).Draw(rt, "ops"); i < l; i++ {
			s := rapid.SampledFrom(vals).Draw(rt, "s")
			if !x.skipEmpty && s == "" {
				s = "f"
			}
			op := rapid.SampledFrom([]string{"add", "unique", "unique", "remove", "remove"}).Draw(rt, "op")
			if op == "add" && x.add == nil {
				op = "unique"
			}
			hist = append(hist, op+" "+s)
			err := try(func() error {
				switch op {
				case "add":
					x.add(s)
					if s != "" {
						m = append(m, s)
					}
				case "unique":
					x.addUnique(s)
					if s != "" && idx(s) < 0 {
						m = append(m, s)
					}
				case "remove":
					x.remove(s)
					if k := idx(s); s != "" && k >= 0 {
						if len(m) > 1 {
							nt = true
						}
						m = append(append([]string{}, m[:k]...), m[k+1:]...)
					}
				}
				return nil
			})
			if err != nil {
				rt.Fatalf("%v: %v", hist, err)
			}
			if fmt.Sprintf("%q", x.get()) != fmt.Sprintf("%q", m) {
				rt.Fatalf("%v: have %q, want %q", hist, x.get(), m)
			}
			for _, s := range vals[:5] {
				if x.contains(s) != (idx(s) >= 0) || x.index != nil && x.index(s) != idx(s) {
					rt.Fatalf("%v: find %q in %q", hist, s, m)
				}
			}
			if x.skipEmpty && (x.contains("") || x.index("") != -1) {
				rt.Fatalf("%v: found the empty string", hist)
			}
		}
		tally("list", strings.Join(hist, " "), nt, kind)

		// text form of string lists: one item per line
		if x.skipEmpty && len(m) > 0 {
			sep := rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(rt, "sep")
			sl, sa := xmp.StringList(m), xmp.StringArray(m)
			b1, e1 := sl.MarshalText()
			b2, e2 := sa.MarshalText()
			if e1 != nil || e2 != nil || string(b1) != strings.Join(m, "\n") || string(b2) != strings.Join(m, "\n") {
				rt.Fatalf("text of %q is %q, %q", m, b1, b2)
			}
			txt := []byte(strings.Join(m, sep))
			var rl xmp.StringList
			var ra xmp.StringArray
			if rl.UnmarshalText(txt) != nil || ra.UnmarshalText(txt) != nil || fmt.Sprint([]string(rl)) != fmt.Sprint(m) || fmt.Sprint([]string(ra)) != fmt.Sprint(m) {
				rt.Fatalf("%q reads as %q, %q", txt, rl, ra)
			}
		}
	})
}

func TestP16_Others(t *testing.T) {
	rule("reflist", "integer lists and resource reference lists: adding, finding by document id, deleting by index; non-trivial: list of two or more")
	check(t, 12000, func(rt *rapid.T) {
		ints := rapid.SliceOfN(rapid.IntRange(-5, 300), 0, 5).Draw(rt, "ints")
		more := rapid.SliceOfN(rapid.IntRange(-5, 300), 0, 3).Draw(rt, "more")
		l, a := xmp.NewIntList(ints...), xmp.NewIntArray(ints...)
		for _, v := range more {
			l.Add(v)
			a.Add(v)
		}
		all := append(append([]int{}, ints...), more...)
		if fmt.Sprint([]int(l)) != fmt.Sprint(all) || fmt.Sprint([]int(a)) != fmt.Sprint(all) || l.IsZero() != (len(all) == 0) || a.IsZero() != (len(all) == 0) {
			rt.Fatalf("int lists %v %v, want %v", l, a, all)
		}
		if l.String() != strings.Trim(fmt.Sprint(all), "[]") {
			rt.Fatalf("%v prints as %q", all, l.String())
		}
		var refs xmpmm.ResourceRefArray
		var ids []string
		for i, n := 0, rapid.IntRange(0, 5).Draw(rt, "refs"); i < n; i++ {
			id := rapid.SampledFrom([]string{"a", "b", "c", ""}).Draw(rt, "id")
			ids = append(ids, id)
			refs = append(refs, &xmpmm.ResourceRef{DocumentID: xmp.GUID(id)})
		}
		for i := 0; i < 4; i++ {
			k := rapid.IntRange(-2, len(ids)+2).Draw(rt, "del")
			tally("reflist", fmt.Sprint(all, ids, k), len(ids) > 1)
			if err := try(func() error { refs.DeleteIndex(k); return nil }); err != nil {
				rt.Fatalf("delete %d of %q: %v", k, ids, err)
			}
			if k >= 0 && k < len(ids) {
				ids = append(append([]string{}, ids[:k]...), ids[k+1:]...)
			}
			got := []string{}
			for _, r := range refs {
				got = append(got, string(r.DocumentID))
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", append([]string{}, ids...)) {
				rt.Fatalf("after deleting %d: %q, want %q", k, got, ids)
			}
			for _, id := range []string{"a", "b", "c", "", "z"} {
				want := -1
				for i, v := range ids {
					if v == id {
						want = i
						break
					}
				}
				if refs.Index(xmp.GUID(id)) != want {
					rt.Fatalf("index of %q in %q is %d", id, ids, refs.Index(xmp.GUID(id)))
				}
			}
		}
		var arr xmp.AltStringArray
		for i := 0; i < 3; i++ {
			if rapid.Bool().Draw(rt, "nil") {
				arr.Add(nil)
			} else {
				s := xmp.NewAltString(fmt.Sprint(i))
				before := len(arr)
				arr.Add(&s)
				if len(arr) != before+1 || arr[before] != &s {
					rt.Fatalf("AltStringArray %v", arr)
				}
			}
		}
		for _, v := range arr {
			if v == nil {
				rt.Fatalf("nil entry")
			}
		}
	})
}
