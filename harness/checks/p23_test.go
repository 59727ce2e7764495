package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P23: algebra of paths, filters, namespace groups, update flags, path lists.

var (
	genPrefix  = rapid.SampledFrom([]string{"dc", "xmp", "xmpMM", "stRef", "exif", "ext", "n1", "my-ns", "x.y"})
	genName    = rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_.-]{0,7}`)
	genIdx     = rapid.OneOf(rapid.Just(""), rapid.Just("[]"), rapid.StringMatching(`\[(0|[1-9][0-9]{0,2})\]`), rapid.SampledFrom([]string{"[en]", "[en-US]", "[x-default]", "[zh-Hant-TW]"}))
	genSegment = rapid.Custom(func(t *rapid.T) string {
		s := genName.Draw(t, "name") + genIdx.Draw(t, "idx")
		if rapid.IntRange(0, 3).Draw(t, "pre") == 0 {
			s = genPrefix.Draw(t, "segprefix") + ":" + s
		}
		return s
	})
)

func TestP23_path(t *testing.T) {
	rule("path", "random prefix and 0-6 random segments (names, indexes, languages, own prefixes); non-trivial: at least 2 segments")
	check(t, 30000, func(t *rapid.T) {
		pre := genPrefix.Draw(t, "prefix")
		segs := rapid.SliceOfN(genSegment, 0, 6).Draw(t, "segs")
		p := xmp.NewPath(pre, segs...)
		tally("path", p.String(), len(segs) >= 2)
		text := pre + ":" + strings.Join(segs, "/")
		if p.String() != text {
			t.Fatalf("NewPath = %q, want %q", p, text)
		}
		if got := p.Fields(); !sameStrings(got, segs) {
			t.Fatalf("Fields(%q) = %q, want %q", p, got, segs)
		}
		if p.Len() != len(segs) {
			t.Fatalf("Len(%q) = %d, want %d", p, p.Len(), len(segs))
		}
		if p.NamespacePrefix() != pre || !p.IsXmpPath() {
			t.Fatalf("prefix of %q = %q", p, p.NamespacePrefix())
		}
		// leading slash is ignored
		sl := xmp.Path(pre + ":/" + strings.Join(segs, "/"))
		if !sameStrings(sl.Fields(), segs) || sl.Len() != len(segs) {
			t.Fatalf("Fields(%q) = %q Len %d, want %q", sl, sl.Fields(), sl.Len(), segs)
		}
		// push / pop at the end
		extra := rapid.SliceOfN(genSegment, 1, 3).Draw(t, "extra")
		q := p.Push(extra...)
		if want := xmp.NewPath(pre, append(append([]string{}, segs...), extra...)...); q != want {
			t.Fatalf("Push = %q, want %q", q, want)
		}
		for i := len(extra) - 1; i >= 0; i-- {
			var s string
			s, q = q.Pop()
			if s != extra[i] {
				t.Fatalf("Pop after Push = %q, want %q", s, extra[i])
			}
		}
		if q != p {
			t.Fatalf("Push then Pop = %q, want %q", q, p)
		}
		// the path is not changed by any of this
		if p.String() != text {
			t.Fatalf("path changed to %q", p)
		}
		// pop from the front walks all segments; a segment with its own prefix
		// switches the namespace of the remainder
		w, ns := p, pre
		for i, s := range segs {
			wantName, wantNs := s, ns
			if k := strings.Index(s, ":"); k > 0 {
				wantNs, wantName = s[:k], s[k+1:]
			}
			if got := w.PeekNamespacePrefix(); got != wantNs {
				t.Fatalf("PeekNamespacePrefix(%q) = %q, want %q", w, got, wantNs)
			}
			var got string
			got, w = w.PopFront()
			if got != wantName {
				t.Fatalf("PopFront #%d of %q = %q, want %q", i, p, got, wantName)
			}
			ns = wantNs
			if w.NamespacePrefix() != ns || !sameStrings(w.Fields(), segs[i+1:]) {
				t.Fatalf("rest after PopFront #%d of %q = %q (ns %q, want %q)", i, p, w, w.NamespacePrefix(), ns)
			}
		}
		if s, r := w.PopFront(); s != "" || r.Len() != 0 {
			t.Fatalf("PopFront at the end of %q = %q, %q", p, s, r)
		}
		if len(segs) == 0 {
			if s, r := p.Pop(); s != "" || r != p {
				t.Fatalf("Pop of empty path %q = %q, %q", p, s, r)
			}
		}
		// indexes
		if len(segs) > 0 {
			i := rapid.IntRange(0, 1000).Draw(t, "i")
			lang := rapid.SampledFrom([]string{"en", "x-default", "de-DE"}).Draw(t, "lang")
			for _, c := range []struct {
				got xmp.Path
				idx string
			}{{p.AppendIndex(i), fmt.Sprintf("[%d]", i)}, {p.AppendIndexString(lang), "[" + lang + "]"}} {
				want := text + c.idx
				if strings.HasSuffix(text, "]") {
					want = text + "/" + c.idx
				}
				if c.got.String() != want {
					t.Fatalf("append index to %q = %q, want %q", p, c.got, want)
				}
			}
		}
		// text form
		var u xmp.Path
		if err := u.UnmarshalText([]byte(text)); err != nil || u != p {
			t.Fatalf("UnmarshalText(%q) = %q, %v", text, u, err)
		}
		bad := strings.ReplaceAll(text, ":", "")
		u = "keep:me"
		if err := u.UnmarshalText([]byte(bad)); err == nil {
			t.Fatalf("UnmarshalText(%q) accepted a path without namespace", bad)
		}
		if xmp.Path(bad).IsXmpPath() {
			t.Fatalf("IsXmpPath(%q)", bad)
		}
		// namespace lookup
		other := genPrefix.Draw(t, "other")
		if got := p.MatchNamespace(xmp.NewNamespace(other, "ns:"+other, nil)); got != (other == pre) {
			t.Fatalf("MatchNamespace(%q, %q) = %v", p, other, got)
		}
		if p.MatchNamespace(nil) {
			t.Fatalf("MatchNamespace(nil)")
		}
		d := xmp.NewDocument()
		defer d.Close()
		nsv, err := p.Namespace(d)
		reg, rerr := xmp.GetNamespace(pre)
		if (err == nil) != (rerr == nil) || (err == nil && nsv.GetURI() != reg.GetURI()) {
			t.Fatalf("Namespace(%q) = %v, %v; registry has %v, %v", p, nsv, err, reg, rerr)
		}
	})
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var flagNames = map[string]xmp.SyncFlags{
	"create": xmp.CREATE, "replace": xmp.REPLACE, "delete": xmp.DELETE,
	"append": xmp.APPEND, "unique": xmp.UNIQUE, "nofail": xmp.NOFAIL,
	"default": xmp.CREATE | xmp.REPLACE | xmp.DELETE | xmp.UNIQUE,
	"merge":   xmp.CREATE | xmp.UNIQUE | xmp.NOFAIL,
	"extend":  xmp.CREATE | xmp.REPLACE | xmp.UNIQUE | xmp.NOFAIL,
	"add":     xmp.CREATE | xmp.UNIQUE | xmp.NOFAIL,
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func TestP23_flags(t *testing.T) {
	rule("flags", "comma lists of 1-6 flag names in random case, some with one invalid word; non-trivial: two or more words")
	names := sortedKeys(flagNames)
	check(t, 15000, func(t *rapid.T) {
		words := rapid.SliceOfN(rapid.SampledFrom(names), 1, 6).Draw(t, "words")
		var want xmp.SyncFlags
		for i, w := range words {
			want |= flagNames[w]
			up := rapid.SliceOfN(rapid.Bool(), len(w), len(w)).Draw(t, "case")
			b := []byte(w)
			for k := range b {
				if up[k] {
					b[k] -= 'a' - 'A'
				}
			}
			words[i] = string(b)
		}
		text := strings.Join(words, ",")
		got, err := xmp.ParseSyncFlags(text)
		if err != nil || got != want {
			t.Fatalf("ParseSyncFlags(%q) = %b, %v; want %b", text, got, err, want)
		}
		f := xmp.SyncFlags(63)
		if err := f.UnmarshalText([]byte(text)); err != nil || f != want {
			t.Fatalf("UnmarshalText(%q) = %b, %v; want %b", text, f, err, want)
		}
		if err := f.UnmarshalText(nil); err != nil || f != 0 {
			t.Fatalf("UnmarshalText(empty) = %b, %v", f, err)
		}
		bad := rapid.StringMatching(`[a-z ]{0,8}`).Filter(func(s string) bool { _, ok := flagNames[s]; return !ok }).Draw(t, "bad")
		if f := xmp.ParseSyncFlag(bad); f != 0 {
			t.Fatalf("ParseSyncFlag(%q) = %b", bad, f)
		}
		pos := rapid.IntRange(0, len(words)).Draw(t, "pos")
		wb := append(append(append([]string{}, words[:pos]...), bad), words[pos:]...)
		tb := strings.Join(wb, ",")
		tally("flags", text+"|"+tb, len(words) > 1)
		if got, err := xmp.ParseSyncFlags(tb); err == nil {
			t.Fatalf("ParseSyncFlags(%q) accepted: %b", tb, got)
		}
		f = xmp.CREATE
		if tb != "" {
			if err := f.UnmarshalText([]byte(tb)); err == nil {
				t.Fatalf("UnmarshalText(%q) accepted: %b", tb, f)
			}
		}
	})
}

var groupNames = []string{"xmp", "image", "music", "movie", "sound", "camera", "vfx", "rights"}

func groupMembers(g string) []string {
	l, err := xmp.GetGroupNamespaces(xmp.NamespaceGroup(g))
	if err != nil {
		return nil
	}
	var n []string
	for _, v := range l {
		n = append(n, v.GetName())
	}
	return n
}

func isGroup(s string) bool {
	for _, g := range groupNames {
		if g == s {
			return true
		}
	}
	return false
}

func registeredPrefixes() []string {
	l := append([]string{}, modelPrefixes()...)
	l = append(l, "stRef", "stEvt", "xmpidq", "rdf", "xml", "x")
	return l
}

func TestP23_filter(t *testing.T) {
	rule("filter", "comma lists of 0-6 signed namespace or group names, known and unknown; non-trivial: both an include and an exclude")
	pre := registeredPrefixes()
	check(t, 15000, func(t *rapid.T) {
		type term struct {
			sign, name string
			kind       int
		}
		n := rapid.IntRange(0, 6).Draw(t, "n")
		var words, inc, exc []string
		unknown := false
		ni, ne := 0, 0
		for i := 0; i < n; i++ {
			sign := rapid.SampledFrom([]string{"", "+", "-"}).Draw(t, "sign")
			var name string
			var members []string
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0, 1:
				name = rapid.SampledFrom(groupNames).Draw(t, "group")
			case 2:
				name = "zz" + rapid.StringMatching(`[a-z]{1,5}`).Draw(t, "unknown")
			default:
				name = rapid.SampledFrom(pre).Draw(t, "ns")
			}
			if isGroup(name) {
				members = groupMembers(name)
			} else {
				members = []string{name}
				if _, err := xmp.GetNamespace(name); err != nil {
					unknown = true
				}
			}
			if sign == "-" {
				exc = append(exc, members...)
				ne++
			} else {
				inc = append(inc, members...)
				ni++
			}
			words = append(words, sign+name)
			if rapid.IntRange(0, 5).Draw(t, "blank") == 0 {
				words = append(words, "")
			}
		}
		text := strings.Join(words, ",")
		var want []string
		for _, v := range inc {
			want = append(want, "+"+v)
		}
		for _, v := range exc {
			want = append(want, "-"+v)
		}
		wantText := strings.Join(want, ",")
		tally("filter", text, ni > 0 && ne > 0, fmt.Sprintf("unknown=%v", unknown))
		f := xmp.ParseFilter(text)
		if f.String() != wantText {
			t.Fatalf("ParseFilter(%q) = %q, want %q", text, f, wantText)
		}
		var u xmp.Filter
		if err := u.UnmarshalText([]byte(text)); err != nil || u.String() != wantText {
			t.Fatalf("UnmarshalText(%q) = %q, %v; want %q", text, u, err, wantText)
		}
		if c, ok := xmp.ConvertFilter(text).Interface().(xmp.Filter); !ok || c.String() != wantText {
			t.Fatalf("ConvertFilter(%q) = %v, want %q", text, c, wantText)
		}
		s, err := xmp.ParseFilterStrict(text)
		if unknown {
			if err == nil {
				t.Fatalf("ParseFilterStrict(%q) accepted an unregistered namespace: %q", text, s)
			}
		} else if err != nil || s.String() != wantText {
			t.Fatalf("ParseFilterStrict(%q) = %v, %v; want %q", text, s, err, wantText)
		}
		// text form of the parsed filter parses to the same filter, unless a
		// namespace is named like a group
		amb := false
		for _, v := range append(append([]string{}, inc...), exc...) {
			amb = amb || isGroup(v)
		}
		if !amb {
			if g := xmp.ParseFilter(f.String()); g.String() != f.String() {
				t.Fatalf("ParseFilter(%q) = %q", f, g)
			}
		} else {
			excluded("filter text with a namespace named like a group (ambiguous by design: groups win)")
		}
	})
}

func TestP23_groups(t *testing.T) {
	rule("groups", "group names and random words; membership of every registered namespace compared with the group list")
	pre := registeredPrefixes()
	check(t, 1000, func(t *rapid.T) {
		w := rapid.OneOf(rapid.SampledFrom(groupNames), rapid.StringMatching(`[a-z]{0,7}`)).Draw(t, "word")
		g := xmp.ParseNamespaceGroup(w)
		tally("groups", w, isGroup(w))
		if isGroup(w) != (g != xmp.NoMetadata) || (isGroup(w) && string(g) != w) {
			t.Fatalf("ParseNamespaceGroup(%q) = %q", w, g)
		}
		members := groupMembers(w)
		name := rapid.SampledFrom(pre).Draw(t, "ns")
		ns, err := xmp.GetNamespace(name)
		if err != nil {
			t.Fatalf("GetNamespace(%q): %v", name, err)
		}
		in := false
		for _, m := range members {
			in = in || m == name
		}
		if g.Contains(ns) != in {
			t.Fatalf("group %q contains %q = %v, members %v", g, name, !in, members)
		}
		w2 := rapid.SampledFrom(groupNames).Draw(t, "second")
		in2 := in
		for _, m := range groupMembers(w2) {
			in2 = in2 || m == name
		}
		if got := (xmp.NamespaceGroupList{g, xmp.NamespaceGroup(w2)}).Contains(ns); got != in2 {
			t.Fatalf("group list {%q,%q} contains %q = %v", w, w2, name, got)
		}
		// the returned list is the caller's own
		if l, err := xmp.GetGroupNamespaces(g); err == nil && len(l) > 0 {
			l[0] = nil
			if again := groupMembers(w); !sameStrings(again, members) {
				t.Fatalf("group %q changed through a returned list", w)
			}
		}
	})
}

func TestP23_diff(t *testing.T) {
	rule("diff", "two lists of distinct paths over a small shared alphabet with non-empty values; non-trivial: at least one added, one removed and one changed path")
	genList := rapid.Custom(func(t *rapid.T) xmp.PathValueList {
		m := rapid.MapOfN(rapid.StringMatching(`dc:[a-fA](\[[0-2]\])?`), rapid.StringMatching(`[abA]{1,2} ?`), 0, 9).Draw(t, "m")
		l := make(xmp.PathValueList, 0)
		for _, k := range sortedKeys(m) {
			l.Add(xmp.Path(k), m[k])
		}
		return l
	})
	check(t, 15000, func(t *rapid.T) {
		x, y := genList.Draw(t, "x"), genList.Draw(t, "y")
		mx, my := map[xmp.Path]string{}, map[xmp.Path]string{}
		for _, v := range x {
			mx[v.Path] = v.Value
		}
		for _, v := range y {
			my[v.Path] = v.Value
		}
		want := map[xmp.Path]xmp.SyncFlags{}
		var na, nr, nc int
		for p, v := range mx {
			if w, ok := my[p]; !ok {
				want[p] = xmp.DELETE
				nr++
			} else if w != v {
				want[p] = xmp.REPLACE
				nc++
			}
		}
		for p := range my {
			if _, ok := mx[p]; !ok {
				want[p] = xmp.CREATE
				na++
			}
		}
		tally("diff", fmt.Sprint(x, y), na > 0 && nr > 0 && nc > 0)
		got := x.Diff(y)
		if len(got) != len(want) {
			t.Fatalf("Diff(%v, %v) = %v, want %v", x, y, got, want)
		}
		seen := map[xmp.Path]bool{}
		for _, v := range got {
			f, ok := want[v.Path]
			if !ok || seen[v.Path] {
				t.Fatalf("Diff(%v, %v) reports %v", x, y, v)
			}
			seen[v.Path] = true
			if len(x) > 0 && len(y) > 0 && v.Flags != f {
				t.Fatalf("Diff(%v, %v) reports %v as %b, want %b", x, y, v.Path, v.Flags, f)
			}
			if f == xmp.CREATE && v.Value != my[v.Path] || f == xmp.DELETE && v.Value != mx[v.Path] {
				t.Fatalf("Diff(%v, %v) reports %v with value %q", x, y, v.Path, v.Value)
			}
		}
		// Find
		p := xmp.Path(rapid.StringMatching(`dc:[a-f](\[[0-2]\])?`).Draw(t, "find"))
		f := x.Find(p)
		if v, ok := mx[p]; ok != (f != nil) || (ok && (f.Value != v || f.Path != p)) {
			t.Fatalf("Find(%q) in %v = %v", p, x, f)
		}
		// Unique keeps the first of each run of equal paths
		var dup xmp.PathValueList
		for _, v := range x {
			for k := rapid.IntRange(1, 3).Draw(t, "rep"); k > 0; k-- {
				dup.Add(v.Path, v.Value)
			}
		}
		u := dup.Unique()
		if len(u) != len(x) {
			t.Fatalf("Unique(%v) = %v", dup, u)
		}
		for i := range u {
			if u[i] != x[i] {
				t.Fatalf("Unique(%v) = %v", dup, u)
			}
		}
		// empty values are never added
		n := len(x)
		x.Add(p, "")
		x.AddFlags(p, "", xmp.CREATE)
		if len(x) != n {
			t.Fatalf("Add with empty value changed the list")
		}
		x.AddFlags(p, "v", xmp.APPEND)
		if len(x) != n+1 || x[n] != (xmp.PathValue{Path: p, Value: "v", Flags: xmp.APPEND}) {
			t.Fatalf("AddFlags: %v", x)
		}
	})
}
