package checks

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// P30: trees of nodes, compared with a reference tree after every operation.

type tnode struct {
	space, local, value string
	attr                []xmp.Attr
	kids                []*tnode
	model               string // namespace of the node's model
	parent              *tnode
	real                *xmp.Node
}

func (t *tnode) walk(f func(*tnode)) {
	f(t)
	for _, k := range t.kids {
		k.walk(f)
	}
}

func (t *tnode) root() *tnode {
	for t.parent != nil {
		t = t.parent
	}
	return t
}

func (t *tnode) index(k *tnode) int {
	for i, v := range t.kids {
		if v == k {
			return i
		}
	}
	return -1
}

func cutName(s string) (prefix, name string, ok bool) {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i], s[i+1:], true
	}
	return "", s, false
}

func (t *tnode) name() string { _, n, _ := cutName(t.local); return n }

var nodeSpaces = map[string]string{"http://purl.org/dc/elements/1.1/": "dc", "http://ns.adobe.com/xap/1.0/": "xmp"}

func (t *tnode) fullName() string {
	if p, ok := nodeSpaces[t.space]; ok {
		return p + ":" + t.local
	}
	return t.local
}

func (t *tnode) namespace() string {
	if t.space != "" {
		return t.space
	}
	if p, _, ok := cutName(t.local); ok {
		return p
	}
	return t.local
}

func (t *tnode) array() string {
	if len(t.kids) == 1 {
		switch n := t.kids[0].fullName(); n {
		case "rdf:Seq", "rdf:Bag", "rdf:Alt":
			return n[4:]
		}
	}
	return ""
}

func (t *tnode) zero() bool {
	if t.model != "" || t.value != "" {
		return false
	}
	for _, a := range t.attr {
		if a.Value != "" {
			return false
		}
	}
	for _, k := range t.kids {
		if !k.zero() {
			return false
		}
	}
	return true
}

// same compares the tree with what the library has.
func (t *tnode) same() error {
	n := t.real
	if n.XMLName != (xml.Name{Space: t.space, Local: t.local}) || n.Value != t.value {
		return fmt.Errorf("node %s=%q is %v=%q", t.local, t.value, n.XMLName, n.Value)
	}
	if (n.Model != nil) != (t.model != "") {
		return fmt.Errorf("node %s has model %T, want %q", t.local, n.Model, t.model)
	}
	if fmt.Sprint([]xmp.Attr(n.Attr)) != fmt.Sprint(t.attr) {
		return fmt.Errorf("node %s has attributes %v, want %v", t.local, n.Attr, t.attr)
	}
	if n.Name() != t.name() || n.FullName() != t.fullName() || n.Namespace() != t.namespace() {
		return fmt.Errorf("node %v is called %q, %q in %q; want %q, %q in %q", n.XMLName, n.Name(), n.FullName(), n.Namespace(), t.name(), t.fullName(), t.namespace())
	}
	if n.IsArray() != (t.array() != "") || string(n.ArrayType()) != t.array() {
		return fmt.Errorf("node %s is array %v %q, want %q", t.local, n.IsArray(), n.ArrayType(), t.array())
	}
	if n.IsZero() != t.zero() {
		return fmt.Errorf("node %s is zero %v, want %v", t.local, n.IsZero(), t.zero())
	}
	if len(n.Nodes) != len(t.kids) {
		return fmt.Errorf("node %s has %d children, want %d", t.local, len(n.Nodes), len(t.kids))
	}
	for i, k := range t.kids {
		if n.Nodes[i] != k.real {
			return fmt.Errorf("child %d of node %s is another node", i, t.local)
		}
		if n.Nodes.Index(k.real) != i {
			return fmt.Errorf("child %d of node %s has index %d", i, t.local, n.Nodes.Index(k.real))
		}
		if err := k.same(); err != nil {
			return err
		}
	}
	return nil
}

var (
	treeNames = []string{"a:x", "a:y", "b:x", "x", "y", "rdf:li", "rdf:Seq", "rdf:Bag", "rdf:Alt", "dc", "xmp"}
	treeAttrs = []string{"a:k", "b:k", "k", "rdf:about", "xml:lang", "xmlns:a"}
)

func TestP30_trees(t *testing.T) {
	rule("trees", "5-30 operations on several node trees: nodes made, added, appended, moved, removed, cleared, closed, attributes and values set, searched by name; every live tree is compared after every step; non-trivial: at least three nodes in one tree and a removal, replacement or close")
	check(t, 5000, func(rt *rapid.T) {
		var roots []*tnode
		var log []string
		most, gone := 0, 0
		live := func() (l []*tnode) {
			for _, r := range roots {
				r.walk(func(x *tnode) { l = append(l, x) })
			}
			return l
		}
		mk := func(label string) *tnode {
			x := &tnode{local: rapid.SampledFrom(treeNames).Draw(rt, label)}
			if _, _, ok := cutName(x.local); !ok && rapid.IntRange(0, 4).Draw(rt, label+".spaced") == 0 {
				x.space = "http://purl.org/dc/elements/1.1/"
			}
			if x.space == "" {
				x.real = xmp.NewNode(xmp.NewName(x.local))
			} else {
				x.real = xmp.NewNode(xml.Name{Space: x.space, Local: x.local})
			}
			roots = append(roots, x)
			return x
		}
		unroot := func(x *tnode) {
			for i, r := range roots {
				if r == x {
					roots = append(append([]*tnode(nil), roots[:i]...), roots[i+1:]...)
					return
				}
			}
		}
		step := func(i int) error {
			l := fmt.Sprintf("s%d", i)
			op := rapid.SampledFrom([]string{"new", "new", "add", "add", "append", "append", "remove", "clear", "close", "attr", "attr", "value", "find", "model", "getattr"}).Draw(rt, l)
			if len(roots) == 0 {
				op = "new"
			}
			if op == "new" {
				x := mk(l + ".name")
				log = append(log, "new "+x.local)
				return nil
			}
			n := rapid.SampledFrom(live()).Draw(rt, l+".node")
			log = append(log, op+" "+n.local)
			switch op {
			case "add", "append":
				// only roots of other trees become children
				var free []*tnode
				for _, r := range roots {
					if r != n.root() {
						free = append(free, r)
					}
				}
				var c *tnode
				if len(free) == 0 {
					c = mk(l + ".child")
				} else {
					c = rapid.SampledFrom(free).Draw(rt, l+".child")
				}
				unroot(c)
				c.parent = n
				if op == "append" {
					n.kids = append(n.kids, c)
					if got := n.real.AppendNode(c.real); got != c.real {
						return fmt.Errorf("AppendNode returns another node")
					}
					return nil
				}
				done := false
				for k, v := range n.kids {
					if v.local == c.local {
						v.parent = nil
						roots = append(roots, v)
						n.kids[k] = c
						done = true
						gone++
						break
					}
				}
				if !done {
					n.kids = append(n.kids, c)
				}
				if got := n.real.AddNode(c.real); got != c.real {
					return fmt.Errorf("AddNode returns another node")
				}
			case "remove":
				c := rapid.SampledFrom(live()).Draw(rt, l+".child")
				if len(n.kids) > 0 && rapid.IntRange(0, 2).Draw(rt, l+".own") > 0 {
					c = rapid.SampledFrom(n.kids).Draw(rt, l+".kid")
				}
				if c == n {
					return nil
				}
				if k := n.index(c); k >= 0 {
					n.kids = append(append([]*tnode(nil), n.kids[:k]...), n.kids[k+1:]...)
					c.parent = nil
					roots = append(roots, c)
					gone++
				}
				n.real.RemoveNode(c.real)
				if n.real.Nodes.Index(c.real) != -1 {
					return fmt.Errorf("a removed node has an index")
				}
			case "clear":
				n.kids = nil
				gone++
				n.real.Clear()
			case "close":
				r := n.root()
				unroot(r)
				gone++
				r.real.Close()
			case "attr":
				a := xmp.Attr{Name: xml.Name{Local: rapid.SampledFrom(treeAttrs).Draw(rt, l+".attr")}, Value: genWord(rt, l+".v")}
				if rapid.Bool().Draw(rt, l+".noval") {
					a.Value = ""
				}
				found := false
				for k := range n.attr {
					if n.attr[k].Name == a.Name {
						n.attr[k].Value = a.Value
						found = true
					}
				}
				if !found {
					n.attr = append(n.attr, a)
				}
				if rapid.Bool().Draw(rt, l+".string") {
					n.real.AddStringAttr(a.Name.Local, a.Value)
				} else {
					n.real.AddAttr(a)
				}
			case "getattr":
				name := rapid.SampledFrom([]string{"", "k", "about", "a", "lang"}).Draw(rt, l+".attr")
				var want []xmp.Attr
				for _, a := range n.attr {
					if _, s, _ := cutName(a.Name.Local); name == "" || s == name {
						want = append(want, a)
					}
				}
				got := n.real.GetAttr("", name)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("GetAttr(%q) = %v, want %v", name, got, want)
				}
				for k := range got {
					got[k].Value = "changed" // the list is the caller's
				}
			case "value":
				n.value = genWord(rt, l+".v")
				n.real.Value = n.value
			case "model":
				if n.model = rapid.SampledFrom([]string{"", "dc", "xmp"}).Draw(rt, l+".model"); n.model == "" {
					n.real.Model = nil
				} else {
					n.real.Model = newModel(n.model)
				}
			case "find":
				name := rapid.SampledFrom([]string{"dc", "xmp", "x", "y", "Seq"}).Draw(rt, l+".find")
				var want *xmp.Node
				for _, k := range n.kids {
					if k.name() == name || k.model == name {
						want = k.real
						break
					}
				}
				if got := n.real.Nodes.FindNodeByName(name); got != want {
					return fmt.Errorf("FindNodeByName(%q) in %s: %v, want %v", name, n.local, got, want)
				}
				if name == "dc" || name == "xmp" {
					if got := n.real.Nodes.FindNode(mustNs(name)); got != want {
						return fmt.Errorf("FindNode(%q) in %s: %v, want %v", name, n.local, got, want)
					}
				}
			}
			return nil
		}
		for i, n := 0, rapid.IntRange(5, 30).Draw(rt, "n"); i < n; i++ {
			err := try(func() error {
				if err := step(i); err != nil {
					return err
				}
				for _, r := range roots {
					if err := r.same(); err != nil {
						return err
					}
				}
				return nil
			})
			if err != nil {
				rt.Fatalf("after %q: %v", log, err)
			}
			for _, r := range roots {
				k := 0
				r.walk(func(*tnode) { k++ })
				if k > most {
					most = k
				}
			}
		}
		for _, r := range roots {
			r.real.Close()
		}
		tally("trees", strings.Join(log, " "), most >= 3 && gone > 0)
	})
}

// rawTree reads a text without interpreting namespaces.
func rawTree(text []byte) (*tnode, error) {
	d := xml.NewDecoder(bytes.NewReader(text))
	var cur, root *tnode
	raw := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &tnode{local: raw(x.Name), parent: cur}
			for _, a := range x.Attr {
				n.attr = append(n.attr, xmp.Attr{Name: xml.Name{Local: raw(a.Name)}, Value: a.Value})
			}
			if cur != nil {
				cur.kids = append(cur.kids, n)
			} else {
				root = n
			}
			cur = n
		case xml.EndElement:
			cur = cur.parent
		case xml.CharData:
			if cur != nil {
				cur.value += string(x)
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no element")
	}
	return root, nil
}

// text is the tree in one line per node. Fields beside parseType are elements.
func (t *tnode) text(depth int) string {
	var attr []string
	res := false
	for _, a := range t.attr {
		res = res || a.Name.Local == "rdf:parseType" && a.Value == "Resource"
	}
	kids := t.kids
	var fields []*tnode
	for _, a := range t.attr {
		p, _, ok := cutName(a.Name.Local)
		if res && ok && p != "rdf" && p != "xml" && p != "xmlns" {
			fields = append(fields, &tnode{local: a.Name.Local, value: a.Value})
			continue
		}
		attr = append(attr, fmt.Sprintf("%s=%q", a.Name.Local, a.Value))
	}
	sort.Strings(attr)
	s := fmt.Sprintf("%s%s %q %v\n", strings.Repeat(" ", depth), t.local, t.value, attr)
	for _, k := range append(fields, kids...) {
		s += k.text(depth + 1)
	}
	return s
}

func genTree(rt *rapid.T, depth int, label string) *tnode {
	t := &tnode{local: rapid.SampledFrom(treeNames).Draw(rt, label+".name")}
	for _, a := range rapid.SliceOfNDistinct(rapid.SampledFrom(append([]string{"rdf:parseType"}, treeAttrs...)), 0, 3, rapid.ID[string]).Draw(rt, label+".attrs") {
		v := genText(rt, label+".v")
		if a == "rdf:parseType" {
			v = "Resource"
		}
		t.attr = append(t.attr, xmp.Attr{Name: xml.Name{Local: a}, Value: v})
	}
	if n := rapid.IntRange(0, 3).Draw(rt, label+".kids"); depth > 0 && n > 0 {
		for i := 0; i < n; i++ {
			t.kids = append(t.kids, genTree(rt, depth-1, label+"."))
		}
	} else {
		t.value = genText(rt, label+".text")
	}
	return t
}

func (t *tnode) build() *xmp.Node {
	n := xmp.NewNode(xmp.NewName(t.local))
	n.Value = t.value
	for _, a := range t.attr {
		n.AddAttr(a)
	}
	for _, k := range t.kids {
		n.AppendNode(k.build())
	}
	return n
}

func TestP30_xml(t *testing.T) {
	rule("xml", "random node trees written by encoding/xml and read by a plain XML reader, and read back as nodes; non-trivial: at least three nodes")
	check(t, 5000, func(rt *rapid.T) {
		tr := genTree(rt, 3, "t")
		k := 0
		tr.walk(func(*tnode) { k++ })
		err := try(func() error {
			n := tr.build()
			defer n.Close()
			for i := 0; i < 2; i++ { // writing changes nothing
				text, err := xml.Marshal(n)
				if err != nil {
					return err
				}
				got, err := rawTree(text)
				if err != nil {
					return fmt.Errorf("%v\n%s", err, text)
				}
				if a, b := tr.text(0), got.text(0); a != b {
					return fmt.Errorf("written as\n%s\nwant\n%s\n%s", b, a, text)
				}
			}
			return nil
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		tally("xml", tr.text(0), k >= 3)
	})
}
