package checks

import (
	"reflect"
	"testing"

	"pgregory.net/rapid"
)

// part is one field of a structure, however deep below a property.
type part struct {
	f    modelField
	path []int // struct field numbers below f
	name string
}

// modelParts lists the fields of all structures among the properties of a
// model. Lists and pointers on the way are entered.
func modelParts(prefix string) (l []part) {
	var walk func(p part, typ reflect.Type, seen map[reflect.Type]bool)
	walk = func(p part, typ reflect.Type, seen map[reflect.Type]bool) {
		if _, ok := typeGens[typ]; ok {
			return
		}
		switch typ.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			walk(p, typ.Elem(), seen)
		case reflect.Struct:
			if seen[typ] || typ == extType || typ == namedExtType {
				return
			}
			seen[typ] = true
			for i := 0; i < typ.NumField(); i++ {
				if ft, ok := xmpTag(typ.Field(i)); ok && !ft.omit {
					q := part{p.f, append(append([]int{}, p.path...), i), p.name + "/" + ft.name}
					l = append(l, q)
					walk(q, typ.Field(i).Type, seen)
				}
			}
			delete(seen, typ)
		}
	}
	for _, f := range modelFields(prefix) {
		walk(part{f: f, name: f.tag.name}, f.typ, map[reflect.Type]bool{})
	}
	return
}

// genFieldPart draws a value of typ in which only the field at path is set.
func genFieldPart(rt *rapid.T, typ reflect.Type, path []int, label string) (reflect.Value, bool) {
	if len(path) == 0 {
		v := reflect.New(typ).Elem()
		if _, ok := typeGens[typ]; !ok && rapid.Bool().Draw(rt, label+".small") {
			n := rapid.IntRange(1, 3).Draw(rt, label+".n")
			switch typ.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				v.SetInt(int64(n))
				return v, true
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				v.SetUint(uint64(n))
				return v, true
			case reflect.Float32, reflect.Float64:
				v.SetFloat(float64(n) / 2)
				return v, true
			}
		}
		return genValue(rt, typ, label, rapidMaxDepth)
	}
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Ptr:
		e, ok := genFieldPart(rt, typ.Elem(), path, label)
		if ok {
			v.Set(reflect.New(typ.Elem()))
			v.Elem().Set(e)
		}
		return v, ok
	case reflect.Slice:
		e, ok := genFieldPart(rt, typ.Elem(), path, label)
		if ok {
			v = reflect.Append(v, e)
		}
		return v, ok
	case reflect.Array:
		for i := 0; i < typ.Len(); i++ {
			e, ok := genFieldPart(rt, typ.Elem(), path, label)
			if !ok {
				return v, false
			}
			v.Index(i).Set(e)
		}
		return v, true
	}
	e, ok := genFieldPart(rt, typ.Field(path[0]).Type, path[1:], label)
	if ok {
		v.Field(path[0]).Set(e)
	}
	return v, ok
}

func TestP03_Parts(t *testing.T) {
	rule("parts", "every field of every structure below every property of every model is filled alone with a random valid value, half of the numbers being as small as possible, written and read back; non-trivial: a distinct (field, value)")
	for _, p := range modelPrefixes() {
		for _, x := range modelParts(p) {
			x := x
			t.Run(p+" "+x.name, func(t *testing.T) {
				check(t, 5, func(rt *rapid.T) {
					v, ok := genFieldPart(rt, x.f.typ, x.path, x.name)
					if !ok {
						excluded("fields without generator: " + x.name)
						return
					}
					m := newModel(p)
					setField(m, x.f, v)
					c := canon(v)
					if c == "" {
						excluded("structures without content")
						return
					}
					tally("parts", x.name+"="+c, c != "", p)
					if err := try(func() error { return roundTripModel(m, p, genWriteOpt(rt)) }); err != nil {
						rt.Fatalf("%s = %.500s\n%v", x.name, c, err)
					}
				})
			})
		}
	}
}
