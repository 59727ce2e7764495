package checks

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

// A model as applications define them: its properties have plain Go types of
// every kind and types with each kind of methods the library knows.

var (
	nsApp       = registered(xmp.NewNamespace("vapp", "http://ns.example.com/verif/app/1.0/", func(string) xmp.Model { return &appModel{} }))
	nsAppStruct = registered(xmp.NewNamespace("vst", "http://ns.example.com/verif/app/struct#", nil))
)

func registered(ns *xmp.Namespace) *xmp.Namespace {
	xmp.Register(ns)
	return ns
}

// appUpper has text methods on its value, they change the notation.
type appUpper string

func (x appUpper) MarshalText() ([]byte, error) { return []byte("v:" + string(x)), nil }
func (x *appUpper) UnmarshalText(b []byte) error {
	if !strings.HasPrefix(string(b), "v:") {
		return fmt.Errorf("invalid appUpper %q", b)
	}
	*x = appUpper(b[2:])
	return nil
}

// appPair has text methods on its pointer.
type appPair struct{ A, B int }

func (x *appPair) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d/%d", x.A, x.B)), nil }
func (x *appPair) UnmarshalText(b []byte) error {
	var p appPair
	if _, err := fmt.Sscanf(string(b), "%d/%d", &p.A, &p.B); err != nil {
		return err
	}
	*x = p
	return nil
}
func (x appPair) IsZero() bool { return x == appPair{} }

// appBare does the same, but the library cannot tell whether it is empty.
type appBare struct{ A, B int }

func (x *appBare) MarshalText() ([]byte, error) { return (*appPair)(x).MarshalText() }
func (x *appBare) UnmarshalText(b []byte) error { return (*appPair)(x).UnmarshalText(b) }

// appAttr writes itself as attribute.
type appAttr string

func (x appAttr) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: string(x)}, nil
}
func (x *appAttr) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	*x = appAttr(a.Value)
	return nil
}

// appStruct mixes attributes and elements.
type appStruct struct {
	Name  string          `xmp:"vst:name,attr"`
	Size  int64           `xmp:"vst:size,attr"`
	On    bool            `xmp:"vst:on,attr"`
	Ratio float64         `xmp:"vst:ratio"`
	Note  string          `xmp:"vst:note"`
	Tags  xmp.StringArray `xmp:"vst:tags"`
	Text  xmp.AltString   `xmp:"vst:text"`
	Inner *appInner       `xmp:"vst:inner"`
}

type appInner struct {
	Key   string    `xmp:"vst:key"`
	Value int       `xmp:"vst:value"`
	When  xmp.Date  `xmp:"vst:when"`
	Deep  *appInner `xmp:"vst:deep"`
}

type appStructArray []*appStruct

func (x appStructArray) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }
func (x appStructArray) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}
func (x *appStructArray) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

type appModel struct {
	S    string          `xmp:"vapp:S" vapp:"s"`
	SA   string          `xmp:"vapp:SA,attr" vapp:"sa"`
	B    bool            `xmp:"vapp:B" vapp:"b"`
	BA   xmp.Bool        `xmp:"vapp:BA,attr" vapp:"ba"`
	I    int             `xmp:"vapp:I" vapp:"i"`
	I8   int8            `xmp:"vapp:I8,attr" vapp:"i8"`
	I16  int16           `xmp:"vapp:I16" vapp:"i16"`
	I32  int32           `xmp:"vapp:I32,attr" vapp:"i32"`
	I64  int64           `xmp:"vapp:I64" vapp:"i64"`
	U    uint            `xmp:"vapp:U,attr" vapp:"u"`
	U8   uint8           `xmp:"vapp:U8" vapp:"u8"`
	U16  uint16          `xmp:"vapp:U16,attr" vapp:"u16"`
	U32  uint32          `xmp:"vapp:U32" vapp:"u32"`
	U64  uint64          `xmp:"vapp:U64,attr" vapp:"u64"`
	F32  float32         `xmp:"vapp:F32" vapp:"f32"`
	F64  float64         `xmp:"vapp:F64,attr" vapp:"f64"`
	Data []byte          `xmp:"vapp:Data" vapp:"data"`
	PS   *string         `xmp:"vapp:PS" vapp:"ps"`
	PI   *int            `xmp:"vapp:PI,attr" vapp:"pi"`
	When time.Time       `xmp:"vapp:When" vapp:"when"`
	Date xmp.Date        `xmp:"vapp:Date,attr" vapp:"date"`
	Rat  xmp.Rational    `xmp:"vapp:Rat,attr" vapp:"rat"`
	Up   appUpper        `xmp:"vapp:Up" vapp:"up"`
	UpA  appUpper        `xmp:"vapp:UpA,attr" vapp:"upa"`
	Pair appPair         `xmp:"vapp:Pair" vapp:"pair"`
	PPtr *appBare        `xmp:"vapp:PPtr,attr" vapp:"pptr"`
	At   appAttr         `xmp:"vapp:At,attr" vapp:"at"`
	L    []string        `xmp:"vapp:L" vapp:"l"`
	LI   []int           `xmp:"vapp:LI" vapp:"li"`
	LU   []appUpper      `xmp:"vapp:LU" vapp:"lu"`
	LS   []appStruct     `xmp:"vapp:LS" vapp:"-"`
	LP   []*appStruct    `xmp:"vapp:LP" vapp:"-"`
	LA   appStructArray  `xmp:"vapp:LA" vapp:"-"`
	Bag  xmp.StringArray `xmp:"vapp:Bag" vapp:"bag"`
	Seq  xmp.StringList  `xmp:"vapp:Seq" vapp:"seq"`
	Alt  xmp.AltString   `xmp:"vapp:Alt" vapp:"alt"`
	St   appStruct       `xmp:"vapp:St" vapp:"-"`
	StP  *appStruct      `xmp:"vapp:StP" vapp:"-"`
	Uri  xmp.Uri         `xmp:"vapp:Uri" vapp:"uri"`
	E    int             `xmp:"vapp:E,empty" vapp:"e"`
	Omit string          `xmp:"vapp:Omit,omit" vapp:"omit"`
	No   string          `xmp:"-" vapp:"-"`
}

func (x *appModel) Can(nsName string) bool            { return nsName == nsApp.GetName() }
func (x *appModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsApp} }
func (x *appModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *appModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *appModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *appModel) CanTag(tag string) bool            { _, err := xmp.GetNativeField(x, tag); return err == nil }
func (x *appModel) GetTag(tag string) (string, error) { return xmp.GetNativeField(x, tag) }
func (x *appModel) SetTag(tag, value string) error    { return xmp.SetNativeField(x, tag, value) }

var appType = reflect.TypeOf(appModel{})
