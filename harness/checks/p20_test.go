package checks

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

// xe is an element of an iXML document.
type xe struct {
	name  string
	attrs [][2]string
	text  string
	kids  []*xe
}

func (e *xe) add(name, text string) *xe {
	k := &xe{name: name, text: text}
	e.kids = append(e.kids, k)
	return k
}

// ixmlStyle decides how a document is spelled.
type ixmlStyle struct {
	t      *rapid.T
	indent bool
	odd    bool // comments, CDATA sections and character references
}

func (s *ixmlStyle) text(v string) string {
	if !s.odd || v == "" {
		return xmlEscape(v)
	}
	switch rapid.IntRange(0, 4).Draw(s.t, "spelling") {
	case 0:
		if !strings.Contains(v, "]]>") && !strings.Contains(v, "\r") {
			return "<![CDATA[" + v + "]]>"
		}
	case 1:
		var b strings.Builder
		for _, r := range v {
			fmt.Fprintf(&b, "&#x%x;", r)
		}
		return b.String()
	case 2:
		r := []rune(v)
		i := rapid.IntRange(0, len(r)).Draw(s.t, "at")
		return xmlEscape(string(r[:i])) + "<!-- note -->" + xmlEscape(string(r[i:]))
	}
	return xmlEscape(v)
}

func (s *ixmlStyle) write(b *strings.Builder, e *xe, depth int) {
	pad := ""
	if s.indent {
		pad = "\n" + strings.Repeat("\t", depth)
	}
	if depth > 0 {
		b.WriteString(pad)
	}
	b.WriteString("<" + e.name)
	for _, a := range e.attrs {
		b.WriteString(" " + a[0] + `="` + xmlEscape(a[1]) + `"`)
	}
	if e.text == "" && len(e.kids) == 0 && s.odd && rapid.Bool().Draw(s.t, "selfclosed") {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	b.WriteString(s.text(e.text))
	for i, k := range e.kids {
		if s.odd && i == 0 && rapid.IntRange(0, 5).Draw(s.t, "comment") == 0 {
			b.WriteString("<!-- <TAKE>1</TAKE> -->")
		}
		s.write(b, k, depth+1)
	}
	if len(e.kids) > 0 {
		b.WriteString(pad)
	}
	b.WriteString("</" + e.name + ">")
}

// ixmlDoc is a valid iXML document together with what it means. Values are
// listed under names of the iXML specification.
type ixmlDoc struct {
	root   *xe
	facts  map[string]string
	legacy []string
	sorted string // the private sections by name, as in JSON
	noJSON bool   // private sections have attributes or repeated names
}

// the values below are listed in the iXML specification
var (
	ixmlTakeTypes     = []string{"DEFAULT", "NO_GOOD", "FALSE_START", "WILD_TRACK", "PICKUP", "REHEARSAL", "ANNOUNCEMENT", "SOUND_GUIDE", "FUTURE_TYPE"}
	ixmlLocationTypes = []string{"INT", "EXT"}
	ixmlLocationTimes = []string{"SUNRISE", "MORNING", "MIDDAY", "DAY", "AFTERNOON", "EVENING", "SUNSET", "NIGHT"}
	ixmlSyncFunctions = []string{"PRE_RECORD_SAMPLECOUNT", "SLATE_GENERIC", "HEAD_SLATE", "TAIL_SLATE", "MARKER_GENERIC", "MARKER_AUTOPLAY", "MARKER_AUTOPLAYSTOP", "MARKER_AUTOPLAYLOOP", "GROUP_OFFSET", "MY_FUNCTION"}
	ixmlFunctions     = []string{"M-MID_SIDE", "S-MID_SIDE", "X-X_Y", "Y-X_Y", "L-MIX", "R-MIX", "MIX", "LEFT", "RIGHT", "F-DMS", "8-DMS", "R-DMS", "L-LCR", "C-LCR", "R-LCR", "L-LCRS", "C-LCRS", "R-LCRS", "S-LCRS", "L-5.1", "LFE-5.1", "Lc-7.1", "VoG-GENERIC", "LFE2-GENERIC", "W-SOUNDFIELD", "VIDEO", "OTHER"}
)

func genRate(t *rapid.T, label string) (string, string) {
	switch rapid.IntRange(0, 4).Draw(t, label+".kind") {
	case 0:
		n := rapid.SampledFrom([]int{24, 25, 30, 44100, 48000, 96000, 192000}).Draw(t, label)
		return strconv.Itoa(n), fmt.Sprintf("%d/1", n)
	case 1:
		s := rapid.SampledFrom([]string{"24000/1001", "30000/1001", "60000/1001"}).Draw(t, label)
		return s, s
	}
	s := fmt.Sprintf("%d/%d", rapid.Int64Range(1, 1<<40).Draw(t, label+".num"), rapid.Int64Range(1, 1<<31).Draw(t, label+".den"))
	return s, s
}

func genIXML(t *rapid.T) *ixmlDoc {
	d := &ixmlDoc{root: &xe{name: "BWFXML"}, facts: map[string]string{}}
	coin := func(label string) bool { return rapid.IntRange(0, 2).Draw(t, label) == 0 }
	upper := func(label string) string {
		if coin(label + ".case") {
			return "true"
		}
		return "TRUE"
	}
	str := func(e *xe, prefix, name string) {
		if coin(name) {
			v := genText(t, name)
			e.add(name, v)
			d.facts[prefix+name] = v
		}
	}
	num := func(e *xe, prefix, name string, max int64) {
		if coin(name) {
			v := rapid.Int64Range(0, max).Draw(t, name)
			e.add(name, strconv.FormatInt(v, 10))
			if v != 0 {
				d.facts[prefix+name] = strconv.FormatInt(v, 10)
			}
		}
	}
	list := func(e *xe, prefix, name string, from []string) []string {
		if !coin(name) {
			return nil
		}
		l := rapid.SliceOfNDistinct(rapid.SampledFrom(from), 0, 3, rapid.ID[string]).Draw(t, name)
		e.add(name, strings.Join(l, ","))
		if len(l) > 0 {
			d.facts[prefix+name] = strings.Join(l, ",")
		}
		return l
	}

	r := d.root
	version := rapid.SampledFrom([]string{"1.0", "1.3", "1.4", "1.5", "1.52", "1.61", "2.0", "2.01", "3.0"}).Draw(t, "version")
	r.add("IXML_VERSION", version)
	d.facts["IXML_VERSION"] = version
	for _, n := range []string{"PROJECT", "SCENE", "TAPE", "FILE_UID", "UBITS", "NOTE"} {
		str(r, "", n)
	}
	num(r, "", "TAKE", 1<<31)
	if coin("CIRCLED") {
		if rapid.Bool().Draw(t, "circled") {
			r.add("CIRCLED", upper("circled"))
			d.facts["CIRCLED"] = "TRUE"
		} else {
			r.add("CIRCLED", "FALSE")
		}
	}
	types := list(r, "", "TAKE_TYPE", ixmlTakeTypes)

	// up to version 1.9 the take type was spread over three flags
	for _, n := range []string{"NO_GOOD", "FALSE_START", "WILD_TRACK"} {
		if !coin(n) {
			continue
		}
		if !rapid.Bool().Draw(t, n+".value") {
			r.add(n, "FALSE")
			continue
		}
		r.add(n, upper(n))
		d.legacy = append(d.legacy, n)
		if !contains(types, n) {
			types = append(types, n)
		}
		d.facts["TAKE_TYPE"] = strings.Join(types, ",")
	}

	points := 0
	preRecord := -1
	if coin("SYNC_POINT_LIST") {
		l := r.add("SYNC_POINT_LIST", "")
		n := rapid.IntRange(0, 3).Draw(t, "points")
		if coin("points.count") {
			l.add("SYNC_POINT_COUNT", strconv.Itoa(n))
		}
		for i := 0; i < n; i++ {
			p := l.add("SYNC_POINT", "")
			at := fmt.Sprintf("SYNC_POINT[%d]/", i)
			typ := rapid.SampledFrom([]string{"RELATIVE", "ABSOLUTE"}).Draw(t, "point.type")
			fn := rapid.SampledFrom(ixmlSyncFunctions).Draw(t, "point.function")
			if fn == "PRE_RECORD_SAMPLECOUNT" && preRecord < 0 {
				preRecord = i
			}
			p.add("SYNC_POINT_TYPE", typ)
			p.add("SYNC_POINT_FUNCTION", fn)
			d.facts[at+"SYNC_POINT_TYPE"], d.facts[at+"SYNC_POINT_FUNCTION"] = typ, fn
			str(p, at, "SYNC_POINT_COMMENT")
			num(p, at, "SYNC_POINT_LOW", 1<<32-1)
			num(p, at, "SYNC_POINT_HIGH", 1<<32-1)
			num(p, at, "SYNC_POINT_EVENT_DURATION", 1<<62)
			d.shuffle(t, p)
		}
		if rapid.IntRange(0, 3).Draw(t, "points.unknown") == 0 {
			genPrivate(t, l, "NEW_POINT", 0)
		}
		points = n
	}
	// up to version 1.3 the pre-record sample count stood alone
	if rapid.IntRange(0, 3).Draw(t, "PRE_RECORD_SAMPLECOUNT") == 0 {
		v := rapid.IntRange(0, 1<<31).Draw(t, "prerecord")
		r.add("PRE_RECORD_SAMPLECOUNT", strconv.Itoa(v))
		if v > 0 {
			d.legacy = append(d.legacy, "PRE_RECORD_SAMPLECOUNT")
			if preRecord < 0 {
				at := fmt.Sprintf("SYNC_POINT[%d]/", points)
				d.facts[at+"SYNC_POINT_TYPE"] = "RELATIVE"
				d.facts[at+"SYNC_POINT_FUNCTION"] = "PRE_RECORD_SAMPLECOUNT"
				d.facts[at+"SYNC_POINT_COMMENT"] = "*"
				d.facts[at+"SYNC_POINT_LOW"] = strconv.Itoa(v)
			} else {
				d.facts[fmt.Sprintf("SYNC_POINT[%d]/SYNC_POINT_LOW", preRecord)] = strconv.Itoa(v)
			}
		}
	}

	if coin("SPEED") {
		e := r.add("SPEED", "")
		str(e, "SPEED/", "NOTE")
		for _, n := range []string{"MASTER_SPEED", "CURRENT_SPEED", "TIMECODE_RATE", "FILE_SAMPLE_RATE"} {
			if coin(n) {
				text, v := genRate(t, n)
				e.add(n, text)
				d.facts["SPEED/"+n] = v
			}
		}
		if coin("TIMECODE_FLAG") {
			v := rapid.SampledFrom([]string{"DF", "NDF"}).Draw(t, "flag")
			e.add("TIMECODE_FLAG", v)
			d.facts["SPEED/TIMECODE_FLAG"] = v
		}
		for _, n := range []string{"AUDIO_BIT_DEPTH", "DIGITIZER_SAMPLE_RATE", "TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_HI", "TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_LO", "TIMESTAMP_SAMPLE_RATE"} {
			num(e, "SPEED/", n, 1<<32-1)
		}
		d.shuffle(t, e)
	}
	if coin("HISTORY") {
		e := r.add("HISTORY", "")
		for _, n := range []string{"ORIGINAL_FILENAME", "PARENT_FILENAME", "PARENT_UID"} {
			str(e, "HISTORY/", n)
		}
		d.shuffle(t, e)
	}
	if coin("FILE_SET") {
		e := r.add("FILE_SET", "")
		num(e, "FILE_SET/", "TOTAL_FILES", 1<<31)
		for _, n := range []string{"FAMILY_UID", "FAMILY_NAME", "FILE_SET_INDEX"} {
			str(e, "FILE_SET/", n)
		}
		d.shuffle(t, e)
	}
	if coin("TRACK_LIST") {
		l := r.add("TRACK_LIST", "")
		n := rapid.IntRange(0, 3).Draw(t, "tracks")
		if rapid.Bool().Draw(t, "tracks.count") {
			l.add("TRACK_COUNT", strconv.Itoa(n))
		}
		for i := 0; i < n; i++ {
			e := l.add("TRACK", "")
			at := fmt.Sprintf("TRACK[%d]/", i)
			e.add("CHANNEL_INDEX", strconv.Itoa(i+1))
			d.facts[at+"CHANNEL_INDEX"] = strconv.Itoa(i + 1)
			num(e, at, "INTERLEAVE_INDEX", 64)
			str(e, at, "NAME")
			if coin("FUNCTION") {
				v := rapid.SampledFrom(ixmlFunctions).Draw(t, "track.function")
				e.add("FUNCTION", v)
				d.facts[at+"FUNCTION"] = v
			}
			if coin("DEFAULT_MIX") {
				m := e.add("DEFAULT_MIX", "")
				if coin("LEVEL") {
					v := rapid.SampledFrom([]string{"OFF", "-3.5", "0", "12"}).Draw(t, "level")
					m.add("LEVEL", v)
					d.facts[at+"DEFAULT_MIX/LEVEL"] = v
				}
				if coin("PAN") {
					v := rapid.SampledFrom([]string{"23.5R", "90L", "0"}).Draw(t, "pan")
					m.add("PAN", v)
					d.facts[at+"DEFAULT_MIX/PAN"] = v
				}
			}
			d.shuffle(t, e)
		}
		if rapid.IntRange(0, 3).Draw(t, "tracks.unknown") == 0 {
			genPrivate(t, l, "NEW_TRACK", 0)
		}
	}
	if coin("USER") {
		e := r.add("USER", "")
		if rapid.Bool().Draw(t, "comment") {
			var l []string
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "comment.n"); i < n; i++ {
				l = append(l, genText(t, "comment"))
			}
			v := strings.Join(l, "\n\t")
			e.text = v
			if rapid.Bool().Draw(t, "comment.pad") {
				e.text = "\n\t" + v + "\n"
			}
			d.facts["USER/"] = v
		}
		for _, n := range []string{"FULL_TITLE", "DIRECTOR_NAME", "PRODUCTION_NAME", "PRODUCTION_ADDRESS", "PRODUCTION_EMAIL", "PRODUCTION_PHONE", "PRODUCTION_NOTE", "SOUND_MIXER_NAME", "SOUND_MIXER_ADDRESS", "SOUND_MIXER_EMAIL", "SOUND_MIXER_PHONE", "SOUND_MIXER_NOTE", "AUDIO_RECORDER_MODEL", "AUDIO_RECORDER_SERIAL_NUMBER", "AUDIO_RECORDER_FIRMWARE"} {
			if rapid.IntRange(0, 4).Draw(t, n) == 0 {
				v := genText(t, n)
				e.add(n, v)
				d.facts["USER/"+n] = v
			}
		}
		d.shuffle(t, e)
	}
	if coin("LOCATION") {
		e := r.add("LOCATION", "")
		for _, n := range []string{"LOCATION_NAME", "LOCATION_GPS", "LOCATION_ALTITUDE"} {
			str(e, "LOCATION/", n)
		}
		list(e, "LOCATION/", "LOCATION_TYPE", ixmlLocationTypes)
		list(e, "LOCATION/", "LOCATION_TIME", ixmlLocationTimes)
		d.shuffle(t, e)
	}
	// the order of private sections is kept, others may come in any order
	d.shuffle(t, r)
	if n := rapid.IntRange(-3, 3).Draw(t, "private"); n > 0 {
		var l, names, sorted []string
		at := 0
		for i := 0; i < n; i++ {
			k := genPrivate(t, r, rapid.SampledFrom([]string{"TRIMMER_PRIVATE", "ZAXCOM", "X", "vendor-data", "BEXT", "STEINBERG"}).Draw(t, "private.name"), 0)
			r.kids = r.kids[:len(r.kids)-1]
			at = rapid.IntRange(at, len(r.kids)).Draw(t, "private.at")
			r.kids = append(r.kids[:at], append([]*xe{k}, r.kids[at:]...)...)
			at++
			l = append(l, k.canon())
			sorted = append(sorted, k.byName().canon())
			for _, n := range names {
				d.noJSON = d.noJSON || n == k.name
			}
			names = append(names, k.name)
			d.noJSON = d.noJSON || k.noJSON()
		}
		d.facts["private"] = strings.Join(l, "\n")
		sort.Strings(sorted)
		d.sorted = strings.Join(sorted, "\n")
	}
	return d
}

func contains(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}

// shuffle brings the values in an element into any order.
func (d *ixmlDoc) shuffle(t *rapid.T, e *xe) {
	if len(e.kids) > 1 && rapid.Bool().Draw(t, "shuffle") {
		e.kids = rapid.Permutation(e.kids).Draw(t, "order")
	}
}

func genPrivate(t *rapid.T, parent *xe, name string, depth int) *xe {
	e := parent.add(name, "")
	if rapid.IntRange(0, 4).Draw(t, "private.attr") == 0 {
		e.attrs = append(e.attrs, [2]string{rapid.SampledFrom([]string{"id", "version", "Kind"}).Draw(t, "private.attrname"), genText(t, "private.attrvalue")})
	}
	if depth > 2 || rapid.Bool().Draw(t, "private.leaf") {
		if rapid.IntRange(0, 4).Draw(t, "private.empty") > 0 {
			e.text = genText(t, "private.text")
		}
		return e
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "private.n"); i < n; i++ {
		genPrivate(t, e, rapid.SampledFrom([]string{"ASSET_UUID", "MEDIA", "NAME", "A", "b"}).Draw(t, "private.child"), depth+1)
	}
	return e
}

// noJSON tells whether a section has attributes or repeated names, which
// the JSON form has no place for.
func (e *xe) noJSON() bool {
	seen := map[string]bool{}
	for _, k := range e.kids {
		if seen[k.name] || k.noJSON() {
			return true
		}
		seen[k.name] = true
	}
	return len(e.attrs) > 0
}

// byName is a copy with sorted values.
func (e *xe) byName() *xe {
	c := *e
	c.kids = nil
	for _, k := range e.kids {
		c.kids = append(c.kids, k.byName())
	}
	sort.SliceStable(c.kids, func(i, j int) bool { return c.kids[i].name < c.kids[j].name })
	return &c
}

func (e *xe) canon() string {
	a := append([][2]string(nil), e.attrs...)
	sort.Slice(a, func(i, j int) bool { return a[i][0] < a[j][0] })
	var kids []string
	for _, k := range e.kids {
		kids = append(kids, k.canon())
	}
	return fmt.Sprintf("%s%q=%q(%s)", e.name, a, e.text, strings.Join(kids, ","))
}

func nodeElem(n *xmp.Node) *xe {
	e := &xe{name: n.FullName(), text: n.Value}
	for _, a := range n.Attr {
		if strings.HasSuffix(a.Name.Local, "parseType") {
			continue
		}
		e.attrs = append(e.attrs, [2]string{a.Name.Local, a.Value})
	}
	for _, k := range n.Nodes {
		e.kids = append(e.kids, nodeElem(k))
	}
	return e
}

// ixmlFacts lists what a model holds under the names of the specification,
// through its exported fields.
func ixmlFacts(x *ixml.IXML) map[string]string {
	m := map[string]string{}
	put := func(k string, v interface{}) {
		s := ""
		switch v := v.(type) {
		case int:
			if v != 0 {
				s = strconv.Itoa(v)
			}
		case int64:
			if v != 0 {
				s = strconv.FormatInt(v, 10)
			}
		case ixml.Bool:
			if v {
				s = "TRUE"
			}
		case xmp.Rational:
			if v.Num != 0 || v.Den != 0 {
				s = fmt.Sprintf("%d/%d", v.Num, v.Den)
			}
		default:
			rv := reflect.ValueOf(v)
			if rv.Kind() == reflect.Slice {
				var l []string
				for i := 0; i < rv.Len(); i++ {
					l = append(l, rv.Index(i).String())
				}
				s = strings.Join(l, ",")
				if s == "" && rv.Len() > 0 {
					s = "(empty item)"
				}
			} else {
				s = rv.String()
			}
		}
		if s != "" {
			m[k] = s
		}
	}
	put("IXML_VERSION", x.Version)
	put("PROJECT", x.Project)
	put("SCENE", x.SceneName)
	put("TAPE", x.SoundRoll)
	put("TAKE", x.Take)
	put("TAKE_TYPE", x.TakeType)
	put("NO_GOOD", x.IsNotGood)
	put("FALSE_START", x.IsFalseStart)
	put("WILD_TRACK", x.IsWildTrack)
	put("PRE_RECORD_SAMPLECOUNT", x.PreRecordSamplecount)
	put("CIRCLED", x.IsCircled)
	put("FILE_UID", x.FileUID)
	put("UBITS", x.UserBits)
	put("NOTE", x.Note)
	for i, p := range x.SyncPoints {
		at := fmt.Sprintf("SYNC_POINT[%d]/SYNC_POINT_", i)
		put(at+"TYPE", p.Type)
		put(at+"FUNCTION", p.Function)
		put(at+"COMMENT", p.Comment)
		put(at+"LOW", p.Low)
		put(at+"HIGH", p.High)
		put(at+"EVENT_DURATION", p.EventDuration)
	}
	if s := x.Speed; s != nil {
		put("SPEED/NOTE", s.Note)
		put("SPEED/MASTER_SPEED", s.MasterSpeed)
		put("SPEED/CURRENT_SPEED", s.CurrentSpeed)
		put("SPEED/TIMECODE_RATE", s.TimecodeRate)
		put("SPEED/TIMECODE_FLAG", s.TimecodeFlag)
		put("SPEED/FILE_SAMPLE_RATE", s.FileSampleRate)
		put("SPEED/AUDIO_BIT_DEPTH", s.AudioBitDepth)
		put("SPEED/DIGITIZER_SAMPLE_RATE", s.DigitizerSampleRate)
		put("SPEED/TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_HI", s.TimestampSamplesSinceMidnightHI)
		put("SPEED/TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_LO", s.TimestampSamplesSinceMidnightLO)
		put("SPEED/TIMESTAMP_SAMPLE_RATE", s.TimestampSampleRate)
	}
	if h := x.History; h != nil {
		put("HISTORY/ORIGINAL_FILENAME", h.OriginalFilename)
		put("HISTORY/PARENT_FILENAME", h.ParentFilename)
		put("HISTORY/PARENT_UID", h.ParentUID)
	}
	if f := x.FileSet; f != nil {
		put("FILE_SET/TOTAL_FILES", f.TotalFiles)
		put("FILE_SET/FAMILY_UID", f.FamilyUID)
		put("FILE_SET/FAMILY_NAME", f.FamilyName)
		put("FILE_SET/FILE_SET_INDEX", f.FileSetIndex)
	}
	for i, k := range x.TrackList {
		at := fmt.Sprintf("TRACK[%d]/", i)
		put(at+"CHANNEL_INDEX", k.ChannelIndex)
		put(at+"INTERLEAVE_INDEX", k.InterleaveIndex)
		put(at+"NAME", k.Name)
		put(at+"FUNCTION", k.Function)
		put(at+"DEFAULT_MIX/LEVEL", k.DefaultMix.Level)
		put(at+"DEFAULT_MIX/PAN", k.DefaultMix.Pan)
	}
	if u := x.UserData; u != nil {
		put("USER/", u.Comment)
		put("USER/FULL_TITLE", u.FullTitle)
		put("USER/DIRECTOR_NAME", u.DirectorName)
		put("USER/PRODUCTION_NAME", u.ProductionName)
		put("USER/PRODUCTION_ADDRESS", u.ProductionAddress)
		put("USER/PRODUCTION_EMAIL", u.ProductionEmail)
		put("USER/PRODUCTION_PHONE", u.ProductionPhone)
		put("USER/PRODUCTION_NOTE", u.ProductionNote)
		put("USER/SOUND_MIXER_NAME", u.SoundMixerName)
		put("USER/SOUND_MIXER_ADDRESS", u.SoundMixerAddress)
		put("USER/SOUND_MIXER_EMAIL", u.SoundMixerEmail)
		put("USER/SOUND_MIXER_PHONE", u.SoundMixerPhone)
		put("USER/SOUND_MIXER_NOTE", u.SoundMixerNote)
		put("USER/AUDIO_RECORDER_MODEL", u.AudioRecorderModel)
		put("USER/AUDIO_RECORDER_SERIAL_NUMBER", u.AudioRecorderSerialNumber)
		put("USER/AUDIO_RECORDER_FIRMWARE", u.AudioRecorderFirmware)
	}
	if l := x.Location; l != nil {
		put("LOCATION/LOCATION_NAME", l.LocationName)
		put("LOCATION/LOCATION_GPS", l.LocationGps)
		put("LOCATION/LOCATION_ALTITUDE", l.LocationAltitude)
		put("LOCATION/LOCATION_TYPE", l.LocationType)
		put("LOCATION/LOCATION_TIME", l.LocationTime)
	}
	var priv []string
	for _, e := range x.Extension {
		priv = append(priv, nodeElem((*xmp.Node)(e)).canon())
	}
	put("private", strings.Join(priv, "\n"))
	return m
}

func (d *ixmlDoc) diff(x *ixml.IXML) error {
	got := ixmlFacts(x)
	for k, v := range d.facts {
		if v == "*" && got[k] != "" {
			got[k] = "*" // any comment
		}
	}
	if s := diffMaps(d.facts, got); s != "" {
		return errors.New(s)
	}
	return nil
}

func (d *ixmlDoc) write(t *rapid.T) string {
	s := &ixmlStyle{t: t, indent: rapid.Bool().Draw(t, "indent"), odd: rapid.Bool().Draw(t, "odd")}
	var b strings.Builder
	if rapid.Bool().Draw(t, "decl") {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	s.write(&b, d.root, 0)
	if s.indent {
		b.WriteString("\n")
	}
	return b.String()
}

func parseIXML(text string) (x *ixml.IXML, err error) {
	err = try(func() error {
		x = &ixml.IXML{}
		return x.ParseXML([]byte(text))
	})
	return x, err
}

func writeIXML(x *ixml.IXML) (text string, err error) {
	err = try(func() error {
		b, err := xml.Marshal(x)
		text = string(b)
		return err
	})
	return text, err
}

func (d *ixmlDoc) verify(t *rapid.T, text string) {
	x, err := parseIXML(text)
	if err != nil {
		t.Fatalf("reading fails: %v\n%s", err, text)
	}
	if err := d.diff(x); err != nil {
		t.Fatalf("reading iXML: %v\n%s", err, text)
	}
	back := func(what string, x *ixml.IXML) {
		out, err := writeIXML(x)
		if err != nil {
			t.Fatalf("writing iXML %s: %v\n%s", what, err, text)
		}
		if strings.Contains(out, " rdf:parseType=") {
			t.Fatalf("writing iXML %s: RDF syntax in iXML\n%s\n%s", what, text, out)
		}
		y, err := parseIXML(out)
		if err != nil {
			t.Fatalf("reading %s again: %v\n%s\n%s", what, err, text, out)
		}
		if err := d.diff(y); err != nil {
			t.Fatalf("writing iXML %s: %v\n%s\n%s", what, err, text, out)
		}
	}
	back("at once", x)

	// as an XMP property, in either form and written twice
	doc := xmp.NewDocument()
	defer doc.Close()
	if _, err := doc.AddModel(x); err != nil {
		t.Fatalf("%v", err)
	}
	for _, form := range []string{"xml", "json"} {
		var out []byte
		err := try(func() (err error) {
			if form == "xml" {
				out, err = xmp.Marshal(doc)
			} else {
				out, err = json.Marshal(doc)
			}
			return err
		})
		if err != nil {
			t.Fatalf("writing XMP: %v\n%s", err, text)
		}
		d2 := xmp.NewDocument()
		err = try(func() error {
			if form == "xml" {
				return xmp.Unmarshal(out, d2)
			}
			return json.Unmarshal(out, d2)
		})
		if err != nil {
			t.Fatalf("reading XMP: %v\n%s\n%s", err, text, out)
		}
		y := ixml.FindModel(d2)
		if y == nil {
			t.Fatalf("no iXML in the %s form:\n%s\n%s", form, text, out)
		}
		if form == "json" && d.noJSON {
			excluded("P20: private iXML sections with attributes or repeated names in JSON")
			continue
		}
		if form == "json" {
			var l []string
			for _, e := range y.Extension {
				l = append(l, nodeElem((*xmp.Node)(e)).byName().canon())
			}
			sort.Strings(l)
			if got := strings.Join(l, "\n"); got != d.sorted {
				t.Fatalf("XMP json form: private sections: want %q got %q\n%s\n%s", d.sorted, got, text, out)
			}
			a, b := *d, *y
			a.facts = map[string]string{}
			for k, v := range d.facts {
				if k != "private" {
					a.facts[k] = v
				}
			}
			b.Extension = nil
			if err := a.diff(&b); err != nil {
				t.Fatalf("XMP json form: %v\n%s\n%s", err, text, out)
			}
			d2.Close()
			continue
		}
		if err := d.diff(y); err != nil {
			t.Fatalf("XMP %s form: %v\n%s\n%s", form, err, text, out)
		}
		if err := d.diff(x); err != nil {
			t.Fatalf("writing XMP changes the model: %v\n%s", err, text)
		}
		back("after the XMP "+form+" form", y)
		d2.Close()
	}
}

func TestP20_Documents(t *testing.T) {
	rule("P20/documents", "the iXML document holds at least three values, a list or a private section; distinct documents counted")
	check(t, 4000, func(t *rapid.T) {
		d := genIXML(t)
		text := d.write(t)
		defer guard(text)()
		classes := []string{"version " + d.facts["IXML_VERSION"]}
		for _, v := range d.legacy {
			classes = append(classes, "legacy "+v)
		}
		for _, k := range d.root.kids {
			if len(k.kids) > 0 {
				classes = append(classes, "section "+k.name)
			}
		}
		tally("P20/documents", text, len(d.facts) > 3 || d.facts["private"] != "", classes...)
		d.verify(t, text)
	})
}

// TestP20_History reads one document after another into the same model.
func TestP20_History(t *testing.T) {
	rule("P20/history", "at least two documents were read into one model or XMP property, one of them with lists")
	check(t, 1500, func(t *rapid.T) {
		x := &ixml.IXML{}
		n := rapid.IntRange(2, 4).Draw(t, "n")
		key := ""
		var last *ixmlDoc
		for i := 0; i < n; i++ {
			d := genIXML(t)
			text := d.write(t)
			bad := rapid.IntRange(0, 3).Draw(t, "bad") == 0
			if bad {
				text = breakIXML(t, d)
			}
			key += text + "\n"
			err := try(func() error { return x.UnmarshalText([]byte(text)) })
			if isPanic(err) {
				t.Fatalf("%v\n%s", err, key)
			}
			if bad {
				if err == nil {
					t.Fatalf("malformed iXML accepted:\n%s", text)
				}
				if last == nil {
					last = &ixmlDoc{facts: map[string]string{}}
				}
			} else {
				if err != nil {
					t.Fatalf("%v\n%s", err, text)
				}
				last = d
			}
			if err := last.diff(x); err != nil {
				t.Fatalf("after reading %d documents: %v\n%s", i+1, err, key)
			}
		}
		tally("P20/history", key, strings.Contains(key, "_LIST"))
	})
}

// breakIXML writes a document with one fault.
func breakIXML(t *rapid.T, d *ixmlDoc) string {
	s := &ixmlStyle{t: t}
	write := func() string {
		var b strings.Builder
		s.write(&b, d.root, 0)
		return b.String()
	}
	bad := func(parent *xe, name string, vals ...string) *xe {
		for i, k := range parent.kids {
			if k.name == name {
				parent.kids = append(parent.kids[:i], parent.kids[i+1:]...)
				break
			}
		}
		v := rapid.SampledFrom(vals).Draw(t, "badvalue")
		return parent.add(name, v)
	}
	section := func(name string) *xe {
		for _, k := range d.root.kids {
			if k.name == name {
				return k
			}
		}
		return d.root.add(name, "")
	}
	switch rapid.IntRange(0, 11).Draw(t, "fault") {
	case 0:
		bad(d.root, "TAKE", "three", "1.5", "12a", "0x1", "99999999999999999999")
	case 1:
		bad(d.root, rapid.SampledFrom([]string{"CIRCLED", "NO_GOOD", "WILD_TRACK", "FALSE_START"}).Draw(t, "flag"), "maybe", "yes", "2", "TRUEFALSE")
	case 2:
		bad(section("SPEED"), "TIMECODE_FLAG", "DROP", "df?", "X")
	case 3:
		bad(section("SPEED"), rapid.SampledFrom([]string{"MASTER_SPEED", "TIMECODE_RATE", "FILE_SAMPLE_RATE"}).Draw(t, "rate"), "fast", "1/x", "/", "a/b")
	case 4:
		bad(section("SPEED"), "AUDIO_BIT_DEPTH", "many", "24bit")
	case 5:
		p := section("SYNC_POINT_LIST").add("SYNC_POINT", "")
		bad(p, rapid.SampledFrom([]string{"SYNC_POINT_LOW", "SYNC_POINT_HIGH", "SYNC_POINT_EVENT_DURATION"}).Draw(t, "point"), "low", "1.5", "99999999999999999999")
	case 6:
		p := section("TRACK_LIST").add("TRACK", "")
		bad(p, rapid.SampledFrom([]string{"CHANNEL_INDEX", "INTERLEAVE_INDEX"}).Draw(t, "track"), "left", "1.5")
	case 7:
		bad(section("FILE_SET"), "TOTAL_FILES", "all", "1,5")
	case 8: // another kind of document
		d.root.name = rapid.SampledFrom([]string{"BWFXMLX", "x", "AXML", "bwfxml"}).Draw(t, "root")
	case 9: // cut off
		s := write()
		at := rapid.IntRange(0, len(s)-1).Draw(t, "cut")
		return s[:at]
	case 10: // a tag which is not closed, or closed twice
		s := write()
		var at []int
		for i := 0; i < len(s); i++ {
			if strings.HasPrefix(s[i:], "</") && i < len(s)-len("</BWFXML>") {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return s[:len(s)-1]
		}
		i := rapid.SampledFrom(at).Draw(t, "tag")
		j := i + strings.IndexByte(s[i:], '>') + 1
		if rapid.Bool().Draw(t, "twice") {
			return s[:j] + s[i:j] + s[j:]
		}
		return s[:i] + s[j:]
	case 11: // nothing at all
		return rapid.SampledFrom([]string{"", " ", "text", "<!-- <BWFXML/> -->", "<?xml version=\"1.0\"?>"}).Draw(t, "nothing")
	}
	return write()
}

var ixmlTokens = []string{"<TAKE>", "</TAKE>", "<SYNC_POINT_LIST>", "</SYNC_POINT_LIST>", "<TRACK_LIST>", "</TRACK_LIST>", "<TRACK>", "</TRACK>", "<USER>", "</USER>", "<SPEED>", "</SPEED>", "<TAKE_TYPE>", "</TAKE_TYPE>", "TRUE", "/", ",", "1e9", "-1", "&#0;", "<!--", "]]>", "xmlns=\"a\""}

// TestP20_Malformed breaks documents and reads them.
func TestP20_Malformed(t *testing.T) {
	rule("P20/malformed", "the text differs from a valid document by one fault or by mutated bytes; distinct texts counted")
	check(t, 5000, func(t *rapid.T) {
		d := genIXML(t)
		var text string
		sure := rapid.Bool().Draw(t, "fault")
		if sure {
			text = breakIXML(t, d)
		} else {
			text = string(mutateBytes(t, []byte(d.write(t)), []byte(genIXML(t).write(t)), ixmlTokens))
		}
		defer guard(text)()
		x := &ixml.IXML{Project: "before", TakeType: ixml.TakeTypeList{"PICKUP"}}
		before := ixmlFacts(x)
		err := try(func() error { return x.ParseXML([]byte(text)) })
		if isPanic(err) {
			t.Fatalf("%v\n%q", err, text)
		}
		tally("P20/malformed", text, true, fmt.Sprintf("fault %v", sure), fmt.Sprintf("error %v", err != nil))
		if err == nil {
			if sure {
				t.Fatalf("malformed iXML accepted:\n%s", text)
			}
			if e := wellFormedPrefix(text); e != nil {
				t.Fatalf("malformed XML (%v) accepted:\n%s", e, text)
			}
			// what was read can be written
			out, err := writeIXML(x)
			if err != nil {
				t.Fatalf("%v\n%s", err, text)
			}
			if y, err := parseIXML(out); err != nil {
				t.Fatalf("%v\n%s\n%s", err, text, out)
			} else if s := diffMaps(ixmlFacts(x), ixmlFacts(y)); s != "" {
				t.Fatalf("%v\n%s\n%s", s, text, out)
			}
			return
		}
		if s := diffMaps(before, ixmlFacts(x)); s != "" {
			t.Fatalf("a failed read changes the model: %s\n%q", s, text)
		}
	})
}

// wellFormedPrefix reads the root element of a text as XML.
func wellFormedPrefix(text string) error {
	d := xml.NewDecoder(strings.NewReader(text))
	depth := 0
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return io.ErrUnexpectedEOF
		}
		if err != nil {
			return err
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return nil
			}
		}
	}
}

// TestP20_Sets checks the lists of enumerated values against sets.
func TestP20_Sets(t *testing.T) {
	rule("P20/sets", "the history adds and removes at least one value; distinct histories counted")
	check(t, 3000, func(t *rapid.T) {
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		var (
			tt  ixml.TakeTypeList
			lt  ixml.LocationTypeList
			lm  ixml.LocationTimeList
			fs  ixml.FunctionSet
			set []string
			key = fmt.Sprint(kind)
			del bool
		)
		from := [][]string{ixmlTakeTypes, append([]string{"BOTH", "SUB"}, ixmlLocationTypes...), ixmlLocationTimes, ixmlFunctions}[kind]
		if kind == 3 {
			from = from[:6]
		}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			v := rapid.SampledFrom(from).Draw(t, "v")
			at := -1
			for j, s := range set {
				if s == v {
					at = j
				}
			}
			var has bool
			if rapid.IntRange(0, 2).Draw(t, "op") > 0 {
				key += "+" + v
				if at < 0 {
					set = append(set, v)
				}
				switch kind {
				case 0:
					tt.Add(ixml.ParseTakeType(v))
				case 1:
					lt.Add(ixml.ParseLocationType(v))
				case 2:
					lm.Add(ixml.ParseLocationTime(v))
				case 3:
					fs.Merge(ixml.FunctionSet{ixml.FunctionType(v)})
				}
			} else {
				key += "-" + v
				if at >= 0 {
					del = true
					set = append(append([]string(nil), set[:at]...), set[at+1:]...)
				}
				switch kind {
				case 0:
					tt.Del(ixml.ParseTakeType(v))
				case 1:
					lt.Del(ixml.ParseLocationType(v))
				case 2:
					lm.Del(ixml.ParseLocationTime(v))
				case 3:
					fs.Sub(ixml.FunctionSet{ixml.FunctionType(v)})
				}
			}
			var got []string
			switch kind {
			case 0:
				for _, s := range tt {
					got = append(got, string(s))
				}
				has = tt.Contains(ixml.TakeType(v))
				if tt.IsDefault() != (len(set) == 0 || contains(set, "DEFAULT")) {
					t.Fatalf("IsDefault of %v is %v", tt, tt.IsDefault())
				}
			case 1:
				for _, s := range lt {
					got = append(got, string(s))
				}
				has = lt.Contains(ixml.LocationType(v))
			case 2:
				for _, s := range lm {
					got = append(got, string(s))
				}
				has = lm.Contains(ixml.LocationTime(v))
			case 3:
				for _, s := range fs {
					got = append(got, string(s))
				}
				has = fs.Contains(ixml.FunctionType(v))
			}
			if strings.Join(got, ",") != strings.Join(set, ",") {
				t.Fatalf("%s: got %v, want %v", key, got, set)
			}
			if has != contains(set, v) {
				t.Fatalf("%s: Contains(%s) is %v", key, v, has)
			}
		}
		// text form
		if kind == 3 {
			tally("P20/sets", key, del, "FunctionSet")
			return
		}
		a := []interface {
			MarshalText() ([]byte, error)
		}{tt, lt, lm}[kind]
		b, err := a.MarshalText()
		if err != nil || string(b) != strings.Join(set, ",") {
			t.Fatalf("%s: text form of %v is %q, %v", key, set, b, err)
		}
		c := []interface {
			UnmarshalText([]byte) error
		}{new(ixml.TakeTypeList), new(ixml.LocationTypeList), new(ixml.LocationTimeList)}[kind]
		if err := c.UnmarshalText(b); err != nil {
			t.Fatal(err)
		}
		if n := reflect.ValueOf(c).Elem().Len(); n != len(set) {
			t.Fatalf("%s: %q is read as %v", key, b, reflect.ValueOf(c).Elem())
		}
		for i, v := range set {
			if s := reflect.ValueOf(c).Elem().Index(i).String(); s != v {
				t.Fatalf("%s: %q is read as %v", key, b, reflect.ValueOf(c).Elem())
			}
		}
		tally("P20/sets", key, del, fmt.Sprintf("%T", a))
	})
}

func TestP20_Regressions(t *testing.T) {
	read := func(text string, facts ...string) func() error {
		return func() error {
			x, err := parseIXML(text)
			if err != nil {
				return err
			}
			want := map[string]string{}
			for i := 0; i < len(facts); i += 2 {
				want[facts[i]] = facts[i+1]
			}
			if s := diffMaps(want, ixmlFacts(x)); s != "" {
				return errors.New(s)
			}
			return nil
		}
	}
	example(t, "empty-take-type", read(`<BWFXML><IXML_VERSION>2.0</IXML_VERSION><TAKE_TYPE></TAKE_TYPE><LOCATION><LOCATION_TYPE/><LOCATION_TIME/></LOCATION></BWFXML>`, "IXML_VERSION", "2.0"))
	example(t, "prerecord-existing", read(`<BWFXML><IXML_VERSION>1.3</IXML_VERSION><PRE_RECORD_SAMPLECOUNT>7</PRE_RECORD_SAMPLECOUNT><SYNC_POINT_LIST><SYNC_POINT><SYNC_POINT_TYPE>RELATIVE</SYNC_POINT_TYPE><SYNC_POINT_FUNCTION>PRE_RECORD_SAMPLECOUNT</SYNC_POINT_FUNCTION><SYNC_POINT_LOW>3</SYNC_POINT_LOW></SYNC_POINT></SYNC_POINT_LIST></BWFXML>`,
		"IXML_VERSION", "1.3", "SYNC_POINT[0]/SYNC_POINT_TYPE", "RELATIVE", "SYNC_POINT[0]/SYNC_POINT_FUNCTION", "PRE_RECORD_SAMPLECOUNT", "SYNC_POINT[0]/SYNC_POINT_LOW", "7"))
	example(t, "xy-function", func() error {
		x, err := parseIXML(`<BWFXML><TRACK_LIST><TRACK><FUNCTION>X-X_Y</FUNCTION></TRACK></TRACK_LIST></BWFXML>`)
		if err != nil {
			return err
		}
		if !ixml.FunctionSetXY.Contains(x.TrackList[0].Function) {
			return fmt.Errorf("X-X_Y is not in the set of XY functions")
		}
		return nil
	})
}
