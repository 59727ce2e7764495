package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	"github.com/trimmer-io/go-xmp/xmp"
	"pgregory.net/rapid"
)

func genZone(t *rapid.T, label string) *time.Location {
	m := rapid.OneOf(
		rapid.Just(0),
		rapid.SampledFrom([]int{60, -60, 330, -330, 345, -345, 840, -720, 30, -30, 1, -1, 540, -540, 600, -600, 660, 720, -660}),
		rapid.IntRange(-14*60, 14*60),
	).Draw(t, label)
	if m == 0 {
		return time.UTC
	}
	return time.FixedZone("", m*60)
}

func genTimeIn(t *rapid.T, label string, loc *time.Location, minYear, maxYear int) time.Time {
	y := rapid.OneOf(rapid.IntRange(1990, 2030), rapid.IntRange(minYear, maxYear)).Draw(t, label+".year")
	mo := rapid.IntRange(1, 12).Draw(t, label+".month")
	d := rapid.IntRange(1, 28).Draw(t, label+".day")
	if rapid.IntRange(0, 6).Draw(t, label+".eom") == 0 {
		d = time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	}
	h := rapid.IntRange(0, 23).Draw(t, label+".hour")
	mi := rapid.IntRange(0, 59).Draw(t, label+".min")
	s := rapid.IntRange(0, 59).Draw(t, label+".sec")
	return time.Date(y, time.Month(mo), d, h, mi, s, 0, loc)
}

// genFraction draws a fraction of a second with one to nine digits.
func genFraction(t *rapid.T, label string) time.Duration {
	n := rapid.IntRange(1, 9).Draw(t, label+".digits")
	unit, max := 1, 9
	for i := 9; i > n; i-- {
		unit *= 10
	}
	for i := 1; i < n; i++ {
		max = max*10 + 9
	}
	return time.Duration(unit * rapid.IntRange(1, max).Draw(t, label))
}

func zoneText(t time.Time, colon bool) string {
	_, off := t.Zone()
	sign := "+"
	if off < 0 {
		sign, off = "-", -off
	}
	if colon {
		return fmt.Sprintf("%s%02d:%02d", sign, off/3600, off/60%60)
	}
	return fmt.Sprintf("%s%02d%02d", sign, off/3600, off/60%60)
}

func sameInstantAndZone(a, b time.Time) bool {
	_, oa := a.Zone()
	_, ob := b.Zone()
	return a.Equal(b) && oa == ob
}

func TestP15_DateRoundTrip(t *testing.T) {
	rule("date", "random dates (years 0..9999, fractions down to nanoseconds, zone offsets by the minute up to 14h); text and JSON round trip; non-trivial: zone offset other than zero or end of month/day boundary")
	check(t, 12000, func(rt *rapid.T) {
		loc := genZone(rt, "zone")
		tm := genTimeIn(rt, "t", loc, 0, 9999)
		if rapid.Bool().Draw(rt, "fraction") {
			tm = tm.Add(genFraction(rt, "ns"))
		}
		d := xmp.NewDate(tm)
		b, err := d.MarshalText()
		if err != nil {
			rt.Fatalf("marshal %v: %v", tm, err)
		}
		tally("date", string(b), loc != time.UTC || tm.Day() > 28 || tm.Hour() == 23 || tm.Hour() == 0)
		if d.IsZero() {
			if len(b) != 0 {
				rt.Fatalf("zero date text %q", b)
			}
			return
		}
		want := tm.Format("2006-01-02T15:04:05")
		if ns := tm.Nanosecond(); ns > 0 {
			want += strings.TrimRight(fmt.Sprintf(".%09d", ns), "0")
		}
		if _, off := tm.Zone(); off == 0 {
			want += "Z"
		} else {
			want += zoneText(tm, true)
		}
		if string(b) != want || d.String() != want {
			rt.Fatalf("date %v text %q, string %q, want %q", tm, b, d.String(), want)
		}
		var r xmp.Date
		if err := r.UnmarshalText(b); err != nil {
			rt.Fatalf("parse %q: %v", b, err)
		}
		if !sameInstantAndZone(r.Value(), tm) {
			rt.Fatalf("date %v read back as %v", tm, r.Value())
		}
		p, err := xmp.ParseDate(string(b))
		if err != nil || !sameInstantAndZone(p.Value(), tm) {
			rt.Fatalf("ParseDate %q = %v, %v", b, p.Value(), err)
		}
		j, err := json.Marshal(d)
		if err != nil {
			rt.Fatalf("json %v: %v", tm, err)
		}
		var rj xmp.Date
		if err := json.Unmarshal(j, &rj); err != nil || !sameInstantAndZone(rj.Value(), tm) {
			rt.Fatalf("date %v from JSON %s: %v %v", tm, j, rj.Value(), err)
		}
		// overwriting an existing value, and resetting it with empty text
		if err := rj.UnmarshalText(nil); err != nil || !rj.IsZero() {
			rt.Fatalf("empty text: %v %v", rj.Value(), err)
		}
		// time of day
		x := xmp.NewTime(tm)
		b, _ = x.MarshalText()
		if string(b) != tm.Format("15:04:05")+zoneText(tm, true) {
			rt.Fatalf("time of %v is %q", tm, b)
		}
		for _, s := range []string{string(b), tm.Format("150405") + zoneText(tm, false)} {
			tt, err := xmp.ParseTime(s)
			if err != nil || tt.String() != string(b) {
				rt.Fatalf("time %q reads as %v, %v", s, tt, err)
			}
		}
		tt, err := xmp.ParseTime(tm.Format("15:04:05"))
		if err != nil || tt.String() != tm.Format("15:04:05")+"+00:00" {
			rt.Fatalf("time without zone: %v %v", tt, err)
		}
		if b, err := xmp.ParseTime(string(b) + "x"); err == nil {
			rt.Fatalf("malformed time accepted as %v", b)
		}
	})
}

func TestP15_DateSpellings(t *testing.T) {
	rule("date-spelling", "one random date written in one of the documented spellings (XMP, EXIF, ARRI, MXF, ID3, ffprobe, repaired zones); non-trivial: spelling other than RFC 3339")
	type spelling struct {
		name string
		f    func(time.Time) string
		prec func(time.Time) time.Time // value that the spelling can carry
		utc  bool
	}
	trunc := func(y, mo, d, h, mi, s bool) func(time.Time) time.Time {
		return func(t time.Time) time.Time {
			pick := func(b bool, v, def int) int {
				if b {
					return v
				}
				return def
			}
			return time.Date(pick(y, t.Year(), 0), time.Month(pick(mo, int(t.Month()), 1)), pick(d, t.Day(), 1), pick(h, t.Hour(), 0), pick(mi, t.Minute(), 0), pick(s, t.Second(), 0), 0, t.Location())
		}
	}
	full := trunc(true, true, true, true, true, true)
	lay := func(l string) func(time.Time) string { return func(t time.Time) string { return t.Format(l) } }
	z := func(l string, colon bool) func(time.Time) string {
		return func(t time.Time) string { return t.Format(l) + zoneText(t, colon) }
	}
	hour1 := func(suffix string) func(time.Time) string { // single digit zone hours
		return func(t time.Time) string {
			_, off := t.Zone()
			sign := "+"
			if off < 0 {
				sign, off = "-", -off
			}
			return t.Format("2006-01-02T15:04:05") + fmt.Sprintf("%s%d", sign, off/3600%10) + suffix
		}
	}
	wholeHour := func(t time.Time) time.Time {
		_, off := t.Zone()
		s := 1
		if off < 0 {
			s, off = -1, -off
		}
		off = off / 3600 % 10 * 3600 * s
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.FixedZone("", off))
	}
	// n digits of a second's fraction
	frac := func(layout string, n int, after func(time.Time) string) func(time.Time) string {
		return func(t time.Time) string {
			return t.Format(layout) + "." + fmt.Sprintf("%09d", t.Nanosecond())[:n] + after(t)
		}
	}
	digits := func(n int) func(time.Time) time.Time {
		return func(t time.Time) time.Time {
			unit := int(math.Pow10(9 - n))
			return full(t).Add(time.Duration(t.Nanosecond() / unit * unit))
		}
	}
	none := func(time.Time) string { return "" }
	zone := func(t time.Time) string { return zoneText(t, true) }
	list := []spelling{
		{"rfc3339", lay(time.RFC3339), full, false},
		{"z-numeric", z("2006-01-02T15:04:05", true), full, false},
		{"no-colon", z("2006-01-02T15:04:05", false), full, false},
		{"frac1", frac("2006-01-02T15:04:05", 1, zone), digits(1), false},
		{"frac3", frac("2006-01-02T15:04:05", 3, zone), digits(3), false},
		{"frac9Z", frac("2006-01-02T15:04:05", 9, func(t time.Time) string { return "Z" }), digits(9), true},
		{"frac-nozone", frac("2006-01-02T15:04:05", 2, none), digits(2), true},
		{"minutes-zone", z("2006-01-02T15:04", true), trunc(true, true, true, true, true, false), false},
		{"minutes-Z", lay("2006-01-02T15:04Z"), trunc(true, true, true, true, true, false), true},
		{"minutes", lay("2006-01-02T15:04"), trunc(true, true, true, true, true, false), true},
		{"minutes-space", lay("2006-01-02 15:04"), trunc(true, true, true, true, true, false), true},
		{"nozone", lay("2006-01-02T15:04:05"), full, true},
		{"exr", lay("2006-01-02 15:04:05"), full, true},
		{"mxf", lay("2006:01:02 15:04:05"), full, true},
		{"mxf-frac", frac("2006:01:02 15:04:05", 3, none), digits(3), true},
		{"arri-csv", z("2006/01/02T15:04:05", true), full, false},
		{"arri-csv-short", z("06/01/02T15:04:05", true), full, false},
		{"arri-qt", z("20060102T15h04m05", true), full, false},
		{"arri-mxf", z("20060102T15h04m05s", true), full, false},
		{"day", lay("2006-01-02"), trunc(true, true, true, false, false, false), true},
		{"id3-day", lay("2006:01:02"), trunc(true, true, true, false, false, false), true},
		{"month", lay("2006-01"), trunc(true, true, false, false, false, false), true},
		{"year", lay("2006"), trunc(true, false, false, false, false, false), true},
		{"hour1", hour1(""), wholeHour, false},
		{"hour1-minutes", hour1(":00"), wholeHour, false},
		{"ffprobe-5digit", func(t time.Time) string {
			z := zoneText(t, false)
			return t.Format("2006-01-02T15:04:05") + z[:1] + "0" + z[1:]
		}, full, false},
	}
	for n := 1; n <= 9; n++ {
		list = append(list,
			spelling{fmt.Sprintf("frac%d-nozone", n), frac("2006-01-02T15:04:05", n, none), digits(n), true},
			spelling{fmt.Sprintf("frac%d-zone", n), frac("2006-01-02T15:04:05", n, zone), digits(n), false},
			spelling{fmt.Sprintf("frac%d-Z", n), frac("2006-01-02T15:04:05", n, func(t time.Time) string { return "Z" }), digits(n), true})
	}
	check(t, 20000, func(rt *rapid.T) {
		sp := rapid.SampledFrom(list).Draw(rt, "spelling")
		loc := time.UTC
		if !sp.utc {
			loc = genZone(rt, "zone")
		}
		tm := genTimeIn(rt, "t", loc, 1970, 2060)
		if sp.name == "arri-csv-short" {
			// two digit years 69..99 mean 19xx
			tm = genTimeIn(rt, "t2", loc, 1970, 2068)
		}
		tm = tm.Add(time.Duration(rapid.IntRange(0, 999999999).Draw(rt, "ns")))
		s := sp.f(tm)
		want := sp.prec(tm)
		tally("date-spelling", s, sp.name != "rfc3339", sp.name)
		d, err := xmp.ParseDate(s)
		if err != nil {
			rt.Fatalf("%s: %q rejected: %v", sp.name, s, err)
		}
		got := d.Value()
		if !sameInstantAndZone(got, want) {
			rt.Fatalf("%s: %q read as %v, want %v", sp.name, s, got, want)
		}
		if d.String() != want.Format(time.RFC3339Nano) {
			rt.Fatalf("%s: %q formats as %s, want %s", sp.name, s, d, want.Format(time.RFC3339Nano))
		}
		// malformed variants
		bad := rapid.SampledFrom([]string{s + "x", "x" + s, s + " ", s + ":", strings.Replace(s, "0", "o", 1), strings.Replace(s, ":", "", -1) + "?"}).Draw(rt, "bad")
		if bad != s {
			if d, err := xmp.ParseDate(bad); err == nil {
				rt.Fatalf("malformed date %q accepted as %v", bad, d)
			}
			prev := xmp.NewDate(tm)
			x := prev
			if err := x.UnmarshalText([]byte(bad)); err == nil || x != prev {
				rt.Fatalf("malformed date %q: %v, value %v", bad, err, x)
			}
		}
	})
	for _, s := range []string{"--", "00/00/00T00:00:00+00:00"} {
		s := s
		example(t, "date "+s, func() error {
			d, err := xmp.ParseDate(s)
			if err != nil || !d.IsZero() {
				return fmt.Errorf("%v %v", d, err)
			}
			return nil
		})
	}
	for _, s := range []string{"", "2006-13-01", "2006-02-30", "2006-01-01T25:00:00", "2006-01-01T10:61:00Z", "garbage", "2006-1", "20060102", "2006-01-02T15:04:05+", "2006-01-02T15:04:05+25:00"} {
		s := s
		example(t, "bad date "+s, func() error {
			if d, err := xmp.ParseDate(s); err == nil {
				return fmt.Errorf("accepted as %v", d)
			}
			return nil
		})
	}
}

func TestP15_Rational(t *testing.T) {
	rule("rational", "random numerator/denominator over all of int64 in every spelling (n/m, n m, n, decimal), text and JSON round trip, and malformed variants; non-trivial: negative, large, fractional or malformed")
	num := rapid.OneOf(rapid.Int64Range(-100, 100), rapid.Int64(), rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, 0, 1, -1, 1000000, math.MaxInt32, math.MaxUint32}))
	check(t, 8000, func(rt *rapid.T) {
		r := xmp.Rational{Num: num.Draw(rt, "num"), Den: num.Draw(rt, "den")}
		s := fmt.Sprintf("%d/%d", r.Num, r.Den)
		tally("rational", s, r.Num < 0 || r.Num > 1000 || r.Den > 1000 || r.Den < 0)
		b, err := r.MarshalText()
		if err != nil || string(b) != s || r.String() != s {
			rt.Fatalf("%v formats as %q %q (%v)", s, b, r.String(), err)
		}
		var x xmp.Rational
		x = xmp.Rational{Num: 7, Den: 9}
		if err := x.UnmarshalText(b); err != nil || x != r {
			rt.Fatalf("%s reads as %v (%v)", b, x, err)
		}
		j, err := json.Marshal(r)
		x = xmp.Rational{}
		if err != nil || json.Unmarshal(j, &x) != nil || x != r {
			rt.Fatalf("%s through JSON %s is %v (%v)", s, j, x, err)
		}
		x = xmp.Rational{}
		if err := x.UnmarshalText([]byte(fmt.Sprintf("%d %d", r.Num, r.Den))); err != nil || x != r {
			rt.Fatalf("space spelling of %s reads as %v (%v)", s, x, err)
		}
		x = xmp.Rational{}
		if err := x.UnmarshalText([]byte(strconv.FormatInt(r.Num, 10))); err != nil || x != (xmp.Rational{Num: r.Num, Den: 1}) {
			rt.Fatalf("integer %d reads as %v (%v)", r.Num, x, err)
		}
		if r.Den != 0 && r.Value() != float64(r.Num)/float64(r.Den) {
			rt.Fatalf("value of %s is %v", s, r.Value())
		}
		if r.IsZero() != (r.Num == 0 && r.Den == 0) || (r.Addr() == nil) != r.IsZero() {
			rt.Fatalf("IsZero of %s", s)
		}
		bad := rapid.SampledFrom([]string{"a/b", "1/", "/2", "1/x", "x1", "1..2", "1:2", "1.2.3", "/", " ", "--", fmt.Sprintf("%d/", r.Num), fmt.Sprintf("/%d", r.Den), fmt.Sprintf("%dx", r.Num), s + "x", s + "/3", s + " 4", s + " 1/2", "1 2 3", "99999999999999999999/1", "1.x", "."}).Draw(rt, "bad")
		x = r
		if err := x.UnmarshalText([]byte(bad)); err == nil || x != r {
			rt.Fatalf("malformed rational %q: value %v, error %v", bad, x, err)
		}
	})
	rule("decimal", "decimal spellings of rationals from random magnitudes and digit counts: value within 0.5% below one (1/n preferred) and within 1e-6 otherwise; non-trivial: all")
	check(t, 8000, func(rt *rapid.T) {
		f := rapid.OneOf(
			rapid.Float64Range(-3, 3),
			rapid.Float64Range(0, 1),
			rapid.Float64Range(0, 0.01),
			rapid.Float64Range(-3000, 3000),
			rapid.Float64Range(-300000, 300000),
			rapid.Float64Range(-3e7, 3e7),
			rapid.Float64Range(-1e12, 1e12),
		).Draw(rt, "f")
		s := strconv.FormatFloat(f, 'f', rapid.IntRange(1, 9).Draw(rt, "digits"), 64)
		f, _ = strconv.ParseFloat(s, 64)
		tally("decimal", s, true)
		var x xmp.Rational
		if err := x.UnmarshalText([]byte(s)); err != nil {
			rt.Fatalf("%s: %v", s, err)
		}
		tol := 1e-6 + 4e-7*math.Abs(f)
		if f > 0 && f < 1 {
			tol = 1e-6 + 0.0055*f
		}
		if x.Den == 0 || math.Abs(x.Value()-f) > tol {
			rt.Fatalf("%s reads as %v = %v", s, x, x.Value())
		}
	})
	check(t, 1000, func(rt *rapid.T) {
		n := rapid.IntRange(2, 500).Draw(rt, "n")
		s := strconv.FormatFloat(1/float64(n), 'f', rapid.IntRange(7, 9).Draw(rt, "digits"), 64)
		var x xmp.Rational
		tally("decimal", s, true, "exposure")
		if err := x.UnmarshalText([]byte(s)); err != nil || x != (xmp.Rational{Num: 1, Den: int64(n)}) {
			rt.Fatalf("exposure %s reads as %v (%v), want 1/%d", s, x, err, n)
		}
	})
}

func TestP15_Bool(t *testing.T) {
	rule("bool", "boolean spellings and arbitrary other words in text and JSON; non-trivial: all")
	check(t, 1500, func(rt *rapid.T) {
		w := rapid.SampledFrom([]string{"True", "true", "TRUE", "False", "false", "FALSE", "", "T", "1", "0", "yes", "no", "tRUE", "true ", " false", "truefalse", "None"}).Draw(rt, "word")
		prev := rapid.Bool().Draw(rt, "prev")
		tally("bool", fmt.Sprint(w, prev), true)
		x := xmp.Bool(prev)
		err := x.UnmarshalText([]byte(w))
		valid := strings.EqualFold(w, "true") && w != "tRUE" || strings.EqualFold(w, "false")
		if valid {
			want := strings.EqualFold(w, "true")
			if err != nil || x.Value() != want {
				rt.Fatalf("%q reads as %v (%v)", w, x, err)
			}
			b, err := x.MarshalText()
			if err != nil || string(b) != map[bool]string{true: "True", false: "False"}[want] {
				rt.Fatalf("%v written as %q (%v)", want, b, err)
			}
			j, err := json.Marshal(x)
			if err != nil || string(j) != strconv.FormatBool(want) {
				rt.Fatalf("%v JSON %s (%v)", want, j, err)
			}
			y := xmp.Bool(prev)
			if err := json.Unmarshal(j, &y); err != nil || y != x {
				rt.Fatalf("%v from JSON %s: %v (%v)", want, j, y, err)
			}
		} else if err == nil || x.Value() != prev {
			rt.Fatalf("malformed bool %q read as %v without error", w, x)
		}
		// NullBool
		n := xmp.NullBool(prev)
		if err := n.UnmarshalText([]byte(w)); err != nil {
			rt.Fatalf("%v", err)
		}
		switch lw := strings.ToLower(w); {
		case lw == "" || lw == "-" || lw == "--" || lw == "---":
			if n.Value() != prev {
				rt.Fatalf("placeholder %q changed the flag", w)
			}
		default:
			want := lw == "true" || lw == "on" || lw == "yes" || lw == "1" || lw == "enabled"
			if n.Value() != want {
				rt.Fatalf("%q reads as %v", w, n)
			}
		}
		for _, v := range []bool{true, false} {
			n := xmp.NullBool(v)
			b, err := n.MarshalText()
			m := xmp.NullBool(!v)
			if err != nil || m.UnmarshalText(b) != nil || m != n {
				rt.Fatalf("NullBool %v: %s %v", v, b, m)
			}
			j, err := json.Marshal(n)
			m = xmp.NullBool(!v)
			if err != nil || json.Unmarshal(j, &m) != nil || m != n {
				rt.Fatalf("NullBool %v JSON: %s %v", v, j, m)
			}
			m = xmp.NullBool(!v)
			if err := json.Unmarshal([]byte(strconv.Quote(string(b))), &m); err != nil || m != n {
				rt.Fatalf("NullBool %v quoted JSON: %v", v, m)
			}
			for _, w := range []string{"on", "ON", "Yes", "enabled", "Enabled", "1"} {
				m = false
				if m.UnmarshalText([]byte(w)); !m.Value() {
					rt.Fatalf("NullBool %q", w)
				}
			}
			for _, w := range []string{"off", "no", "0", "disabled", "false"} {
				m = true
				if m.UnmarshalText([]byte(w)); m.Value() {
					rt.Fatalf("NullBool %q", w)
				}
			}
		}
	})
}

func TestP15_Identifiers(t *testing.T) {
	rule("identifier", "GUIDs with and without issuer, URIs in each RDF spelling, agent names; non-trivial: contains a colon or characters that need escaping")
	check(t, 3000, func(rt *rapid.T) {
		s := rapid.StringMatching(`[a-z:.]{0,6}[A-Za-z0-9:\-]{0,20}`).Draw(rt, "guid")
		tally("identifier", s, strings.Contains(s, ":"), "guid")
		g := xmp.GUID(s)
		b, err := g.MarshalText()
		var r xmp.GUID
		if err != nil || string(b) != s || r.UnmarshalText(b) != nil || r != g || g.Value() != s || g.String() != s || g.IsZero() != (s == "") {
			rt.Fatalf("guid %q: %q %q", s, b, r)
		}
		j, err := json.Marshal(g)
		r = ""
		if err != nil || json.Unmarshal(j, &r) != nil || r != g {
			rt.Fatalf("guid %q JSON %s: %q", s, j, r)
		}
		want := ""
		if i := strings.LastIndexByte(s, ':'); i >= 0 {
			want = s[:i]
		}
		if g.Issuer() != want {
			rt.Fatalf("issuer of %q is %q", s, g.Issuer())
		}
		u := rapid.StringMatching(`(https?|file|x)://[a-z0-9./?&=<>"'%#äö-]{1,20}[a-z]`).Draw(rt, "uri")
		esc := xmlEscape(u)
		ns := `xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:xmp="http://ns.adobe.com/xap/1.0/"`
		tally("identifier", u, esc != u, "uri")
		for _, body := range []string{
			`<rdf:RDF ` + ns + `><rdf:Description rdf:about="" ` + ns + ` xmp:BaseURL="` + esc + `"/></rdf:RDF>`,
			`<rdf:RDF ` + ns + `><rdf:Description rdf:about="" ` + ns + `><xmp:BaseURL>` + esc + `</xmp:BaseURL></rdf:Description></rdf:RDF>`,
			`<rdf:RDF ` + ns + `><rdf:Description rdf:about="" ` + ns + `><xmp:BaseURL rdf:resource="` + esc + `"/></rdf:Description></rdf:RDF>`,
		} {
			d := &xmp.Document{}
			if err := xmp.Unmarshal([]byte(body), d); err != nil {
				rt.Fatalf("%s: %v", body, err)
			}
			m := xmpbase.FindModel(d)
			if m == nil || m.BaseURL.Value() != u {
				rt.Fatalf("URI %q read as %v from %s", u, m, body)
			}
			d.Close()
		}
	})
}

func TestP15_SplitInt(t *testing.T) {
	rule("splitint", "32 bit values as a:b:c:d and decimal, JSON round trip, placeholders and malformed texts; non-trivial: high bit in some byte, or malformed")
	check(t, 4000, func(rt *rapid.T) {
		v := rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 0x7f, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x06131461})).Draw(rt, "v")
		s := fmt.Sprintf("%02d:%02d:%02d:%02d", v>>24, v>>16&255, v>>8&255, v&255)
		tally("splitint", s, v&0x80808080 != 0)
		for _, x := range []string{s, strconv.FormatUint(uint64(v), 10)} {
			r := xmp.SplitInt(77)
			if err := r.UnmarshalText([]byte(x)); err != nil || r.Uint32() != v || r.Value() != v {
				rt.Fatalf("%q reads as %d (%v), want %d", x, r, err, v)
			}
		}
		j, err := json.Marshal(xmp.SplitInt(v))
		var r xmp.SplitInt
		if err != nil || json.Unmarshal(j, &r) != nil || r.Uint32() != v {
			rt.Fatalf("%d JSON %s: %d", v, j, r)
		}
		for _, x := range []string{"", "-", "--", "---", "NaN", "unknown"} {
			r = xmp.SplitInt(v)
			if err := r.UnmarshalText([]byte(x)); err != nil || r.Uint32() != v {
				rt.Fatalf("placeholder %q: %d %v", x, r, err)
			}
		}
		bad := rapid.SampledFrom([]string{"1:2:3", "1:2:3:4:5", "256:0:0:0", "0:0:0:256", "-1:0:0:0", "a:b:c:d", "4294967296", "-5", "1.5", "0:0:0:", ":::", "x", s + ":1", s + "x"}).Draw(rt, "bad")
		r = xmp.SplitInt(v)
		if err := r.UnmarshalText([]byte(bad)); err == nil || r.Uint32() != v {
			rt.Fatalf("malformed %q read as %d", bad, r)
		}
	})
}

func TestP15_Duration(t *testing.T) {
	rule("duration", "random 64 bit durations as text, JSON and integer seconds, with whitespace, and malformed texts; non-trivial: sub-second parts, negative or beyond a day")
	check(t, 6000, func(rt *rapid.T) {
		v := time.Duration(rapid.OneOf(rapid.Int64(), rapid.Int64Range(-1e12, 1e12), rapid.Map(rapid.Int64Range(-9e9, 9e9), func(s int64) int64 { return s * 1e9 })).Draw(rt, "ns"))
		d := xmp.Duration(v)
		b, err := d.MarshalText()
		if err != nil {
			rt.Fatal(err)
		}
		tally("duration", string(b), v < 0 || v%time.Second != 0 || v > 24*time.Hour)
		if d.Duration() != v || d.String() != v.String() {
			rt.Fatalf("%v %v", v, d)
		}
		var r xmp.Duration
		if err := r.UnmarshalText(b); err != nil || r != d {
			rt.Fatalf("%v text %s reads as %v (%v)", v, b, r, err)
		}
		j, err := json.Marshal(d)
		r = 0
		if err != nil || json.Unmarshal(j, &r) != nil || r != d {
			rt.Fatalf("%v JSON %s reads as %v", v, j, r)
		}
		// whitespace between the parts
		sp := strings.NewReplacer("h", "h ", "m", " m ").Replace(" " + time.Duration(v/time.Second*time.Second).String())
		if r, err := xmp.ParseDuration(sp); err != nil || r.Duration() != v/time.Second*time.Second {
			rt.Fatalf("%q reads as %v (%v)", sp, r, err)
		}
		sec := int64(v / time.Second)
		if r, err := xmp.ParseDuration(strconv.FormatInt(sec, 10)); err != nil || r.Duration() != time.Duration(sec)*time.Second {
			rt.Fatalf("%d seconds read as %v (%v)", sec, r, err)
		}
		r = 0
		if err := json.Unmarshal([]byte(strconv.FormatInt(sec, 10)), &r); err != nil || r.Duration() != time.Duration(sec)*time.Second {
			rt.Fatalf("%d seconds in JSON read as %v (%v)", sec, r, err)
		}
		bad := rapid.SampledFrom([]string{"", "x", "1x", "1.5", "9223372037", "-9223372037", "1:30", "h", "1h2", "99999999999", "9223372036854775807"}).Draw(rt, "bad")
		r = d
		if err := r.UnmarshalText([]byte(bad)); err == nil || r != d {
			rt.Fatalf("malformed duration %q read as %v", bad, r)
		}
	})
}

func TestP15_NullNumbers(t *testing.T) {
	rule("nullnumber", "nullable integers, floats (32/64 bit, NaN, infinities, subnormals) and strings in text and JSON, placeholders leave the value alone, malformed text is rejected; non-trivial: not a small integer")
	check(t, 8000, func(rt *rapid.T) {
		i := int(rapid.OneOf(rapid.Int64(), rapid.Int64Range(-1000, 1000)).Draw(rt, "int"))
		n := xmp.NullInt(i)
		b, err := n.MarshalText()
		var r xmp.NullInt
		if err != nil || string(b) != strconv.Itoa(i) || r.UnmarshalText(b) != nil || r != n || n.Int() != i || n.Value() != i {
			rt.Fatalf("NullInt %d: %s %d", i, b, r)
		}
		j, err := json.Marshal(n)
		r = 0
		if err != nil || json.Unmarshal(j, &r) != nil || r != n {
			rt.Fatalf("NullInt %d JSON %s: %d", i, j, r)
		}
		r = 0
		if json.Unmarshal([]byte(`"`+string(b)+`"`), &r) != nil || r != n {
			rt.Fatalf("NullInt %d JSON string: %d", i, r)
		}
		for _, p := range []string{"", "-", "--", "---", "NaN", "unknown"} {
			r = n
			if err := r.UnmarshalText([]byte(p)); err != nil || r != n {
				rt.Fatalf("NullInt placeholder %q: %v %v", p, r, err)
			}
			if _, err := xmp.ParseNullInt(p); err != xmp.EEmptyValue {
				rt.Fatalf("ParseNullInt(%q): %v", p, err)
			}
		}
		bad := rapid.SampledFrom([]string{"x", "1.5", "1x", "9223372036854775808", " 1", "1 ", "----", "0x10"}).Draw(rt, "bad")
		r = n
		if err := r.UnmarshalText([]byte(bad)); err == nil || r != n {
			rt.Fatalf("NullInt %q read as %d", bad, r)
		}

		f64 := rapid.OneOf(rapid.Float64(), rapid.Float64Range(-1000, 1000), rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.NaN(), 0, math.MaxFloat64, math.SmallestNonzeroFloat64, -0.5, 1e21, 1e-7})).Draw(rt, "f64")
		f32 := float32(rapid.OneOf(rapid.Float32(), rapid.Float32Range(-1000, 1000), rapid.SampledFrom([]float32{float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 0, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1})).Draw(rt, "f32"))
		tally("nullnumber", fmt.Sprint(i, f64, f32), f64 != math.Trunc(f64) || math.Abs(f64) > 1000)
		same64 := func(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }
		{
			x := xmp.NullFloat64(f64)
			b, err := x.MarshalText()
			var y xmp.NullFloat64
			if err != nil || y.UnmarshalText(b) != nil || !same64(y.Value(), f64) || !same64(x.Float64(), f64) {
				rt.Fatalf("NullFloat64 %v: %s %v", f64, b, y)
			}
			j, err := json.Marshal(x)
			y = 0
			if err != nil || json.Unmarshal(j, &y) != nil || !same64(y.Value(), f64) {
				rt.Fatalf("NullFloat64 %v JSON %s: %v (%v)", f64, j, y, err)
			}
			for _, fm := range []string{"%e", "%E", "%g"} {
				s := fmt.Sprintf(fm, f64)
				w, _ := strconv.ParseFloat(s, 64)
				y = 0
				if err := y.UnmarshalText([]byte(s)); err != nil || !same64(y.Value(), w) {
					if !math.IsInf(w, 0) || strings.Contains(s, "Inf") {
						rt.Fatalf("NullFloat64 %q reads as %v (%v)", s, y, err)
					}
				}
			}
		}
		{
			x := xmp.NullFloat(f32)
			b, err := x.MarshalText()
			var y xmp.NullFloat
			if err != nil || y.UnmarshalText(b) != nil || !same64(y.Value(), float64(f32)) || !same64(float64(x.Float32()), float64(f32)) {
				rt.Fatalf("NullFloat %v: %s %v", f32, b, y)
			}
			j, err := json.Marshal(x)
			y = 0
			if err != nil || json.Unmarshal(j, &y) != nil || !same64(y.Value(), float64(f32)) {
				rt.Fatalf("NullFloat %v JSON %s: %v (%v)", f32, j, y, err)
			}
		}
		for _, p := range []string{"", "-", "--", "---", "unknown", "Unknown"} {
			x, y := xmp.NullFloat(f32), xmp.NullFloat64(f64)
			if x.UnmarshalText([]byte(p)) != nil || y.UnmarshalText([]byte(p)) != nil || !same64(x.Value(), float64(f32)) || !same64(y.Value(), f64) {
				rt.Fatalf("float placeholder %q: %v %v", p, x, y)
			}
		}
		badf := rapid.SampledFrom([]string{"x", "1.5.2", "1-2", "..", "e", "fps", "1e999"}).Draw(rt, "badf")
		x, y := xmp.NullFloat(f32), xmp.NullFloat64(f64)
		if x.UnmarshalText([]byte(badf)) == nil || y.UnmarshalText([]byte(badf)) == nil || !same64(x.Value(), float64(f32)) || !same64(y.Value(), f64) {
			rt.Fatalf("malformed float %q read as %v %v", badf, x, y)
		}

		// strings: trimmed, placeholders ignored, first value wins
		s := rapid.StringMatching(`[a-zA-Z0-9 ä\-]{0,8}`).Draw(rt, "str")
		var ns xmp.NullString
		if err := ns.UnmarshalText([]byte(s)); err != nil {
			rt.Fatal(err)
		}
		want := strings.TrimSpace(s)
		if want == "-" || want == "--" || want == "unknown" {
			want = ""
		}
		if ns.Value() != want || ns.String() != want {
			rt.Fatalf("NullString %q reads as %q", s, ns)
		}
		b, _ = ns.MarshalText()
		var ns2 xmp.NullString
		if string(b) != want || ns2.UnmarshalText(b) != nil || ns2 != ns {
			rt.Fatalf("NullString %q round trip: %q", want, ns2)
		}
		j, err = json.Marshal(ns)
		ns2 = ""
		if err != nil || json.Unmarshal(j, &ns2) != nil || ns2 != ns {
			rt.Fatalf("NullString %q JSON %s: %q", want, j, ns2)
		}
		if ns != "" {
			ns2 = ns
			if ns2.UnmarshalText([]byte("other")); ns2 != ns {
				rt.Fatalf("NullString %q overwritten with %q", ns, ns2)
			}
		}
	})
}
