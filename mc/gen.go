package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"net/url"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Calls into the implementation. A panic is a failure of whatever is checked.

func panicText(r any) (string, string) {
	st := string(debug.Stack())
	where := ""
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "zapto.org/ics") {
			where = strings.TrimSpace(l)
			if i := strings.LastIndex(where, "/"); i >= 0 {
				where = where[i+1:]
			}
			if i := strings.IndexByte(where, ' '); i >= 0 {
				where = where[:i]
			}
			break
		}
	}
	return fmt.Sprintf("%v", r), where + "\n" + st
}

func (c *Ctx) decodeFrom(r io.Reader) (cal *ics.Calendar, err error, panicked bool) {
	c.traces++
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(skipExec); ok {
				panic(p)
			}
			panicked = true
			m, st := panicText(p)
			c.Fail("panic in Decode: "+clip(m, 120), "%s", st)
		}
	}()
	cal, err = ics.Decode(r)
	return
}

func (c *Ctx) decode(s string) (cal *ics.Calendar, err error, panicked bool) {
	cal, err, panicked = c.decodeFrom(strings.NewReader(s))
	if panicked && c.fail != nil && !strings.Contains(c.fail.Detail, "input: ") {
		c.fail.Detail = fmt.Sprintf("input: %q\n%s", s, c.fail.Detail)
	}
	return
}

func (c *Ctx) encodeTo(w io.Writer, cal *ics.Calendar) (err error, panicked bool) {
	c.traces++
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(skipExec); ok {
				panic(p)
			}
			panicked = true
			m, st := panicText(p)
			c.Fail("panic in Encode: "+clip(m, 120), "calendar:\n%s\n%s", dump(cal), st)
		}
	}()
	err = ics.Encode(w, cal)
	return
}

type countWriter struct {
	bytes.Buffer
	calls int
}

func (w *countWriter) Write(p []byte) (int, error) {
	w.calls++
	return w.Buffer.Write(p)
}

// encode returns the output, or what was written before an error.
func (c *Ctx) encode(cal *ics.Calendar) (out string, err error, panicked bool) {
	var w countWriter
	err, panicked = c.encodeTo(struct{ io.Writer }{&w}, cal)
	return w.String(), err, panicked
}

// expectDecode checks that a text decodes to exactly the wanted calendar.
func (c *Ctx) expectDecode(sig, text, want string) bool {
	got, err, p := c.decode(text)
	if p {
		return false
	}
	if err != nil {
		c.Fail(sig+": rejected", "input: %q\nerror: %v\nwant:\n%s", text, err, want)
		return false
	}
	if d := dump(got); d != want {
		c.Fail(sig+": differs", "input: %q\n%s", text, diffLine(want, d))
		return false
	}
	return true
}

func (c *Ctx) expectReject(sig, text, why string) bool {
	got, err, p := c.decode(text)
	if p {
		return false
	}
	if err == nil {
		c.Fail(sig+": accepted", "input: %q\nmust be rejected: %s\ngot:\n%s", text, why, dump(got))
		return false
	}
	if got != nil {
		c.Fail(sig+": calendar with error", "input: %q\nerror: %v", text, err)
		return false
	}
	return true
}

// judge compares Decode with the reference model on an arbitrary text.
func (c *Ctx) judge(sig, text string) {
	if c.onText != nil {
		c.onText(c, text)
		return
	}
	cal, v, why := refDecode(text)
	switch v {
	case accept:
		d := dump(cal)
		c.expectDecode(sig, text, d)
		c.Outcome("a", d)
		if c.both && c.fail == nil {
			checkObject(c, cal)
		}
	case reject:
		c.expectReject(sig, text, why)
		c.Outcome("r", why)
	default:
		got, err, p := c.decode(text)
		if !p && (got == nil) == (err == nil) {
			c.Fail(sig+": neither or both results", "input: %q cal %v err %v", text, got != nil, err)
		} else if !p && err == nil && utf8.ValidString(text) && !strings.ContainsRune(text, utf8.RuneError) {
			if d := dump(got); strings.ContainsRune(d, utf8.RuneError) || strings.Contains(d, `\ufffd`) {
				c.Fail(sig+": replacement character in the result", "input: %q\ngot: %s", text, d)
			}
		}
		c.Outcome("u")
	}
	c.Note("%s %q", v, text)
}

// ---------------------------------------------------------------------------
// Value alternatives. The first entry of each list is the plain default.

func mustURL(s string) url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return *u
}

func mustLoc(s string) *time.Location {
	l, err := time.LoadLocation(s)
	if err != nil {
		panic(err)
	}
	return l
}

var (
	ny    = mustLoc("America/New_York")
	kol   = mustLoc("Asia/Kolkata")
	lon   = mustLoc("Europe/London")
	fixed = time.FixedZone("", 5*3600+1800)
	fixNg = time.FixedZone("", -(3*3600 + 30*60))
)

func dt(y, m, d, h, mi, s int, l *time.Location) time.Time {
	return time.Date(y, time.Month(m), d, h, mi, s, 0, l)
}

var sampleTexts = []string{
	"x", "", "a,b;c\\d\ne", "hé日\U0001d11e", "\ttab\t", strings.Repeat("0123456789", 20),
	"\"q\":;=,", "BEGIN:VEVENT", " lead trail ", `\n`, "^n^^", "\n", "\\", ",", ";", strings.Repeat("日", 60),
	"\u2028\u00a0\ufeff\u0085",
}

var sampleParams = []string{
	"abc", "a b", "qu\"ote", "^caret", "se;mi:co,mma", "nl\nx", "^n", "^'", "hé日\U0001d11e", "\t", "", "\"", "^", "\n", "^^n", ",", ";", ":", "=", "a\"b;c^d\ne", strings.Repeat("ab;", 40), "^x", "'",
}

var sampleURIs = []string{
	"http://example.com/a", "mailto:a@example.com", "urn:uuid:1;2,3", "http://u:p@h:8080/p%20q;r,s?q=1&b=%22x#frag", "", "CID:part3.msg", "data:text/plain,^x", "http://example.com/?q=\"x\"", "/rel/path", "http://example.com/?", "#f", "geo:51.5,-0.1;u=35", "http://example.com/" + strings.Repeat("p/", 50), "mailto:\"j d\"@x.org", "http://hé.example/日", "http://example.com/a^b",
}

func rvs(xs ...any) []reflect.Value {
	var r []reflect.Value
	for _, x := range xs {
		r = append(r, reflect.ValueOf(x))
	}
	return r
}

func timeAlts() []time.Time {
	return []time.Time{
		dt(1997, 7, 14, 17, 0, 0, time.UTC),
		dt(2020, 2, 29, 23, 59, 59, time.Local),
		dt(1998, 1, 19, 2, 0, 1, ny),
		dt(2024, 6, 30, 0, 0, 0, kol),
		dt(2000, 12, 31, 23, 30, 15, fixed),
		dt(9999, 12, 31, 23, 59, 59, time.UTC),
		dt(1, 1, 1, 0, 0, 1, time.UTC),
		dt(1969, 12, 31, 23, 59, 59, time.UTC),
		dt(1970, 1, 1, 0, 0, 0, time.UTC),
		dt(2024, 7, 1, 12, 0, 0, lon),
		dt(2000, 1, 1, 0, 15, 0, fixNg),
		time.Date(2001, 2, 3, 4, 5, 6, 999999999, time.UTC),
		dt(0, 2, 29, 1, 2, 3, time.UTC),
	}
}

var valAlts = map[valKind][]reflect.Value{}
var badAlts = map[valKind][]reflect.Value{}

func init() {
	for _, s := range sampleTexts {
		valAlts[vText] = append(valAlts[vText], reflect.ValueOf(ics.Text(s)))
	}
	valAlts[vMText] = rvs(ics.MText{"x"}, ics.MText{"a", "b"}, ics.MText{"a,b", ";", "\\"}, ics.MText{"", ""}, ics.MText{"", "x", ""}, ics.MText{""}, ics.MText{"\n", "hé,日"}, ics.MText{"a\\", "b"}, ics.MText{"\\", "n"}, ics.MText{ics.Text(strings.Repeat("y", 80)), ics.Text(strings.Repeat("z,", 40))})
	for _, t := range timeAlts() {
		valAlts[vDateTime] = append(valAlts[vDateTime], reflect.ValueOf(ics.DateTime{Time: t}))
	}
	valAlts[vDate] = rvs(ics.Date{Time: dt(1997, 7, 14, 0, 0, 0, time.UTC)}, ics.Date{Time: dt(2024, 2, 29, 23, 0, 0, ny)}, ics.Date{Time: dt(9999, 12, 31, 0, 0, 0, time.UTC)}, ics.Date{Time: dt(1, 1, 2, 0, 0, 0, time.UTC)}, ics.Date{Time: dt(1970, 1, 1, 0, 0, 0, time.Local)}, ics.Date{Time: dt(0, 1, 1, 0, 0, 0, time.UTC)})
	valAlts[vDuration] = rvs(ics.Duration{Hours: 1}, ics.Duration{}, ics.Duration{Negative: true, Minutes: 15}, ics.Duration{Weeks: 7}, ics.Duration{Days: 1}, ics.Duration{Days: 1, Seconds: 1}, ics.Duration{Days: 15, Hours: 5, Seconds: 20}, ics.Duration{Hours: 1, Seconds: 1}, ics.Duration{Hours: 2, Minutes: 3, Seconds: 4}, ics.Duration{Minutes: 3, Seconds: 4}, ics.Duration{Seconds: 4}, ics.Duration{Negative: true}, ics.Duration{Negative: true, Weeks: 1}, ics.Duration{Days: 4294967295, Minutes: 100}, ics.Duration{Negative: true, Days: 10, Minutes: 10})
	valAlts[vPeriod] = rvs(
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, time.UTC)}, Duration: ics.Duration{Hours: 5, Minutes: 30}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, time.UTC)}, End: ics.DateTime{Time: dt(1997, 1, 2, 7, 0, 0, time.UTC)}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, ny)}, End: ics.DateTime{Time: dt(1997, 1, 2, 7, 0, 0, ny)}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, mustLoc("America/New_York"))}, End: ics.DateTime{Time: dt(1997, 1, 2, 7, 0, 0, mustLoc("America/New_York"))}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, time.Local)}, Duration: ics.Duration{Weeks: 2}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, time.Local)}, End: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 1, time.Local)}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, fixed)}, End: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 1, fixed)}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, time.UTC)}, End: ics.DateTime{Time: dt(1997, 1, 2, 7, 0, 0, time.UTC)}, Duration: ics.Duration{Hours: 1}},
		ics.Period{Start: ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, ny)}, Duration: ics.Duration{Days: 1}},
	)
	valAlts[vRecur] = rvs(
		ics.Recur{Frequency: ics.Daily},
		ics.Recur{Frequency: ics.Yearly, Count: 10, Interval: 2, ByMonth: []ics.Month{1, 12}, ByDay: []ics.DayRecur{{Day: ics.Sunday}, {Day: ics.Monday, Occurrence: -1}, {Day: ics.Saturday, Occurrence: 53}}},
		ics.Recur{Frequency: ics.Secondly, Until: dt(1997, 12, 24, 0, 0, 0, time.UTC)},
		ics.Recur{Frequency: ics.Weekly, Until: dt(1997, 12, 24, 1, 2, 3, time.UTC), UntilTime: true, WeekStart: ics.Sunday},
		ics.Recur{Frequency: ics.Minutely, Until: dt(1997, 12, 24, 1, 2, 3, time.Local), UntilTime: true},
		ics.Recur{Frequency: ics.Hourly, Until: dt(1997, 12, 24, 1, 2, 3, ny), UntilTime: true},
		ics.Recur{Frequency: ics.Hourly, Until: dt(1997, 12, 24, 1, 2, 3, ny)},
		ics.Recur{Frequency: ics.Hourly, Until: dt(1997, 12, 24, 1, 2, 3, fixed), UntilTime: true},
		ics.Recur{Frequency: ics.Monthly, BySecond: []uint8{0, 60}, ByMinute: []uint8{0, 59}, ByHour: []uint8{0, 23}, ByMonthDay: []int8{1, -1, 31, -31}, ByYearDay: []int16{1, 366, -366}, ByWeekNum: []int8{53, -53}, BySetPos: []int16{-1, 366, -366}, WeekStart: ics.Saturday},
		ics.Recur{Frequency: ics.Monthly, Interval: math.MaxUint64},
		ics.Recur{Frequency: ics.Monthly, Count: math.MaxUint64},
		ics.Recur{Frequency: ics.Weekly, ByDay: []ics.DayRecur{{Day: ics.Tuesday}, {Day: ics.Wednesday, Occurrence: 1}, {Day: ics.Thursday, Occurrence: 10}, {Day: ics.Friday, Occurrence: -10}}, WeekStart: ics.Monday},
	)
	for _, s := range sampleURIs {
		valAlts[vURI] = append(valAlts[vURI], reflect.ValueOf(ics.URI{URL: mustURL(s)}))
		valAlts[vCalAddr] = append(valAlts[vCalAddr], reflect.ValueOf(ics.CalendarAddress{URL: mustURL(s)}))
	}
	valAlts[vInteger] = rvs(ics.Integer(1), ics.Integer(0), ics.Integer(-1), ics.Integer(math.MaxInt32), ics.Integer(math.MinInt32), ics.Integer(100))
	valAlts[vTFloat] = rvs(ics.TFloat{37.386013, -122.082932}, ics.TFloat{0, 0}, ics.TFloat{-90, 180}, ics.TFloat{0.1, 1e-7}, ics.TFloat{1.0 / 3, -2.0 / 3}, ics.TFloat{90, -180}, ics.TFloat{5e-324, -5e-324})
	valAlts[vUTCOffset] = rvs(ics.UTCOffset(3600), ics.UTCOffset(0), ics.UTCOffset(-18000), ics.UTCOffset(1), ics.UTCOffset(-1), ics.UTCOffset(86399), ics.UTCOffset(-86399), ics.UTCOffset(19800), ics.UTCOffset(3605), ics.UTCOffset(-60))
	valAlts[vBinary] = rvs(ics.Binary("abc"), ics.Binary{}, ics.Binary{0}, ics.Binary{255, 254}, ics.Binary(bytes.Repeat([]byte{0, 255, 127, 251}, 60)))
	valAlts[vBoolean] = rvs(ics.Boolean(true), ics.Boolean(false))

	for _, s := range []string{"\x00", "a\rb", "\x7f", "x\x1f", "\x0b", "\r\n", "a\x08", "\x0c", "ok\n\r"} {
		badAlts[vText] = append(badAlts[vText], reflect.ValueOf(ics.Text(s)))
		badAlts[vMText] = append(badAlts[vMText], reflect.ValueOf(ics.MText{"fine", ics.Text(s)}))
	}
	badAlts[vDateTime] = rvs(ics.DateTime{}, ics.DateTime{Time: dt(10000, 1, 1, 0, 0, 0, time.UTC)}, ics.DateTime{Time: dt(-1, 1, 1, 0, 0, 0, time.UTC)}, ics.DateTime{Time: dt(12345, 1, 1, 0, 0, 0, ny)}, ics.DateTime{Time: dt(9999, 12, 31, 23, 0, 0, fixNg)})
	badAlts[vDate] = rvs(ics.Date{}, ics.Date{Time: dt(10000, 1, 1, 0, 0, 0, time.UTC)}, ics.Date{Time: dt(-5, 1, 1, 0, 0, 0, time.UTC)})
	badAlts[vDuration] = rvs(ics.Duration{Weeks: 1, Days: 1}, ics.Duration{Weeks: 1, Seconds: 1}, ics.Duration{Weeks: 1, Hours: 1}, ics.Duration{Weeks: 2, Minutes: 3})
	s0 := ics.DateTime{Time: dt(1997, 1, 1, 18, 0, 0, time.UTC)}
	badAlts[vPeriod] = rvs(ics.Period{}, ics.Period{Duration: ics.Duration{Hours: 1}}, ics.Period{Start: s0, Duration: ics.Duration{Negative: true, Hours: 1}}, ics.Period{Start: s0, End: s0}, ics.Period{Start: s0, End: ics.DateTime{Time: s0.Add(-time.Second)}}, ics.Period{Start: s0, End: ics.DateTime{Time: s0.Add(time.Hour).In(ny)}}, ics.Period{Start: s0, Duration: ics.Duration{Weeks: 1, Hours: 1}}, ics.Period{Start: ics.DateTime{Time: dt(10000, 1, 1, 0, 0, 0, time.UTC)}, Duration: ics.Duration{Hours: 1}}, ics.Period{Start: s0, End: ics.DateTime{Time: dt(10000, 1, 1, 0, 0, 0, time.UTC)}}, ics.Period{End: s0})
	badAlts[vRecur] = rvs(
		ics.Recur{Frequency: 7}, ics.Recur{Frequency: 255},
		ics.Recur{BySecond: []uint8{61}}, ics.Recur{BySecond: []uint8{1, 255}}, ics.Recur{ByMinute: []uint8{60}}, ics.Recur{ByMinute: []uint8{0, 60}}, ics.Recur{ByHour: []uint8{24}}, ics.Recur{ByHour: []uint8{0, 24}},
		ics.Recur{ByDay: []ics.DayRecur{{}}}, ics.Recur{ByDay: []ics.DayRecur{{Day: 8}}}, ics.Recur{ByDay: []ics.DayRecur{{Day: 1, Occurrence: 54}}}, ics.Recur{ByDay: []ics.DayRecur{{Day: 1}, {Day: 1, Occurrence: -54}}}, ics.Recur{ByDay: []ics.DayRecur{{Day: 1, Occurrence: -128}}}, ics.Recur{ByDay: []ics.DayRecur{{Day: 1, Occurrence: 127}}},
		ics.Recur{ByMonthDay: []int8{0}}, ics.Recur{ByMonthDay: []int8{32}}, ics.Recur{ByMonthDay: []int8{1, -32}},
		ics.Recur{ByYearDay: []int16{0}}, ics.Recur{ByYearDay: []int16{367}}, ics.Recur{ByYearDay: []int16{1, -367}},
		ics.Recur{ByWeekNum: []int8{0}}, ics.Recur{ByWeekNum: []int8{54}}, ics.Recur{ByWeekNum: []int8{1, -54}},
		ics.Recur{ByMonth: []ics.Month{0}}, ics.Recur{ByMonth: []ics.Month{1, 13}},
		ics.Recur{BySetPos: []int16{0}}, ics.Recur{BySetPos: []int16{367}}, ics.Recur{BySetPos: []int16{1, -367}},
		ics.Recur{WeekStart: 8}, ics.Recur{Count: 1, Until: dt(1997, 1, 1, 0, 0, 0, time.UTC)}, ics.Recur{Until: dt(10000, 1, 1, 0, 0, 0, time.UTC)}, ics.Recur{Until: dt(10000, 1, 1, 0, 0, 0, time.UTC), UntilTime: true},
	)
	for _, u := range []url.URL{{Scheme: "x", Opaque: "a\r\nb"}, {Scheme: "http", Host: "h", RawQuery: "a\x00"}, {Scheme: "x", Opaque: "\x7f"}, {Scheme: "http", Host: "h", RawQuery: "a\nX-INJECTED:1"}, {Scheme: "x", Opaque: "a\nb"}} {
		badAlts[vURI] = append(badAlts[vURI], reflect.ValueOf(ics.URI{URL: u}))
		badAlts[vCalAddr] = append(badAlts[vCalAddr], reflect.ValueOf(ics.CalendarAddress{URL: u}))
	}
	badAlts[vTFloat] = rvs(ics.TFloat{math.NaN(), 0}, ics.TFloat{0, math.NaN()}, ics.TFloat{math.Inf(1), 0}, ics.TFloat{0, math.Inf(-1)})
	badAlts[vUTCOffset] = rvs(ics.UTCOffset(360000), ics.UTCOffset(-360000), ics.UTCOffset(math.MaxInt64), ics.UTCOffset(math.MinInt64), ics.UTCOffset(1000000))
}

// paramAlts lists values (as the param's field would hold them).
func paramAlts(q *paramSpec) []reflect.Value {
	ptr := func(g reflect.Value) reflect.Value {
		p := reflect.New(q.Type)
		p.Elem().Set(g.Convert(q.Type))
		return p
	}
	var out []reflect.Value
	switch q.Kind {
	case pText, pQText:
		for _, s := range sampleParams {
			out = append(out, ptr(reflect.ValueOf(s)))
		}
	case pQTextL:
		f := func(s ...string) {
			out = append(out, reflect.ValueOf(s).Convert(q.Type))
		}
		f("mailto:a@x")
		f("a", "b")
		f("a,b", "c\"d", "^", "\n")
		f("", "")
		f("x", "", "y;z:")
		f(strings.Repeat("k", 80), "l")
	case pQURI:
		for _, s := range sampleURIs {
			out = append(out, ptr(reflect.ValueOf(ics.URI{URL: mustURL(s)})))
		}
	case pQAddrL:
		f := func(s ...string) {
			v := reflect.MakeSlice(q.Type, 0, len(s))
			for _, x := range s {
				v = reflect.Append(v, reflect.ValueOf(ics.CalendarAddress{URL: mustURL(x)}))
			}
			out = append(out, v)
		}
		f("mailto:a@example.com")
		f("mailto:a@example.com", "mailto:b@example.com")
		for _, s := range sampleURIs[2:] {
			f(s)
		}
		f("urn:1,2;3", "urn:4", "urn:5")
	case pEnum:
		for i := 0; i <= len(q.Words); i++ {
			out = append(out, ptr(reflect.ValueOf(uint8((i+1)%(len(q.Words)+1)))))
		}
	case pOnly:
		out = append(out, reflect.New(q.Type))
	case pBool:
		out = append(out, ptr(reflect.ValueOf(true)), ptr(reflect.ValueOf(false)))
	case pMedia:
		for _, s := range []string{"text/plain", "application/x-foo.bar+json", "a/b", "image/svg+xml", "x!#$&._/y"} {
			out = append(out, ptr(reflect.ValueOf(s)))
		}
	}
	return out
}

func badParamAlts(q *paramSpec) []reflect.Value {
	ptr := func(g reflect.Value) reflect.Value {
		p := reflect.New(q.Type)
		p.Elem().Set(g.Convert(q.Type))
		return p
	}
	var out []reflect.Value
	switch q.Kind {
	case pText, pQText:
		for _, s := range []string{"\x00", "a\r", "\x7f", "a\x1fb", "\r\nX:y", "\x0b", "a\x08"} {
			out = append(out, ptr(reflect.ValueOf(s)))
		}
	case pMedia:
		for _, s := range []string{"plain", "a/b\r\nX:1", "a/b\x00", "text/pl\x7fain"} {
			out = append(out, ptr(reflect.ValueOf(s)))
		}
	case pQTextL:
		for _, s := range [][]string{{"\x00"}, {"fine", "a\r\n"}, {"\x7f"}} {
			out = append(out, reflect.ValueOf(s).Convert(q.Type))
		}
	case pQURI:
		for _, b := range badAlts[vURI] {
			out = append(out, ptr(b))
		}
	case pQAddrL:
		for _, b := range badAlts[vCalAddr] {
			v := reflect.MakeSlice(q.Type, 0, 2)
			v = reflect.Append(v, reflect.ValueOf(ics.CalendarAddress{URL: mustURL("mailto:a@b")}), b)
			out = append(out, v)
		}
	}
	return out
}

// propAlts: alternatives for a whole property, plain default first.
//
//	level 0: default only, plus one per value kind
//	level 1: a few values per kind, first alternative of each parameter, all together
//	level 2: every value, every parameter value, all parameters together
type altKey struct {
	ps  *propSpec
	lvl int
}

var altCache = map[altKey][]reflect.Value{}

func propDefault(ps *propSpec) reflect.Value {
	v := reflect.New(ps.Type).Elem()
	if ps.Kinds[0] != vEnum {
		setValue(ps, v, ps.Kinds[0], valAlts[ps.Kinds[0]][0])
	}
	return v
}

func clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func propAlts(ps *propSpec, lvl int) []reflect.Value {
	k := altKey{ps, lvl}
	if a, ok := altCache[k]; ok {
		return a
	}
	def := propDefault(ps)
	out := []reflect.Value{def}
	if ps.Kinds[0] == vEnum {
		n := len(ps.Words)
		if lvl == 0 && n > 2 {
			n = 2
		}
		for i := 1; i < n; i++ {
			v := clone(def)
			v.SetUint(uint64(i))
			out = append(out, v)
		}
		altCache[k] = out
		return out
	}
	for i, kind := range ps.Kinds {
		alts := valAlts[kind]
		max := len(alts)
		if lvl == 0 {
			max = 1
		} else if lvl == 1 && max > 4 {
			max = 4
		}
		for n, a := range alts[:max] {
			if i == 0 && n == 0 {
				continue
			}
			v := reflect.New(ps.Type).Elem()
			setValue(ps, v, kind, a)
			out = append(out, v)
		}
	}
	if lvl > 0 {
		for _, q := range ps.Params {
			alts := paramAlts(q)
			if lvl == 1 && len(alts) > 3 {
				alts = alts[:3]
			}
			for _, a := range alts {
				v := clone(def)
				v.FieldByName(q.Field).Set(a)
				out = append(out, v)
			}
		}
	}
	if len(ps.Params) > 1 {
		for n := 0; n < 3; n++ {
			if n > lvl {
				break
			}
			v := clone(def)
			for _, q := range ps.Params {
				a := paramAlts(q)
				v.FieldByName(q.Field).Set(a[(n*2)%len(a)])
			}
			out = append(out, v)
		}
	}
	altCache[k] = out
	return out
}

// badPropAlts: properties that are not representable.
var badCache = map[*propSpec][]reflect.Value{}

func badPropAlts(ps *propSpec) []reflect.Value {
	if a, ok := badCache[ps]; ok {
		return a
	}
	var out []reflect.Value
	def := propDefault(ps)
	if ps.Kinds[0] == vEnum {
		for _, n := range []int{len(ps.Words), len(ps.Words) + 1, 255} {
			v := clone(def)
			v.SetUint(uint64(n))
			out = append(out, v)
		}
	} else {
		for _, kind := range ps.Kinds {
			for _, a := range badAlts[kind] {
				v := reflect.New(ps.Type).Elem()
				setValue(ps, v, kind, a)
				out = append(out, v)
			}
		}
		if len(ps.Kinds) > 1 {
			out = append(out, reflect.New(ps.Type).Elem()) // none set
			for i := range ps.Kinds {
				for j := i + 1; j < len(ps.Kinds); j++ {
					v := reflect.New(ps.Type).Elem()
					setValue(ps, v, ps.Kinds[i], valAlts[ps.Kinds[i]][0])
					setValue(ps, v, ps.Kinds[j], valAlts[ps.Kinds[j]][0])
					out = append(out, v)
				}
			}
		}
		for _, q := range ps.Params {
			for _, a := range badParamAlts(q) {
				v := clone(def)
				v.FieldByName(q.Field).Set(a)
				out = append(out, v)
			}
		}
	}
	badCache[ps] = out
	return out
}

func init() { setups = append(setups, fillAlts, fillFocuses) }

func fillAlts() {
	// fill the caches before any worker runs
	for _, ps := range propList {
		for l := 0; l < 3; l++ {
			propAlts(ps, l)
		}
		badPropAlts(ps)
	}
}

// ---------------------------------------------------------------------------
// Component generation

// fill populates a component: required properties with their default (or a
// deviation), optional and repeated ones absent (or a deviation).
type genOpts struct {
	lvl   int
	bad   bool // also offer unrepresentable alternatives
	max   int  // elements per repeated property
	noDev bool // defaults only
	subs  bool // deviate on sub-components
}

func (o genOpts) alts(ps *propSpec) ([]reflect.Value, []reflect.Value) {
	a := propAlts(ps, o.lvl)
	if o.bad {
		return a, badPropAlts(ps)
	}
	return a, nil
}

func pick(good, bad []reflect.Value, n int) reflect.Value {
	if n < len(good) {
		return good[n]
	}
	return bad[n-len(good)]
}

func fill(c *Ctx, s *compSpec, v reflect.Value, o genOpts) {
	for i := range s.Props {
		u := &s.Props[i]
		f := v.FieldByName(u.Field)
		good, bad := o.alts(u.Prop)
		if o.noDev {
			if u.Card == cardOne {
				f.Set(good[0])
			}
			continue
		}
		switch u.Card {
		case cardOne:
			f.Set(pick(good, bad, c.Dev(len(good)+len(bad))))
		case cardOpt:
			if n := c.Dev(1 + len(good) + len(bad)); n > 0 {
				p := reflect.New(u.Prop.Type)
				p.Elem().Set(pick(good, bad, n-1))
				f.Set(p)
			}
		case cardMany:
			for k := 0; k < o.max; k++ {
				n := c.Dev(1 + len(good) + len(bad))
				if n == 0 {
					break
				}
				f.Set(reflect.Append(f, pick(good, bad, n-1)))
			}
		}
	}
	for _, u := range s.Subs {
		f := v.FieldByName(u.Field)
		if u.Name == "VALARM" {
			for k := 0; o.subs && k < o.max; k++ {
				n := c.Dev(1 + len(actions))
				if n == 0 {
					break
				}
				f.Set(reflect.Append(f, newAlarm(c, actions[n-1], genOpts{noDev: true})))
			}
			continue
		}
		for k := 0; k < 2; k++ {
			need := s.Name == "VTIMEZONE" && u.Name == "STANDARD" && k == 0
			have := 0
			if o.subs && !o.noDev {
				have = c.Dev(2)
			}
			if need {
				have = 1 - have
			}
			if have == 0 {
				break
			}
			e := reflect.New(u.Comp.Type).Elem()
			fill(c, u.Comp, e, genOpts{noDev: true})
			f.Set(reflect.Append(f, e))
		}
	}
}

func newAlarm(c *Ctx, action string, o genOpts) reflect.Value {
	a := comps["VALARM#"+action]
	p := reflect.New(a.Type)
	fill(c, a, p.Elem(), o)
	return reflect.ValueOf(ics.Alarm{AlarmType: p.Interface().(ics.AlarmType)})
}

func newCal() *ics.Calendar {
	return &ics.Calendar{Version: "2.0", ProductID: "-//x//y//EN"}
}

// focuses: every place a component's fields can be varied.
type focus struct {
	Path string
	Spec *compSpec
}

var focuses []focus

func fillFocuses() {
	for _, n := range []string{"VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT"} {
		focuses = append(focuses, focus{n, comps[n]})
	}
	for _, p := range []string{"VEVENT", "VTODO"} {
		for _, a := range actions {
			focuses = append(focuses, focus{p + "/" + a, comps["VALARM#"+a]})
		}
	}
}

// focused builds a calendar in which only the focused component varies.
func focused(c *Ctx, f focus, o genOpts) *ics.Calendar {
	cal := newCal()
	cv := reflect.ValueOf(cal).Elem()
	addSub := func(parent reflect.Value, field string, e reflect.Value) {
		x := parent.FieldByName(field)
		x.Set(reflect.Append(x, e))
	}
	mk := func(s *compSpec, o genOpts) reflect.Value {
		e := reflect.New(s.Type).Elem()
		fill(c, s, e, o)
		return e
	}
	switch {
	case f.Path == "VCALENDAR":
		fill(c, calSpec, cv, o)
	case f.Path == "STANDARD" || f.Path == "DAYLIGHT":
		tz := mk(comps["VTIMEZONE"], genOpts{noDev: true})
		tz.FieldByName("Standard").Set(reflect.Zero(tz.FieldByName("Standard").Type()))
		addSub(tz, f.Spec.Go, mk(f.Spec, o))
		addSub(cv, "Timezone", tz)
	case f.Spec.Action != "":
		host := strings.SplitN(f.Path, "/", 2)[0]
		e := mk(comps[host], genOpts{noDev: true})
		addSub(e, "Alarm", newAlarm(c, f.Spec.Action, o))
		addSub(cv, comps[host].Go, e)
	default:
		addSub(cv, f.Spec.Go, mk(f.Spec, o))
	}
	return cal
}
