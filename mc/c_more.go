package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// C04: kinds of readers

// onlyReader hides all methods but Read.
type onlyReader struct{ io.Reader }

// byteReader offers further reading methods next to Read.
type byteReader struct{ *bufio.Reader }

func readerKinds(text string) map[string]io.Reader {
	skipped := strings.NewReader("BEGIN:VCALENDAR\r\n" + text)
	skipped.Seek(int64(len("BEGIN:VCALENDAR\r\n")), io.SeekStart)
	used := bytes.NewBufferString("VERSION:2.0\r\n" + text)
	used.Next(len("VERSION:2.0\r\n"))
	h := len(text) / 2
	big := text + "\r\nEND:VCALENDAR\r\nBEGIN:X\r\n"
	out := map[string]io.Reader{
		"strings.Reader":        strings.NewReader(text),
		"bytes.Reader":          bytes.NewReader([]byte(text)),
		"bytes.Buffer":          bytes.NewBufferString(text),
		"strings.Reader in use": skipped,
		"bytes.Buffer in use":   used,
		"only Read":             onlyReader{strings.NewReader(text)},
		"io.LimitedReader":      io.LimitReader(strings.NewReader(big), int64(len(text))),
		"io.SectionReader":      io.NewSectionReader(strings.NewReader("BEGIN:X"+big), 7, int64(len(text))),
		"io.MultiReader":        io.MultiReader(strings.NewReader(text[:h]), strings.NewReader(""), strings.NewReader(text[h:])),
		"io.TeeReader":          io.TeeReader(strings.NewReader(text), io.Discard),
		"io.NopCloser":          io.NopCloser(strings.NewReader(text)),
		"bufio.ReadWriter":      bufio.NewReadWriter(bufio.NewReader(strings.NewReader(text)), bufio.NewWriter(io.Discard)),
		"byte reader":           byteReader{bufio.NewReaderSize(strings.NewReader(text), 16)},
	}
	var one []io.Reader
	for i := range []byte(text) {
		one = append(one, strings.NewReader(text[i:i+1]))
	}
	out["io.MultiReader of octets"] = io.MultiReader(one...)
	for _, n := range []int{16, 17, 64, 4096, 65536} {
		out[fmt.Sprintf("bufio.Reader of %d", n)] = bufio.NewReaderSize(strings.NewReader(text), n)
		out[fmt.Sprintf("bufio.Reader of %d, filled", n)] = func() io.Reader {
			r := bufio.NewReaderSize(strings.NewReader(text), n)
			r.Peek(1)
			return r
		}()
	}
	return out
}

func readers(c *Ctx, texts []string) {
	text := texts[c.Choose(len(texts))]
	kinds := readerKinds(text)
	var names []string
	for n := range kinds {
		names = append(names, n)
	}
	sort.Strings(names)
	want, ok := c.result(&schedReader{data: []byte(text), fail: -1})
	if !ok {
		return
	}
	for _, n := range names {
		got, ok := c.result(kinds[n])
		if !ok {
			return
		}
		if !want.same(got) {
			c.Fail("result depends on the kind of reader", "%s\ntext: %q\nplain:\n%s\ngot:\n%s", n, clip(text, 1500), want, got)
			return
		}
	}
	c.Note("%q", clip(text, 300))
	c.Outcome(want.dump)
}

func readerTexts() []string {
	t := append(ioTexts(), emit(rich()).text(), refFold(emit(rich()).text(), 9))
	for _, n := range []int{4000, 4096, 9000, 70000} {
		t = append(t, placeMap["VEVENT"].text("SUMMARY:"+strings.Repeat("é", n)+"\r\n x\r\nCOMMENT:y"))
	}
	return t
}

// ---------------------------------------------------------------------------
// C15: the whole zone database, every hour of a year

// databaseZones lists the names in the zone database that comes with Go.
var databaseZones []string

func fillZones() {
	z, err := zip.OpenReader(filepath.Join(runtime.GOROOT(), "lib", "time", "zoneinfo.zip"))
	if err != nil {
		databaseZones = zoneNames
		return
	}
	defer z.Close()
	for _, f := range z.File {
		if _, err := time.LoadLocation(f.Name); err == nil && !strings.HasSuffix(f.Name, "/") && f.Name != "Factory" {
			databaseZones = append(databaseZones, f.Name)
		}
	}
	sort.Strings(databaseZones)
}

func init() { lateSetups = append(lateSetups, fillZones) }

func allZones(c *Ctx, ps []*place) {
	z := databaseZones[c.Choose(len(databaseZones))]
	p := ps[c.Choose(len(ps))]
	y := []int{1850, 1901, 1942, 1975, 1999, 2024, 2037, 2060, 9998}[c.Choose(9)]
	m := 1 + c.Choose(12)
	loc := mustLoc(z)
	if c.Bool() {
		c.judge("zone in the database", p.text(fmt.Sprintf("%s;TZID=%s:%04d%02d15T%02d3456", p.head(vDateTime), z, y, m, m*2-1)))
		return
	}
	checkObject(c, p.object(p.valued(vDateTime, reflect.ValueOf(ics.DateTime{Time: dt(y, m, 15, 23-m, 43, 21, loc)}))))
}

func everyHour(c *Ctx, zs []string) {
	z := zs[c.Choose(len(zs))]
	y := []int{2024, 1974, 2007}[c.Choose(3)]
	d := c.Choose(366)
	p := placeMap["VEVENT.DTSTART"]
	day := time.Date(y, 1, 1+d, 0, 0, 0, 0, time.UTC)
	for h := 0; h < 24; h++ {
		c.judge("hour", p.text(fmt.Sprintf("DTSTART;TZID=%s:%sT%02d%02d00", z, day.Format("20060102"), h, d%60)))
		if c.fail == nil {
			checkObject(c, p.object(p.valued(vDateTime, reflect.ValueOf(ics.DateTime{Time: day.Add(time.Duration(h) * time.Hour).In(mustLoc(z))}))))
		}
		if c.fail != nil {
			return
		}
	}
}

// ---------------------------------------------------------------------------
// C16, C17: amounts

// amounts lists numbers around every power of two and of ten.
func amounts(max uint64) (out []uint64) {
	seen := map[uint64]bool{}
	add := func(n uint64) {
		if n <= max && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := uint64(0); n <= 400; n++ {
		add(n)
	}
	for k := uint(8); k < 64; k++ {
		p := uint64(1) << k
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for p := uint64(1000); ; p *= 10 {
		add(p - 1)
		add(p)
		add(p + 1)
		if p > math.MaxUint64/10 {
			break
		}
	}
	for _, n := range []uint64{1440, 3599, 3600, 3601, 10080, 86399, 86400, 86401, 604799, 604800, 604801, 31536000, math.MaxUint64 - 1, math.MaxUint64} {
		add(n)
	}
	return
}

func durAmounts(c *Ctx) {
	ps := placesFor(vDuration)
	p := ps[c.Choose(2)*(len(ps)-1)]
	ns := amounts(math.MaxUint64)
	n := ns[c.Choose(len(ns))]
	u := c.Choose(5)
	with := c.Choose(6)
	neg := c.Bool()
	amt := [5]uint64{}
	amt[u] = n
	if with < 5 {
		if with == u || (u == 0) != (with == 0) {
			c.Skip()
		}
		amt[with] = 3
	}
	set := func(k int) bool { return amt[k] > 0 || k == u }
	var b strings.Builder
	b.WriteString("P")
	t := false
	for k, l := range "WDHMS" {
		if !set(k) {
			continue
		}
		if k > 1 && !t {
			t = true
			b.WriteByte('T')
		}
		fmt.Fprintf(&b, "%d%c", amt[k], l)
	}
	s := b.String()
	if neg {
		s = "-" + s
	}
	c.judge("duration amount", p.text(p.head(vDuration)+":"+s))
	if c.fail == nil {
		d := ics.Duration{Negative: neg, Weeks: uint(amt[0]), Days: uint(amt[1]), Hours: uint(amt[2]), Minutes: uint(amt[3]), Seconds: uint(amt[4])}
		checkObject(c, p.object(p.valued(vDuration, reflect.ValueOf(d))))
	}
}

func ruleAmounts(c *Ctx) {
	ps := placesFor(vRecur)
	p := ps[c.Choose(len(ps))]
	ns := amounts(math.MaxUint64)
	n := ns[c.Choose(len(ns))]
	r := ics.Recur{Frequency: ics.Frequency(c.Choose(7))}
	if c.Bool() {
		r.Count = n
	} else {
		r.Interval = n
	}
	switch c.Choose(4) {
	case 1:
		r.Count = 2
	case 2:
		r.Interval = 70000
	case 3:
		r.ByMonth = []ics.Month{2}
	}
	if n > 0 {
		l := emitProp(p.U, p.valued(vRecur, reflect.ValueOf(r)))
		c.judge("rule amount", p.text(l.String()))
	}
	if c.fail == nil {
		checkObject(c, p.object(p.valued(vRecur, reflect.ValueOf(r))))
	}
}

// ---------------------------------------------------------------------------
// C08: an invalid element anywhere in a list

func badElements(c *Ctx, max int) {
	p := places[c.Choose(len(places))]
	if p.U.Card != cardMany {
		c.Skip()
	}
	bad := badPropAlts(p.U.Prop)
	if len(bad) == 0 {
		c.Skip()
	}
	b := bad[c.Choose(len(bad))]
	n := 1 + c.Choose(max)
	at := c.Choose(n)
	alts := propAlts(p.U.Prop, 1)
	vals := make([]reflect.Value, n)
	for i := range vals {
		vals[i] = alts[i%len(alts)]
	}
	vals[at] = b
	refusal(c, p.object(vals...))
}

// badListed: an out of range element at every position of each list of a rule,
// and a control character in every element of lists of texts.
func badListed(c *Ctx, max int) {
	n := 1 + c.Choose(max)
	at := c.Choose(n)
	r := ics.Recur{Frequency: ics.Frequency(c.Choose(2) * 6)}
	f := reflect.ValueOf(&r).Elem()
	var lists []int
	for i := 0; i < f.NumField(); i++ {
		if f.Field(i).Kind() == reflect.Slice {
			lists = append(lists, i)
		}
	}
	k := c.Choose(len(lists) + 1)
	if k == len(lists) {
		p := []*place{placeMap["VEVENT.CATEGORIES"], placeMap["VTODO.RESOURCES"]}[c.Choose(2)]
		m := make(ics.MText, n)
		for i := range m {
			m[i] = ics.Text(numbered(i))
		}
		m[at] = []ics.Text{"", "\x00", "a\rb", "\x7f", "ok\x1f", "\t\n", "é\u0085"}[c.Choose(7)]
		refusal(c, p.object(p.valued(vMText, reflect.ValueOf(m))))
		return
	}
	l := f.Field(lists[k])
	for i := 0; i < n; i++ {
		e := reflect.New(l.Type().Elem()).Elem()
		switch e.Kind() {
		case reflect.Struct:
			e.Set(reflect.ValueOf(ics.DayRecur{Day: ics.WeekDay(1 + i%7), Occurrence: int8(i % 5)}))
		case reflect.Uint8:
			e.SetUint(uint64(1 + i%12))
		default:
			e.SetInt(int64(1 + i%28))
		}
		l.Set(reflect.Append(l, e))
	}
	e := l.Index(at)
	edge := []int64{0, 1, -1, 12, 13, 23, 24, 31, 32, -31, -32, 53, 54, -53, -54, 59, 60, 61, 127, -128, 366, 367, -366, -367, 255, 32767, -32768}
	v := edge[c.Choose(len(edge))]
	switch e.Kind() {
	case reflect.Struct:
		if v < -128 || v > 127 {
			c.Skip()
		}
		d := ics.DayRecur{Day: ics.WeekDay(c.Choose(10)), Occurrence: int8(v)}
		e.Set(reflect.ValueOf(d))
	case reflect.Uint8:
		if v < 0 || v > 255 {
			c.Skip()
		}
		e.SetUint(uint64(v))
	default:
		if e.OverflowInt(v) {
			c.Skip()
		}
		e.SetInt(v)
	}
	p := []*place{placeMap["VEVENT.RRULE"], placeMap["STANDARD.RRULE"], placeMap["VJOURNAL.RRULE"]}[c.Choose(3)]
	refusal(c, p.object(p.valued(vRecur, reflect.ValueOf(r))))
}

// ---------------------------------------------------------------------------
// C20: results after unusual calls

type deed struct {
	name string
	run  func()
}

var deeds []deed

func fillDeeds() {
	dec := func(r io.Reader) { ics.Decode(r) }
	enc := func(w io.Writer, cal *ics.Calendar) { ics.Encode(w, cal) }
	long := placeMap["VEVENT"].text("SUMMARY;LANGUAGE=" + strings.Repeat("l", 70000) + ":" + strings.Repeat("é\\,", 70000))
	deeds = []deed{
		{"decode a long text", func() { dec(strings.NewReader(long)) }},
		{"decode octet by octet", func() {
			dec(&schedReader{data: []byte(emit(rich()).text()), fail: -1, next: func(int) int { return 1 }})
		}},
		{"decode deep nesting", func() {
			dec(strings.NewReader(placeMap["VEVENT"].text(strings.Repeat("BEGIN:X\r\n", 5000) + strings.Repeat("END:X\r\n", 5000) + "X:y")))
		}},
		{"decode unclosed nesting", func() { dec(strings.NewReader(placeMap["VEVENT"].text(strings.Repeat("BEGIN:X\r\n", 5000)))) }},
		{"decode garbage", func() { dec(strings.NewReader(strings.Repeat("\x00\xff;:\"", 1000))) }},
		{"decode from a failing reader", func() {
			t := emit(rich()).text()
			for i := 0; i < len(t); i += 37 {
				dec(&schedReader{data: []byte(t), fail: i, err: io.ErrClosedPipe, with: i%2 == 0})
			}
		}},
		{"decode truncated data", func() {
			t := emit(rich()).text()
			for i := 0; i < len(t); i += 41 {
				dec(strings.NewReader(t[:i]))
			}
		}},
		{"decode every zone", func() {
			for _, z := range databaseZones {
				dec(strings.NewReader(placeMap["VEVENT.DTSTART"].text("DTSTART;TZID=" + z + ":20200101T000000")))
			}
		}},
		{"decode unknown zones", func() {
			for i := 0; i < 500; i++ {
				dec(strings.NewReader(placeMap["VEVENT.DTSTART"].text(fmt.Sprintf("DTSTART;TZID=America/New_York%d:20200101T000000", i))))
			}
		}},
		{"decode a thousand calendars", func() {
			for i := 0; i < 1000; i++ {
				dec(strings.NewReader(placeMap["VEVENT"].text("CATEGORIES:" + numbered(i) + ",b\r\nATTENDEE;CN=" + numbered(i) + ";MEMBER=\"x\":mailto:" + numbered(i))))
			}
		}},
		{"decode all keywords", func() { dec(strings.NewReader(emit(rich()).text())) }},
		{"encode a rich calendar", func() { enc(io.Discard, rich()) }},
		{"encode a thousand events", func() { enc(io.Discard, sizeKinds["components"][0].Obj(1000)) }},
		{"encode a thousand calendars", func() {
			for i := 0; i < 1000; i++ {
				enc(io.Discard, placeMap["VEVENT.CATEGORIES"].object(placeMap["VEVENT.CATEGORIES"].valued(vMText, reflect.ValueOf(ics.MText{ics.Text(numbered(i)), "b"}))))
			}
		}},
		{"encode invalid calendars", func() {
			for _, p := range places {
				for _, b := range badPropAlts(p.U.Prop) {
					enc(io.Discard, p.object(b))
				}
			}
		}},
		{"encode to failing writers", func() {
			cal := rich()
			for i := 0; i < 200; i++ {
				enc(&faultWriter{at: i, n: i % 3, err: errors.New("full")}, cal)
			}
		}},
		{"encode long values", func() {
			for _, k := range sizeKinds["texts"] {
				enc(io.Discard, k.Obj(min(k.Max, 5000)))
			}
		}},
	}
}

// aftermath: each call gives its usual result after one or two unusual ones.
func aftermath(c *Ctx, n int) {
	var names []string
	for i := 0; i < n; i++ {
		k := c.Choose(len(deeds))
		deeds[k].run()
		c.traces++
		names = append(names, deeds[k].name)
	}
	for _, o := range ops {
		c.traces++
		if got := o.run(); got != o.want {
			c.Fail("result depends on earlier calls: "+o.name, "after %v\nfirst:\n%s\nnow:\n%s", names, o.want, got)
			return
		}
		if d := sharedDiff(); d != "" {
			c.Fail("shared calendar changed", "after %v and %s\n%s", names, o.name, d)
			return
		}
	}
	c.Outcome(names...)
	c.Note("%v", names)
}
