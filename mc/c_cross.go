package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	"vimagination.zapto.org/ics"
)

// Judgements about the environment of a call (how data is read, folded, cut
// off or written, what surrounds it) applied to the texts and calendars of
// other properties' suites.

var (
	crossTexts = []string{
		"C09/balanced", "C10/permutations", "C10/repeats",
		"C11/two-texts", "C14/multiplicity", "C23/texts", "C12/sizes",
	}
	lightTexts = []string{
		"C11/keywords", "C11/property-in-component", "C11/spellings",
		"C13/raw-everywhere", "C14/raw-everywhere", "C15/zones", "C10/apart",
		"C18/sizes", "C22/sizes", "C18/uri-parts", "C09/names",
	}
	crossObjects = []string{
		"C13/texts-everywhere", "C14/values-everywhere", "C13/sizes", "C14/sizes", "C16/sizes",
		"C16/objects", "C11/inside", "C11/two-components", "C23/objects", "C01/equals",
	}
	lightObjects = []string{
		"C01/structure", "C13/code-points", "C18/sizes", "C10/sizes", "C18/binary-sizes",
		"C21/forms", "C23/lists", "C13/lengths", "C14/lengths",
	}
)

// cross borrows the suites above, the smaller ones only unless all are wanted.
func cross(t, all bool, text func(*Ctx, string), object func(*Ctx, *ics.Calendar)) []*suite {
	var names []string
	if text != nil {
		names = append(names, lightTexts...)
		if all {
			names = append(names, crossTexts...)
		}
	} else {
		text = noText
	}
	if object != nil {
		names = append(names, lightObjects...)
		if all {
			names = append(names, crossObjects...)
		}
	} else {
		object = noCal
	}
	return borrow(t, text, object, names...)
}

// with judges a calendar unless the suite is borrowed.
func with(c *Ctx, cal *ics.Calendar, f func(*Ctx, *ics.Calendar)) {
	if c.onCal != nil {
		f = c.onCal
	}
	f(c, cal)
}

// onEmitted turns a judgement of texts into one of calendars.
func onEmitted(f func(*Ctx, string)) func(*Ctx, *ics.Calendar) {
	return func(c *Ctx, cal *ics.Calendar) {
		if v, _ := refValid(cal); v != accept {
			c.Skip()
		}
		f(c, emit(cal).text())
	}
}

// C04

func crossChunks(c *Ctx, text string) {
	want, ok := c.result(strings.NewReader(text))
	if !ok {
		return
	}
	k := 0
	for how, r := range []*schedReader{
		{next: func(int) int { return 1 }},
		{next: func(int) int { return 3 }, atEOF: true, dirty: true},
		{next: func(int) int { k++; return k % 6 }, dirty: true},
	} {
		r.data, r.fail = []byte(text), -1
		got, ok := c.result(r)
		if !ok {
			return
		}
		if !want.same(got) {
			c.Fail("result depends on chunking", "schedule %d\ntext: %q\nwhole:\n%s\nchunked:\n%s", how, clip(text, 1500), want, got)
			return
		}
	}
	c.Note("%q", clip(text, 300))
	c.Outcome(want.dump)
}

// C05

func crossFolds(c *Ctx, text string) {
	if strings.Contains(text, "\r\n ") || strings.Contains(text, "\r\n\t") {
		c.Skip()
	}
	if _, v, _ := refDecode(text); v == reject {
		c.Skip()
	}
	want, ok := c.result(strings.NewReader(text))
	if !ok {
		return
	}
	for w, ws := range []string{" ", "\t", " ", "\t", " "} {
		folded := strings.ReplaceAll(refFold(text, []int{1, 2, 3, 7, 74}[w]), "\r\n ", "\r\n"+ws)
		got, ok := c.result(strings.NewReader(folded))
		if !ok {
			return
		}
		if !want.same(got) {
			c.Fail("folds change content", "text: %q\nunfolded:\n%s\nfolded:\n%s", clip(folded, 1500), want, got)
			return
		}
	}
	c.Note("%q", clip(text, 300))
	c.Outcome(want.dump)
}

// foldRune: runs of one code point across a fold, in every alignment.
func foldRune(c *Ctx) {
	n := c.Choose(0x110000 / 64)
	for r := rune(n * 64); r < rune(n*64+64); r++ {
		if r >= 0xd800 && r < 0xe000 || r < 0x20 && r != '\t' && r != '\n' || r == 0x7f {
			continue
		}
		for k := 0; k < 4; k++ {
			p := placeMap["VEVENT.SUMMARY"]
			s := strings.Repeat("x", 46+k) + strings.Repeat(string(r), 30)
			cal := p.object(p.valued(vText, reflect.ValueOf(ics.Text(s))))
			out, err, pn := c.encode(cal)
			if pn {
				return
			}
			if err != nil {
				c.Fail("valid calendar refused", "%U: %v", r, err)
				return
			}
			foldLegal(c, out)
			if c.fail != nil {
				return
			}
			got, _, pn := c.decode(out)
			if pn {
				return
			}
			if got == nil || len(got.Event) != 1 || got.Event[0].Summary == nil || string(got.Event[0].Summary.Text) != s {
				c.Fail("folds change content", "%U: %q", r, out)
				return
			}
		}
	}
	c.Outcome(fmt.Sprint(n))
	c.Note("%U and the 63 code points after it", n*64)
}

// C06

func crossCuts(c *Ctx, text string) {
	end := strings.Index(strings.ToUpper(text), "END:VCALENDAR")
	if end < 0 || len(text) > 5000 {
		c.Skip()
	}
	if _, v, _ := refDecode(text); v != accept {
		c.Skip()
	}
	for i := 0; i <= end; i++ {
		if i > 0 && text[i-1] != '\n' && (i > 1 && text[i-2] != '\n') && (i == len(text) || text[i] != '\r') {
			continue
		}
		for _, r := range []io.Reader{strings.NewReader(text[:i]), &schedReader{data: []byte(text), fail: i, err: errRead, with: i > 0}} {
			res, ok := c.result(r)
			if !ok {
				return
			}
			if res.err == nil {
				c.Fail("calendar from incomplete data", "%T at %d of %d\ntext: %q\n%s", r, i, len(text), clip(text[:i], 2000), res.dump)
				return
			}
		}
	}
	c.Note("cut %q", clip(text, 300))
	c.Outcome(text)
}

// C07

func crossFaults(c *Ctx, cal *ics.Calendar) {
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	base := &faultWriter{at: 1 << 30}
	err, p := c.encodeTo(base, cal)
	if p {
		return
	}
	if err != nil {
		c.Fail("valid calendar refused", "%s: %v", dump(cal), err)
		return
	}
	full := base.got.String()
	for at, size := range base.sizes {
		if at > 300 && at < len(base.sizes)-30 { // long outputs: the first and last calls
			continue
		}
		for n := 0; n <= size; n += max(size, 1) {
			w := &faultWriter{at: at, n: n, err: errWrite}
			err, p := c.encodeTo(w, cal)
			if p {
				return
			}
			got := w.got.String()
			switch {
			case err != errWrite:
				c.Fail("writer's error not returned", "call %d, %d of %d bytes taken: returned %v\n%s", at, n, size, err, dump(cal))
			case w.after > 0:
				c.Fail("written to after failing", "call %d, %d of %d bytes taken: %d more calls\n%s", at, n, size, w.after, dump(cal))
			case !strings.HasPrefix(full, got):
				c.Fail("accepted bytes are not a prefix", "call %d: %q\nof %q", at, got, full)
			}
			if c.fail != nil {
				return
			}
		}
	}
	c.Outcome(full)
	c.Note("%d calls: %q", len(base.sizes), clip(full, 300))
}

// C19

// crossCase changes the case of all names at once.
func crossCase(c *Ctx, text string) {
	if strings.Contains(text, "\r\n ") || strings.Contains(text, "\r\n\t") {
		c.Skip()
	}
	if _, v, _ := refDecode(text); v != accept {
		c.Skip()
	}
	want, ok := c.result(strings.NewReader(text))
	if !ok {
		return
	}
	for how, f := range []func(string) string{strings.ToLower, strings.ToUpper, alternate, func(s string) string { return s[:1] + strings.ToLower(s[1:]) }} {
		var b strings.Builder
		for _, l := range strings.SplitAfter(text, "\r\n") {
			b.WriteString(recase(l, f))
		}
		got, ok := c.result(strings.NewReader(b.String()))
		if !ok {
			return
		}
		if !want.same(got) {
			c.Fail("case of names matters", "change %d\ntext: %q\nbefore:\n%s\nafter:\n%s", how, clip(b.String(), 1500), want, got)
			return
		}
	}
	c.Note("%q", clip(text, 300))
	c.Outcome(want.dump)
}

func alternate(s string) string {
	b := []byte(strings.ToUpper(s))
	for i := 1; i < len(b); i += 2 {
		b[i] = strings.ToLower(string(b[i]))[0]
	}
	return string(b)
}

// recase changes the names in a content line: of the property, its parameters
// and of a component.
func recase(l string, f func(string) string) string {
	i := strings.IndexAny(l, ";:")
	if i <= 0 {
		return l
	}
	name := l[:i]
	if u := strings.ToUpper(name); l[i] == ':' && (u == "BEGIN" || u == "END") && len(l) > i+3 {
		return f(name) + ":" + f(l[i+1:len(l)-2]) + "\r\n"
	}
	out := f(name)
	for l[i] == ';' {
		j := i + 1 + strings.IndexByte(l[i+1:], '=')
		out += ";" + f(l[i+1:j])
		q := false
		k := j
		for ; q || l[k] != ';' && l[k] != ':'; k++ {
			if l[k] == '"' {
				q = !q
			}
		}
		out += l[j:k]
		i = k
	}
	return out + l[i:]
}

// C22

// crossUnknown adds an unknown line after each line, and an unknown parameter
// to each property.
func crossUnknown(c *Ctx, text string) {
	if strings.Contains(text, "\r\n ") || strings.Contains(text, "\r\n\t") {
		c.Skip()
	}
	if _, v, _ := refDecode(text); v != accept {
		c.Skip()
	}
	want, ok := c.result(strings.NewReader(text))
	if !ok {
		return
	}
	ls := strings.SplitAfter(text, "\r\n")
	for how := 0; how < 4; how++ {
		var b strings.Builder
		for i, l := range ls {
			n := strings.IndexAny(l, ";:")
			u := ""
			if n > 0 {
				u = strings.ToUpper(l[:n])
			}
			switch {
			case n <= 0 || i+2 >= len(ls):
				b.WriteString(l)
			case how == 0:
				b.WriteString(l + "X-UNKNOWN;X-P=\"a:b\",c:d;e,\\\r\n")
			case how == 1:
				b.WriteString(l + "BEGIN:X-UNKNOWN\r\nUID:u\r\nACTION:u\r\nEND:X-UNKNOWN\r\n")
			case u == "BEGIN" || u == "END" || u == "VERSION":
				b.WriteString(l)
			case how == 2:
				b.WriteString(l[:n] + ";X-UNKNOWN=\"a:b\",c" + l[n:])
			default:
				// before the value
				k, q := n, false
				for ; q || l[k] != ':'; k++ {
					if l[k] == '"' {
						q = !q
					}
				}
				b.WriteString(l[:k] + ";UNKNOWN=;X-1=a" + l[k:])
			}
		}
		if how == 1 && strings.Contains(strings.ToUpper(text), "VALARM") {
			continue // components inside alarms are not judged
		}
		got, ok := c.result(strings.NewReader(b.String()))
		if !ok {
			return
		}
		if !want.same(got) {
			c.Fail("unknown addition matters", "addition %d\ntext: %q\nbefore:\n%s\nafter:\n%s", how, clip(b.String(), 1500), want, got)
			return
		}
	}
	c.Note("%q", clip(text, 300))
	c.Outcome(want.dump)
}

// C20

func crossIndependent(c *Ctx, text string) {
	if _, v, _ := refDecode(text); v != accept || len(text) > 20000 {
		c.Skip()
	}
	independent(c, text)
}

// ---------------------------------------------------------------------------
// C10: related lines far apart

func apart(c *Ctx) {
	// two lines of a component with n others between
	cases := [][3]string{
		{"VEVENT", "SUMMARY:a", "SUMMARY:b"},
		{"VEVENT", "PRIORITY:0", "PRIORITY:0"},
		{"VEVENT", "DTEND:20240301T000000Z", "DURATION:PT1H"},
		{"VEVENT", "DURATION:PT1H", "DTEND:20240301T000000Z"},
		{"VEVENT", "COMMENT:a", "COMMENT:b"},
		{"VEVENT", "UID:2", "COMMENT:b"},
		{"VTODO", "DUE:20240301T000000Z", "DURATION:PT1H"},
		{"VTODO", "DURATION:PT1H", "DTSTART:20240301T000000Z"},
		{"VJOURNAL", "DTSTART:20240301T000000Z", "DTSTART:20240302T000000Z"},
		{"VFREEBUSY", "CONTACT:a", "CONTACT:a"},
		{"VTIMEZONE", "TZURL:http://a", "TZURL:http://a"},
		{"STANDARD", "RRULE:FREQ=DAILY", "RRULE:FREQ=DAILY"},
		{"VEVENT/EMAIL", "DURATION:PT1H", "REPEAT:1"},
		{"VEVENT/EMAIL", "REPEAT:0", "REPEAT:1"},
		{"VEVENT/AUDIO", "REPEAT:0", "DURATION:PT1H"},
		{"VEVENT/DISPLAY", "DURATION:PT0S", "DURATION:PT1H"},
		{"VCALENDAR", "PRODID:y", "X:y"},
	}
	k := cases[c.Choose(len(cases))]
	between := []string{"X-A:b", "COMMENT:c"}[c.Choose(2)]
	if k[0] != "VEVENT" && k[0] != "VTODO" && k[0] != "VJOURNAL" {
		between = "X-A:b"
	}
	ns := sizesUpTo(1<<10 + 2)
	n := ns[c.Choose(len(ns))]
	b := []string{k[1]}
	if c.Bool() {
		b = nil // the second alone
	}
	for i := 0; i < n; i++ {
		b = append(b, between)
	}
	pre := ""
	if k[0] == "VEVENT" && strings.HasPrefix(k[1]+k[2], "D") {
		pre = "DTSTART:20240229T000000Z\r\n"
	}
	c.judge("apart", placeMap[k[0]].text(pre+strings.Join(append(b, k[2]), "\r\n")))
}

// ---------------------------------------------------------------------------
// C16: short lists with equal and unequal neighbours

func ruleLists(c *Ctx, maxLen int) {
	r := ics.Recur{Frequency: ics.Frequency([]int{6, 4}[c.Choose(2)])}
	f := reflect.ValueOf(&r).Elem()
	var lists []int
	for i := 0; i < f.NumField(); i++ {
		if f.Field(i).Kind() == reflect.Slice {
			lists = append(lists, i)
		}
	}
	l := f.Field(lists[c.Choose(len(lists))])
	for k := 0; k < maxLen; k++ {
		if k > 0 && c.Bool() {
			break
		}
		e := reflect.New(l.Type().Elem()).Elem()
		switch e.Kind() {
		case reflect.Struct:
			e.Set(reflect.ValueOf([]ics.DayRecur{{Day: ics.Sunday}, {Day: ics.Monday}, {Day: ics.Monday, Occurrence: 1}, {Day: ics.Monday, Occurrence: -1}, {Day: ics.Sunday, Occurrence: 1}}[c.Choose(5)]))
		case reflect.Uint8:
			e.SetUint(uint64([]int{1, 2, 3, 10, 12}[c.Choose(5)]))
		default:
			e.SetInt(int64([]int{1, -1, 2, 12, -12}[c.Choose(5)]))
		}
		l.Set(reflect.Append(l, e))
	}
	p := []*place{placeMap["VEVENT.RRULE"], placeMap["DAYLIGHT.RRULE"]}[c.Choose(2)]
	v := p.valued(vRecur, reflect.ValueOf(r))
	line := emitProp(p.U, v)
	c.judge("list", p.text(line.String()))
	if c.fail == nil {
		checkObject(c, p.object(v))
	}
}

// ---------------------------------------------------------------------------
// C15-C18: edits of good values

type editKind struct {
	Kind  valKind
	Place string
	Good  []string
	Alpha string
}

var editKinds = map[string][]editKind{
	"C15": {
		{vDateTime, "VEVENT.DTSTART", []string{"20240229T235959Z", "19971031T013000"}, "0139TZ-: "},
		{vDate, "VEVENT.DTSTART", []string{"20240229", "19991231"}, "01239TZ-/ ."},
		{vDateTime, "VEVENT/AUDIO.TRIGGER", []string{"20240229T235959Z"}, "029TZ "},
	},
	"C16": {
		{vRecur, "VEVENT.RRULE", []string{"FREQ=DAILY;COUNT=5", "FREQ=YEARLY;BYDAY=-1SU,2MO", "FREQ=DAILY;UNTIL=20240229"}, "0159,;=-+SMTDAYU "},
	},
	"C17": {
		{vDuration, "VEVENT.DURATION", []string{"PT1H2M3S", "-P1DT10H", "P2W", "+PT15M", "P1DT1H1M1S"}, "019PTWDHMS+-. "},
		{vDuration, "VEVENT/EMAIL.TRIGGER", []string{"-PT15M"}, "019PTWDHMS+-"},
		{vPeriod, "VFREEBUSY.FREEBUSY", []string{"19970101T180000Z/PT1H", "19970101T18Z/19970102T07Z"}, "017/PTZH-,"},
	},
	"C18": {
		{vUTCOffset, "STANDARD.TZOFFSETTO", []string{"+0530", "-083015", "+0000"}, "01369+-: Z"},
		{vInteger, "VEVENT.PRIORITY", []string{"5", "-12", "2147483647"}, "0189+-.xe_ "},
		{vTFloat, "VEVENT.GEO", []string{"1.5;-2.25", "37.386013;-122.082932"}, "0159.;,+-e "},
		{vURI, "VEVENT.URL", []string{"http://a.b/c?d#e", "mailto:a@b"}, "a:/?#%[]@ 1"},
		{vCalAddr, "VEVENT.ATTENDEE", []string{"mailto:a@b"}, "a:/?#%[]@ 1"},
		{vBinary, "VEVENT.ATTACH", []string{"QUJD", "QUI=", "QQ=="}, "AQw+/=- "},
	},
}

func valueEdits(c *Ctx, id string, two bool) {
	ks := editKinds[id]
	k := ks[c.Choose(len(ks))]
	s := k.Good[c.Choose(len(k.Good))]
	n := 2
	if !two && len(s) > 20 {
		n = 1
	}
	for i, from := 0, 0; i < n; i++ {
		// the second edit is not before the first
		at := from + c.Choose(len(s)+1-from)
		e := c.Choose(2*len(k.Alpha) + 2)
		switch {
		case e == 0 || at == len(s) && e > len(k.Alpha)+1:
			n = 0 // no further edit
		case e <= len(k.Alpha):
			s = s[:at] + k.Alpha[e-1:e] + s[at:]
			at++
		case e == len(k.Alpha)+1:
			s = s[:at] + s[min(at+1, len(s)):]
		default:
			e -= len(k.Alpha) + 2
			s = s[:at] + k.Alpha[e:e+1] + s[at+1:]
			at++
		}
		from = min(at, len(s))
	}
	p := placeMap[k.Place]
	h := p.head(k.Kind)
	if k.Kind == vBinary {
		h += ";ENCODING=BASE64"
	}
	c.judge("edited value", p.text(h+":"+s))
}

// pieces: every piece of a good value, and of two of them joined.
func pieces(c *Ctx, id string) {
	ks := editKinds[id]
	k := ks[c.Choose(len(ks))]
	s := k.Good[c.Choose(len(k.Good))]
	if n := c.Choose(len(k.Good) + 1); n > 0 {
		s += k.Good[n-1]
	}
	i := c.Choose(len(s) + 1)
	j := i + c.Choose(len(s)+1-i)
	p := placeMap[k.Place]
	h := p.head(k.Kind)
	if k.Kind == vBinary {
		h += ";ENCODING=BASE64"
	}
	if c.Bool() {
		c.judge("piece", p.text(h+":"+s[i:j]))
	} else {
		c.judge("piece taken out", p.text(h+":"+s[:i]+s[j:]))
	}
}

func editSuites(id string, t bool) []*suite {
	return []*suite{
		{Name: "edits", About: "every pair of edits (thorough: of long values too) of good values", Run: func(c *Ctx) { valueEdits(c, id, t) }},
		{Name: "pieces", About: "every piece of good values and of pairs of them", Run: func(c *Ctx) { pieces(c, id) }},
	}
}

// ---------------------------------------------------------------------------
// C23: distance and number

func fillAlarmSizes() {
	ev := func(name string, host string, f func(n int) string) sizeKind {
		return sizeKind{Name: name, Max: 1<<11 + 2, Text: func(n int) string { return placeMap[host].text(f(n)) }}
	}
	body := map[string]string{
		"AUDIO": "TRIGGER:-PT1H\r\n", "DISPLAY": "DESCRIPTION:d\r\nTRIGGER:-PT1H\r\n", "EMAIL": "DESCRIPTION:d\r\nTRIGGER:-PT1H\r\nSUMMARY:s\r\nATTENDEE:mailto:a@b\r\n",
		"URI": "URL:http://a\r\n", "NONE": "",
	}
	al := func(s string) string { return "BEGIN:VALARM\r\n" + s + "END:VALARM" }
	for _, host := range []string{"VEVENT", "VTODO"} {
		for _, act := range actions {
			b, ok := body[act]
			if !ok {
				panic("harness: no body for " + act)
			}
			x := func(n int) string { return strings.Repeat("X-A:b\r\n", n) }
			sizeKinds["alarms"] = append(sizeKinds["alarms"],
				ev(host+" lines before ACTION:"+act, host, func(n int) string { return al(b + x(n) + "ACTION:" + act + "\r\n") }),
				ev(host+" lines after ACTION:"+act, host, func(n int) string { return al("ACTION:" + act + "\r\n" + x(n) + b) }),
				ev(host+" lines between two of ACTION:"+act, host, func(n int) string {
					return al("ACTION:" + act + "\r\n" + x(n) + b + "ACTION:" + act + "\r\n")
				}),
				ev(host+" lines without ACTION:"+act, host, func(n int) string { return al(x(n) + b) }),
				ev(host+" alarms ACTION:"+act, host, func(n int) string {
					return strings.Repeat(al(b+"ACTION:"+act+"\r\n")+"\r\n", n) + "X:y"
				}),
			)
			if act == "AUDIO" || act == "EMAIL" {
				sizeKinds["alarms"] = append(sizeKinds["alarms"], ev(host+" attachments before ACTION:"+act, host, func(n int) string {
					return al(b + strings.Repeat("ATTACH:http://a\r\n", n) + "ACTION:" + act + "\r\n")
				}))
			}
		}
	}
}

func init() { lateSetups = append(lateSetups, fillAlarmSizes) }
