package main

import (
	"reflect"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Values that stand in a relation to one another: before, at and after the
// same moment in every form, equal and different texts, every keyword.

var (
	telling     = map[valKind][]reflect.Value{}
	tellingUses = map[*propSpec][]reflect.Value{}
)

// fillTelling needs the focuses.
func fillTelling() {
	utc := dt(1997, 7, 14, 17, 0, 0, time.UTC) // the moment of the default values
	telling[vDateTime] = rvs(ics.DateTime{Time: utc}, ics.DateTime{Time: utc.Add(-time.Hour)}, ics.DateTime{Time: utc.Add(24 * time.Hour)}, ics.DateTime{Time: dt(1997, 7, 14, 17, 0, 0, ny)}, ics.DateTime{Time: dt(1997, 7, 14, 17, 0, 0, time.Local)}, ics.DateTime{Time: dt(1997, 7, 14, 0, 0, 0, time.UTC)})
	telling[vDate] = rvs(ics.Date{Time: dt(1997, 7, 14, 0, 0, 0, time.UTC)}, ics.Date{Time: dt(1997, 7, 13, 0, 0, 0, time.UTC)}, ics.Date{Time: dt(1997, 7, 15, 0, 0, 0, time.UTC)})
	telling[vDuration] = rvs(ics.Duration{Hours: 1}, ics.Duration{}, ics.Duration{Negative: true, Hours: 1}, ics.Duration{Weeks: 1}, ics.Duration{Days: 1})
	telling[vInteger] = rvs(ics.Integer(0), ics.Integer(1), ics.Integer(9), ics.Integer(10), ics.Integer(50), ics.Integer(99), ics.Integer(100), ics.Integer(-1))
	telling[vText] = rvs(ics.Text("x"), ics.Text(""), ics.Text("y"), ics.Text("a,b"))
	telling[vMText] = rvs(ics.MText{"x"}, ics.MText{"x", "y"}, ics.MText{"y"})
	telling[vURI] = rvs(ics.URI{URL: mustURL("http://example.com/a")}, ics.URI{URL: mustURL("mailto:a@example.com")}, ics.URI{URL: mustURL("cid:a")})
	telling[vCalAddr] = rvs(ics.CalendarAddress{URL: mustURL("mailto:a@example.com")}, ics.CalendarAddress{URL: mustURL("MAILTO:b@example.com")})
	telling[vTFloat] = rvs(ics.TFloat{1, 2}, ics.TFloat{0, 0})
	telling[vUTCOffset] = rvs(ics.UTCOffset(0), ics.UTCOffset(3600), ics.UTCOffset(-3600), ics.UTCOffset(3601))
	telling[vBinary] = rvs(ics.Binary("abc"), ics.Binary{})
	telling[vBoolean] = valAlts[vBoolean]
	telling[vPeriod] = rvs(
		ics.Period{Start: ics.DateTime{Time: utc}, Duration: ics.Duration{Hours: 1}},
		ics.Period{Start: ics.DateTime{Time: utc}, End: ics.DateTime{Time: utc.Add(time.Hour)}},
		ics.Period{Start: ics.DateTime{Time: utc.Add(-time.Hour)}, End: ics.DateTime{Time: utc}})
	telling[vRecur] = rvs(
		ics.Recur{Frequency: ics.Daily}, ics.Recur{Frequency: ics.Weekly, Count: 1}, ics.Recur{Frequency: ics.Hourly, Interval: 2},
		ics.Recur{Frequency: ics.Daily, Until: dt(1997, 7, 14, 0, 0, 0, time.UTC)},
		ics.Recur{Frequency: ics.Daily, Until: utc, UntilTime: true},
		ics.Recur{Frequency: ics.Daily, Until: utc.Add(-time.Hour), UntilTime: true},
		ics.Recur{Frequency: ics.Yearly, Until: dt(1997, 7, 14, 17, 0, 0, time.Local), UntilTime: true, ByMonth: []ics.Month{7}})
	for _, f := range focuses {
		for i := range f.Spec.Props {
			tellingAlts(f.Spec.Props[i].Prop)
		}
	}
}

func tellingAlts(ps *propSpec) []reflect.Value {
	if a, ok := tellingUses[ps]; ok {
		return a
	}
	var out []reflect.Value
	for _, k := range ps.Kinds {
		if k == vEnum {
			for i := range ps.Words {
				v := reflect.New(ps.Type).Elem()
				v.SetUint(uint64(i))
				out = append(out, v)
			}
			continue
		}
		for _, g := range telling[k] {
			v := reflect.New(ps.Type).Elem()
			setValue(ps, v, k, g)
			out = append(out, v)
		}
	}
	for _, q := range ps.Params {
		for i, a := range paramAlts(q) {
			if i < 2 || q.Kind == pEnum {
				v := clone(propDefault(ps))
				v.FieldByName(q.Field).Set(a)
				out = append(out, v)
			}
		}
	}
	tellingUses[ps] = out
	return out
}

// related: every two properties of every kind of component with every two of
// the telling values; a repeatable property also with itself.
func related(c *Ctx, fs []focus) *ics.Calendar {
	f := fs[c.Choose(len(fs))]
	if len(f.Spec.Props) == 0 {
		c.Skip()
	}
	a := &f.Spec.Props[c.Choose(len(f.Spec.Props))]
	b := &f.Spec.Props[c.Choose(len(f.Spec.Props))]
	if b.Field < a.Field || a == b && a.Card != cardMany {
		c.Skip()
	}
	as, bs := tellingAlts(a.Prop), tellingAlts(b.Prop)
	x := as[c.Choose(len(as))]
	y := bs[c.Choose(len(bs))]
	cal := focused(nil, f, genOpts{noDev: true})
	comp := locate(cal, f)
	if a == b {
		setProp(comp, a, x, y)
	} else {
		setProp(comp, a, x)
		setProp(comp, b, y)
	}
	company(f.Spec, comp, a)
	company(f.Spec, comp, b)
	return cal
}

// company sets what a property cannot do without.
func company(s *compSpec, comp reflect.Value, u *propUse) {
	for _, r := range s.Rules {
		other := ""
		switch {
		case (r.Kind == ruleNeed || r.Kind == ruleBoth) && r.A == u.Name:
			other = r.B
		case r.Kind == ruleBoth && r.B == u.Name:
			other = r.A
		}
		if o := s.prop(other); other != "" && comp.FieldByName(o.Field).IsZero() {
			setProp(comp, o, propDefault(o.Prop))
		}
	}
}

// across: two properties of different components with every two of the telling
// values: of a component and its alarm, the calendar and a component, and two
// components beside each other.
func across(c *Ctx, fs []focus, n int) *ics.Calendar {
	pick := func(s *compSpec, v reflect.Value, n int) {
		if len(s.Props) == 0 {
			c.Skip()
		}
		u := &s.Props[c.Choose(len(s.Props))]
		as := tellingAlts(u.Prop)
		if len(as) > n {
			as = as[:n]
		}
		setProp(v, u, as[c.Choose(len(as))])
		company(s, v, u)
	}
	f := fs[c.Choose(len(fs))]
	cal := focused(nil, f, genOpts{noDev: true})
	cv := reflect.ValueOf(cal).Elem()
	switch {
	case f.Path == "VCALENDAR":
		// beside each other
		tops := []string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE"}
		for i := 0; i < 2; i++ {
			s := comps[tops[c.Choose(len(tops))]]
			e := reflect.New(s.Type).Elem()
			fill(nil, s, e, genOpts{noDev: true})
			pick(s, e, n)
			l := cv.FieldByName(s.Go)
			l.Set(reflect.Append(l, e))
		}
	case f.Spec.Action != "":
		host := comps[strings.SplitN(f.Path, "/", 2)[0]]
		pick(host, cv.FieldByName(host.Go).Index(0), 100)
		pick(f.Spec, locate(cal, f), 100)
	case f.Path == "STANDARD" || f.Path == "DAYLIGHT":
		pick(comps["VTIMEZONE"], cv.FieldByName("Timezone").Index(0), 100)
		pick(f.Spec, locate(cal, f), 100)
	default:
		pick(calSpec, cv, 100)
		pick(f.Spec, locate(cal, f), 100)
	}
	return cal
}

// present: every set of up to max properties of every kind of component, each
// with its default value.
func present(c *Ctx, max int) *ics.Calendar {
	f := focuses[c.Choose(len(focuses))]
	cal := focused(nil, f, genOpts{noDev: true})
	comp := locate(cal, f)
	last := -1
	for i := 0; i < max && last+1 < len(f.Spec.Props); i++ {
		n := c.Choose(len(f.Spec.Props) - last)
		if n == 0 {
			break
		}
		last += n
		u := &f.Spec.Props[last]
		setProp(comp, u, propDefault(u.Prop))
		company(f.Spec, comp, u)
	}
	return cal
}

// badCompany: an invalid value of every property with every two other
// properties present.
func badCompany(c *Ctx, most int) {
	f := focuses[c.Choose(len(focuses))]
	if len(f.Spec.Props) == 0 {
		c.Skip()
	}
	u := &f.Spec.Props[c.Choose(len(f.Spec.Props))]
	bad := badPropAlts(u.Prop)
	if len(bad) > most {
		// the ends of the list differ the most
		bad = append(append([]reflect.Value(nil), bad[:most/2]...), bad[len(bad)-most/2:]...)
	}
	if len(bad) == 0 {
		c.Skip()
	}
	x := bad[c.Choose(len(bad))]
	cal := focused(nil, f, genOpts{noDev: true})
	comp := locate(cal, f)
	last := -1
	for i := 0; i < 2 && last+1 < len(f.Spec.Props); i++ {
		n := c.Choose(len(f.Spec.Props) - last)
		if n == 0 {
			break
		}
		last += n
		if o := &f.Spec.Props[last]; o != u {
			setProp(comp, o, propDefault(o.Prop))
			company(f.Spec, comp, o)
		}
	}
	setProp(comp, u, x)
	company(f.Spec, comp, u)
	refusedAmong(c, cal)
}

// onText has the reference rendering of a calendar judged as a text.
func onText(c *Ctx, cal *ics.Calendar) {
	c.judge("related", emit(cal).text())
}

// ---------------------------------------------------------------------------
// Texts of the kind found in real calendars

var sayings = []string{
	"en", "en_GB", "EN-us", "zh-Hant-TW", "i-klingon", "C", "de_DE.UTF-8@euro",
	"text/plain", "Text/HTML", "charset=utf-8",
	"http://example.com/", "HTTPS://Example.COM/?b=", "://=", "mailto:a@example.com", "MAILTO:", "tel:+1-23", "urn:uuid:", "file:///C:/a", "a@example.com", "<a@example.com>", "www.example.com",
	"&amp;", "&lt;b&gt;", "&#10;", "%20", "%0A", "%2C", "+", "<p>a</p>", "<br>", "=?utf-8?Q?a?=", "=0D=0A",
	"C:\\new\\n", "\\\\server\\name", "\\n", "\\N", "\\,", "\\;", "\\\"", "\\t", "\\u00e9", "\\x41", "^n", "^^", "^'", "\\:",
	"a,b,c", "a;b;c", "a: b", "a=b", "\"quoted\"", "'quoted'", "“quoted”", "it's", "(a)", "[a]", "{a}", "a|b", "~", "`a`", "#1", "$1", "100%", "*a*", "_a_", "!", "?",
	"é", "e\u0301", "ß", "ẞ", "İ", "ı", "ſ", "K", "日本", "한국", "\U0001F468\u200d\U0001F469", "\u202eabc", "\u200b", "\ufeff", "\u00a0", "\u00ad", "\u2028", "\u2029", "\u0085",
	"TRUE", "false", "null", "nil", "NaN", "0", "007", "-1", "1e5", "0x10", "1.50", "١٢",
	"20200101", "20200101T000000Z", "PT1H", "P1D", "+0100",
	"BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR", "VALUE=DATE", "X-A;B=C:d",
	"  ", " a", "a ", "\ta", "a\tb", "\n", "\n\n", "\na", "a\nb", "a\n b", "...", "--", "-- \n", "//", "/", "\\", ",", ";", ":", "=", "\"", "^", "'",
}

var joints = []string{"", ",", ";", "=", "\n", " ", "\\", ":"}

// saidText: a saying, or two of them joined, as a text value, as a member of a
// list, and as it is in the text of a calendar.
func saidText(c *Ctx) {
	s := sayings[c.Choose(len(sayings))]
	if c.Bool() {
		s += joints[c.Choose(len(joints))] + sayings[c.Choose(len(sayings))]
	}
	if n := c.Choose(4); n < 2 {
		p := placeMap[[]string{"VEVENT.SUMMARY", "VEVENT.UID"}[n]]
		v := clone(propDefault(p.U.Prop))
		setValue(p.U.Prop, v, vText, reflect.ValueOf(ics.Text(s)))
		checkObject(c, p.object(v))
	} else if n == 2 {
		p := placeMap["VEVENT.CATEGORIES"]
		v := clone(propDefault(p.U.Prop))
		setValue(p.U.Prop, v, vMText, reflect.ValueOf(ics.MText{ics.Text(s), "a"}))
		checkObject(c, p.object(v))
	} else {
		if strings.Contains(s, "\n") {
			c.Skip()
		}
		c.judge("saying", placeMap["VEVENT.COMMENT"].text("COMMENT:"+s))
	}
}

// saidEverywhere: every saying in every text property, as a value and as it
// is.
func saidEverywhere(c *Ctx) {
	ps := append(textPlaces(), placesFor(vMText)...)
	p := ps[c.Choose(len(ps))]
	s := sayings[c.Choose(len(sayings))]
	if c.Bool() {
		if strings.Contains(s, "\n") {
			c.Skip()
		}
		c.judge("saying", p.text(p.U.Name+":"+s))
		return
	}
	v := clone(propDefault(p.U.Prop))
	if p.U.Prop.Kinds[0] == vMText {
		setValue(p.U.Prop, v, vMText, reflect.ValueOf(ics.MText{"a", ics.Text(s)}))
	} else {
		setValue(p.U.Prop, v, vText, reflect.ValueOf(ics.Text(s)))
	}
	checkObject(c, p.object(v))
}

// saidParam: a saying, or two of them joined, in parameters.
func saidParam(c *Ctx) {
	at := placeMap["VEVENT.ATTENDEE"]
	q := at.U.Prop.param([]string{"CN", "LANGUAGE", "MEMBER"}[c.Choose(3)])
	s := sayings[c.Choose(len(sayings))]
	if c.Bool() {
		s += joints[c.Choose(len(joints))] + sayings[c.Choose(len(sayings))]
	}
	saidIn(c, paramPlace{at, q}, s)
}

func saidParamEverywhere(c *Ctx) {
	pp := paramPlaces(pText, pQText, pQTextL)
	saidIn(c, pp[c.Choose(len(pp))], sayings[c.Choose(len(sayings))])
}

func saidIn(c *Ctx, at paramPlace, s string) {
	p, q := at.P, at.Q
	if c.Bool() {
		if strings.ContainsAny(s, "\n\"") {
			c.Skip()
		}
		k := p.U.Prop.Kinds[0]
		c.judge("saying", p.text(p.head(k)+";"+q.Name+"=\""+s+"\":"+defaultText(k)))
		return
	}
	v := clone(propDefault(p.U.Prop))
	setParamText(v, q, s)
	checkObject(c, p.object(v))
}

// ---------------------------------------------------------------------------
// Runs of one or two characters

var runUnits = []string{"\n", "\\", ",", ";", ":", "\"", "^", "'", "=", " ", "\t", "a", "é", "日", "\U0001F600", "\\n", "^n", "\n\n ", ",;", "\\,", "\n,", "a,", "a\n", "\"^", "^'", "-", "/", ".", "n", "N"}

func runText(c *Ctx, max int) string {
	u := runUnits[c.Choose(len(runUnits))]
	n := 1 + c.Choose(max)
	ends := []string{"", "a"}
	return ends[c.Choose(2)] + strings.Repeat(u, n) + ends[c.Choose(2)]
}

func runsInText(c *Ctx, max int) {
	s := runText(c, max)
	p := placeMap[[]string{"VEVENT.SUMMARY", "VEVENT.CATEGORIES"}[c.Choose(2)]]
	v := clone(propDefault(p.U.Prop))
	if p.U.Prop.Kinds[0] == vMText {
		setValue(p.U.Prop, v, vMText, reflect.ValueOf(ics.MText{"a", ics.Text(s), "b"}))
	} else {
		setValue(p.U.Prop, v, vText, reflect.ValueOf(ics.Text(s)))
	}
	checkObject(c, p.object(v))
}

func runsInParams(c *Ctx, max int) {
	s := runText(c, max)
	at := placeMap["VEVENT.ATTENDEE"]
	q := at.U.Prop.param([]string{"CN", "MEMBER"}[c.Choose(2)])
	saidIn(c, paramPlace{at, q}, s)
}

func alarmFocuses() (fs []focus) {
	for _, f := range focuses {
		if f.Spec.Action != "" {
			fs = append(fs, f)
		}
	}
	return
}

// ---------------------------------------------------------------------------
// C15: processes in other zones

// localSuites repeats what depends on the zone of the process in a zone with
// daylight saving, and where the local zone is UTC but not the UTC zone.
func localSuites(t bool) (ss []*suite) {
	for _, tz := range []string{"America/New_York", "UTC"} {
		ss = append(ss,
			&suite{Name: "fields in " + tz, About: "products of boundary fields in every form and zone, the process running in " + tz, TZ: tz, Run: func(c *Ctx) { timeFields(c, placeMap["VEVENT.DTSTART"], vDateTime, t) }},
			&suite{Name: "objects in " + tz, About: "boundary instants in every zone, the process running in " + tz, TZ: tz, Run: func(c *Ctx) { timeObjects(c, t) }},
			&suite{Name: "local hours in " + tz, About: "every hour of three years of floating times, the process running in " + tz, TZ: tz, Run: localHours},
			&suite{Name: "alternatives in " + tz, Bound: 1, About: "every value of every property, the process running in " + tz, TZ: tz, Run: func(c *Ctx) {
				f := focuses[c.Choose(len(focuses))]
				checkObject(c, focused(c, f, genOpts{lvl: 2, bad: true, max: 1}))
			}},
			&suite{Name: "related in " + tz, About: "every two properties of every component with every two of the values that stand in a relation, the process running in " + tz, TZ: tz, Run: func(c *Ctx) { with(c, related(c, focuses), checkObject) }},
		)
	}
	return
}

// localHours: a floating time as text and object.
func localHours(c *Ctx) {
	y := []int{2023, 1987, 2007}[c.Choose(3)]
	t := time.Date(y, 1, 1+c.Choose(366), c.Choose(24), []int{0, 30}[c.Choose(2)], 0, 0, time.UTC)
	s := t.Format("20060102T150405")
	if c.Bool() {
		c.judge("floating time", placeMap["VEVENT.DTSTART"].text("DTSTART:"+s))
		return
	}
	p := placeMap["VEVENT.DTSTART"]
	l := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), 0, 0, time.Local)
	checkObject(c, p.object(p.valued(vDateTime, reflect.ValueOf(ics.DateTime{Time: l}))))
}

// ---------------------------------------------------------------------------
// C20: one value after another

// told is the outcome of decoding a text, as a text.
func (c *Ctx) told(text string) string {
	cal, err, _ := c.decode(text)
	if err != nil {
		return "an error"
	}
	if cal == nil {
		return "nothing"
	}
	return dump(cal)
}

// successive: every property with one value, then with another, then with the
// first again.
func successive(c *Ctx) {
	p := places[c.Choose(len(places))]
	alts := propAlts(p.U.Prop, 1)
	a := alts[c.Choose(len(alts))]
	b := alts[c.Choose(len(alts))]
	if c.Bool() {
		l, m := emitProp(p.U, a), emitProp(p.U, b)
		if c.Bool() {
			m.Value = "\x02"
		}
		ta, tb := p.text(l.String()), p.text(m.String())
		was := c.told(ta)
		c.told(tb)
		if now := c.told(ta); now != was {
			c.Fail("result depends on earlier calls", "%q\nafter %q\nfirst:\n%s\nnow:\n%s", ta, tb, was, now)
		}
		c.Outcome(was)
		return
	}
	ca, cb := p.object(a), p.object(b)
	out, err, _ := c.encode(ca)
	c.encode(cb)
	if now, err2, _ := c.encode(ca); err == nil && now != out || (err == nil) != (err2 == nil) {
		c.Fail("output depends on earlier calls", "after %s\nfirst: %q %v\nnow: %q %v", dump(cb), out, err, now, err2)
	}
	c.Outcome(out)
}

// ---------------------------------------------------------------------------
// C22: unknown parameters of every size on every property

var unknownSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 50, 63, 64, 65, 75, 76, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1026}

func unknownAmounts(c *Ctx) {
	p := places[c.Choose(len(places))]
	n := unknownSizes[c.Choose(len(unknownSizes))]
	l := emitProp(p.U, propDefault(p.U.Prop))
	s := l.String()
	i := len(l.Name)
	if c.Bool() { // after the parameters it has
		i = len(s) - len(l.Value) - 1
	}
	var x string
	switch c.Choose(5) {
	case 0:
		for k := 0; k < n; k++ {
			x += ";X-" + numbered(k)[:1] + string(rune('A'+k%26)) + strings.Repeat("K", k/26) + "=1"
		}
	case 1:
		x = ";X-A=1" + strings.Repeat(",2", n)
	case 2:
		x = ";X-" + strings.Repeat("A", n) + "=1"
	case 3:
		x = ";X-A=" + strings.Repeat("v", n)
	default:
		x = ";X-A=\"" + strings.Repeat(":", n) + "\""
	}
	c.judge("unknown parameters", p.text(s[:i]+x+s[i:]))
}

// unknownNames: unknown properties and components with names of every size.
func unknownNames(c *Ctx) {
	f := focuses[c.Choose(len(focuses))]
	n := unknownSizes[c.Choose(len(unknownSizes))]
	if len(f.Spec.Props) == 0 {
		c.Skip()
	}
	p := placeMap[f.Path+"."+f.Spec.Props[0].Name]
	if p == nil {
		c.Skip()
	}
	l := emitProp(p.U, propDefault(p.U.Prop))
	s := l.String()
	name := "X-" + strings.Repeat("A", n)
	switch c.Choose(4) {
	case 0:
		s += "\r\n" + name + ":v"
	case 1:
		s = name + ";A=b:v\r\n" + s
	case 2:
		s += "\r\nBEGIN:" + name + "\r\nUID:x\r\nEND:" + name
	default:
		s = "X-A:" + strings.Repeat("v", n) + "\r\n" + s
	}
	c.judge("unknown names", p.text(s))
}

// ---------------------------------------------------------------------------
// Lengths and counts in every property

func lengthened(c *Ctx) string {
	n := unknownSizes[c.Choose(len(unknownSizes))]
	switch c.Choose(4) {
	case 0:
		return strings.Repeat("a", n)
	case 1:
		return strings.Repeat("é", (n+1)/2)
	case 2:
		return strings.Repeat("ab cd, ", n/7) + "wxyz1;2"[:n%7]
	}
	s := strings.Repeat("a ", n)[:n]
	return s[:n-1] + "\n"
}

// lengthsInText: texts and items of every length in every property of text.
func lengthsInText(c *Ctx) {
	ps := append(textPlaces(), placesFor(vMText)...)
	p := ps[c.Choose(len(ps))]
	s := lengthened(c)
	if p.U.Prop.Kinds[0] == vMText {
		checkObject(c, p.object(p.valued(vMText, reflect.ValueOf(ics.MText{"x", ics.Text(s), "y"}))))
		return
	}
	checkObject(c, p.object(p.valued(vText, reflect.ValueOf(ics.Text(s)))))
}

// lengthsInParams: the same in every parameter of text.
func lengthsInParams(c *Ctx) {
	pp := paramPlaces(pText, pQText, pQTextL)
	q := pp[c.Choose(len(pp))]
	v := clone(propDefault(q.P.U.Prop))
	s := []string{lengthened(c)}
	if q.Q.Kind == pQTextL && c.Bool() { // as many items
		n := len(s[0])
		s = nil
		for i := 0; i < n && i < 300; i++ {
			s = append(s, "mailto:"+numbered(i))
		}
	}
	setParamText(v, q.Q, s...)
	checkObject(c, q.P.object(v))
}

// lengthsInValues: addresses, links and data of every length.
func lengthsInValues(c *Ctx) {
	k := []valKind{vURI, vCalAddr, vBinary}[c.Choose(3)]
	ps := placesFor(k)
	p := ps[c.Choose(len(ps))]
	n := unknownSizes[c.Choose(len(unknownSizes))]
	s := strings.Repeat("a", n)
	var v reflect.Value
	switch k {
	case vURI:
		v = reflect.ValueOf(ics.URI{URL: mustURL([]string{"http://example.com/" + s, "http://example.com/?" + s, "http://example.com/#" + s, "http://" + s + ".com/", "a" + s + ":b"}[c.Choose(5)])})
	case vCalAddr:
		v = reflect.ValueOf(ics.CalendarAddress{URL: mustURL([]string{"mailto:" + s + "@example.com", "mailto:a@" + s + ".com", "http://example.com/" + s}[c.Choose(3)])})
	default:
		v = reflect.ValueOf(ics.Binary(s))
	}
	checkObject(c, p.object(p.valued(k, v)))
}

// countsOfLines: every repeatable property that many times.
func countsOfLines(c *Ctx) {
	p := places[c.Choose(len(places))]
	if p.U.Card != cardMany {
		c.Skip()
	}
	n := unknownSizes[c.Choose(len(unknownSizes))]
	alts, _ := genOpts{lvl: 1}.alts(p.U.Prop)
	vals := make([]reflect.Value, n)
	for i := range vals {
		vals[i] = alts[i*i%len(alts)]
	}
	with(c, p.object(vals...), checkObject)
}

// ---------------------------------------------------------------------------
// Components of one kind side by side

// brothers is the list that holds the component.
func brothers(cal *ics.Calendar, f focus) reflect.Value {
	v := reflect.ValueOf(cal).Elem()
	switch {
	case f.Path == "STANDARD" || f.Path == "DAYLIGHT":
		return v.FieldByName("Timezone").Index(0).FieldByName(f.Spec.Go)
	case f.Spec.Action != "":
		return v.FieldByName(comps[strings.SplitN(f.Path, "/", 2)[0]].Go).Index(0).FieldByName("Alarm")
	}
	return v.FieldByName(f.Spec.Go)
}

// siblings: two or three components of every kind, which differ in one
// property.
func siblings(c *Ctx) *ics.Calendar {
	f := focuses[1+c.Choose(len(focuses)-1)]
	if len(f.Spec.Props) == 0 {
		c.Skip()
	}
	u := &f.Spec.Props[c.Choose(len(f.Spec.Props))]
	alts := tellingAlts(u.Prop)
	var cal *ics.Calendar
	vals := []reflect.Value{alts[c.Choose(len(alts))], alts[c.Choose(len(alts))]}
	if c.Bool() {
		vals = append(vals, vals[0])
	}
	for _, v := range vals {
		one := focused(nil, f, genOpts{noDev: true})
		comp := locate(one, f)
		setProp(comp, u, v)
		company(f.Spec, comp, u)
		if cal == nil {
			cal = one
			continue
		}
		l := brothers(cal, f)
		l.Set(reflect.AppendSlice(l, brothers(one, f)))
	}
	return cal
}
