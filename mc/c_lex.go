package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// C12

var lineAlpha = []string{"A", ";", ":", "=", ",", "\""}
var lineWide = []string{"A", ";", ":", "=", ",", "\"", "1", "-", "_", " ", "\t", "\r", "\n", "\\", "é", "^", "\x00", "\x7f", "\r\n ", "\r\n"}
var lineTokens = []string{";LANGUAGE=", ";ALTREP=", ";X-A=", "\"", ",", ":", "a", ";", "=", "\t", "^"}

func freeLine(c *Ctx, alpha []string, max int) {
	c.judge("line", placeMap["VEVENT"].text(c.str(alpha, max)))
}

func paramTokens(c *Ctx, max int) {
	c.judge("parameters", placeMap["VEVENT.COMMENT"].text("COMMENT"+c.str(lineTokens, max)+":v"))
}

// oddByte: every byte value inserted or substituted at every position of a
// line with all kinds of tokens, in several surroundings.
func oddByte(c *Ctx) {
	lines := []string{
		"COMMENT;LANGUAGE=en;ALTREP=\"http://a/b\";X-A=b,\"c\":some text",
		"X-UNKNOWN;A=b;C=\"d\",e:value",
	}
	l := lines[c.Choose(len(lines))]
	homes := []string{"VEVENT", "VEVENT/DISPLAY", "VCALENDAR", "skipped", "STANDARD"}
	h := homes[c.Choose(len(homes))]
	b := byte(c.Choose(256))
	i := c.Choose(len(l) + 1)
	if c.Bool() && i < len(l) {
		l = l[:i] + string([]byte{b}) + l[i+1:]
	} else {
		l = l[:i] + string([]byte{b}) + l[i:]
	}
	if h == "skipped" {
		c.judge("byte", placeMap["VEVENT"].text("BEGIN:X-A\r\n"+l+"\r\nEND:X-A"))
		return
	}
	c.judge("byte", placeMap[h].text(l))
}

var malformed = []string{
	"", " ", "A", "A;", "A;B", "A;B=", "A;B=c", ";:", ":", "=:", "A B:c", "A;B=\"c:d", "A;B=\"c\"d:e", "A;B=c\"d\":e", "A;=c:d", "A;B:c", "A;B=c;:d", "A;;B=c:d", "A=b", "é:x", "A_B:c", "A,B:c", "\"A\":b", "A;B=c,;D=e:f", "A:\x00", "A:\x7f", "A;B=\x01:c", "A;B=\"\x1f\":c", "A:b\rc", "A:b\nc", "A:b\r", "\tA:b", "A;B =c:d", "A ;B=c:d", "A;B=c :d", "A;B=\"\":c", "A;B=,,:c", "A;B=c\x0b:d",
	"BEGIN", "END", "BEGIN;", "END;X=:", "A;\"B\"=c:d", "A;B==c:d", "A;B=c=d:e", "A;B=c\\:d",
}

// malformedAnywhere: every malformed line at every line position.
func malformedAnywhere(c *Ctx) {
	ls := emit(rich()).logical(nil)
	i := c.Choose(len(ls) + 1)
	m := malformed[c.Choose(len(malformed))]
	c.judge("malformed line", joinLines(append(append(append([]string(nil), ls[:i]...), m), ls[i:]...)))
}

// ---------------------------------------------------------------------------
// C13

var textAlpha = []string{"\\", ",", ";", "\n", "n", "N", "a", "\"", ":", "é", "日", "\t", " ", "\r"}
var rawAlpha = []string{"\\", ",", ";", "n", "N", "a", "\"", ":", " ", "é"}

func textPlaces() []*place { return placesFor(vText) }

func textObject(c *Ctx, p *place, alpha []string, max int) {
	s := c.str(alpha, max)
	checkObject(c, p.object(p.valued(vText, reflect.ValueOf(ics.Text(s)))))
}

func textList(c *Ctx, p *place, alpha []string, elems, max int) {
	var l ics.MText
	for k := 0; k < elems; k++ {
		if k > 0 && c.Bool() {
			break
		}
		l = append(l, ics.Text(c.str(alpha, max)))
	}
	checkObject(c, p.object(p.valued(vMText, reflect.ValueOf(l))))
}

// runeBlocks: every code point, 64 to a text, as values and in parameters.
func runeBlocks(c *Ctx, single int) {
	n := c.Choose(single + (0x110000-single)/64)
	var b strings.Builder
	if n < single {
		fmt.Fprintf(&b, "a%cb", rune(n))
	} else {
		base := single + (n-single)*64
		for r := base; r < base+64; r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			b.WriteRune(rune(r))
		}
	}
	if n >= 0xd800 && n < 0xe000 && n < single {
		c.Skip()
	}
	p := placeMap["VEVENT.SUMMARY"]
	v := p.valued(vText, reflect.ValueOf(ics.Text(b.String())))
	if c.Bool() {
		q := p.U.Prop.param("LANGUAGE")
		setParamText(v, q, b.String())
	}
	checkObject(c, p.object(v))
}

// ---------------------------------------------------------------------------
// C14

func setParamText(v reflect.Value, q *paramSpec, s ...string) bool {
	f := v.FieldByName(q.Field)
	switch q.Kind {
	case pText, pQText:
		p := reflect.New(q.Type)
		p.Elem().SetString(s[0])
		f.Set(p)
	case pQTextL:
		f.Set(reflect.ValueOf(append([]string(nil), s...)).Convert(q.Type))
	case pMedia:
		p := reflect.New(q.Type)
		p.Elem().SetString(s[0])
		f.Set(p)
	default:
		return false
	}
	return true
}

type paramPlace struct {
	P *place
	Q *paramSpec
}

func paramPlaces(kinds ...paramKind) (out []paramPlace) {
	for _, p := range places {
		for _, q := range p.U.Prop.Params {
			for _, k := range kinds {
				if q.Kind == k {
					out = append(out, paramPlace{p, q})
				}
			}
		}
	}
	return
}

var parAlpha = []string{"^", "\"", "\n", ";", ":", ",", "a", "'", "n", "é", "\t", "=", " ", "\\"}
var parRaw = []string{"^", "\"", "n", "'", "a", ",", ";", ":", "\t", " ", "=", "é"}

func paramObject(c *Ctx, pp paramPlace, max int) {
	v := clone(propDefault(pp.P.U.Prop))
	s := c.str(parAlpha, max)
	var ok bool
	if pp.Q.Kind == pQTextL {
		l := []string{s}
		for len(l) < 3 && c.Bool() {
			l = append(l, []string{"", "b", "^", ","}[c.Choose(4)])
		}
		if c.Bool() {
			l = append([]string{"first"}, l...)
		}
		ok = setParamText(v, pp.Q, l...)
	} else {
		ok = setParamText(v, pp.Q, s)
	}
	if !ok {
		c.Skip()
	}
	checkObject(c, pp.P.object(v))
}

func defaultText(k valKind) string { return emitValue(k, valAlts[k][0]) }

func defaultLine(ps *propSpec) string {
	if ps.Kinds[0] == vEnum {
		return ps.Words[0]
	}
	return defaultText(ps.Kinds[0])
}

// rawParam: every raw parameter text.
func rawParam(c *Ctx, pp paramPlace, alpha []string, max int) {
	s := c.str(alpha, max)
	switch c.Choose(2) {
	case 1:
		s = "\"" + s + "\""
	}
	c.judge("raw parameter", pp.P.text(pp.P.U.Name+";"+pp.Q.Name+"="+s+":"+defaultLine(pp.P.U.Prop)))
}

// paramTwice: a parameter repeated, with several values, quoted or not, and
// combined with each other parameter of the property in both orders.
func paramTwice(c *Ctx) {
	p := places[c.Choose(len(places))]
	ps := p.U.Prop
	if len(ps.Params) == 0 {
		c.Skip()
	}
	word := func(q *paramSpec, n int) string {
		switch q.Kind {
		case pText, pQText, pQTextL:
			return []string{"a", "b", ""}[n]
		case pQURI, pQAddrL:
			return []string{"mailto:a@b", "urn:x", ""}[n]
		case pMedia:
			return []string{"a/b", "text/plain", ""}[n]
		case pBool:
			return []string{"TRUE", "FALSE", ""}[n]
		}
		return []string{q.Words[0], q.Words[len(q.Words)-1], ""}[n]
	}
	val := func(q *paramSpec) string {
		s := word(q, c.Choose(3))
		if c.Bool() {
			return "\"" + s + "\""
		}
		if strings.ContainsAny(s, ":") {
			return "\"" + s + "\""
		}
		return s
	}
	q := ps.Params[c.Choose(len(ps.Params))]
	l := ";" + q.Name + "=" + val(q)
	switch c.Choose(6) {
	case 1:
		l += "," + val(q)
	case 2:
		l += ";" + q.Name + "=" + val(q)
	case 3:
		l += ";" + strings.ToLower(q.Name) + "=" + val(q)
	case 4:
		o := ps.Params[c.Choose(len(ps.Params))]
		l += ";" + o.Name + "=" + val(o)
	case 5:
		l += ";X-A=1;" + q.Name + "=" + val(q)
	}
	c.judge("parameter multiplicity", p.text(p.U.Name+l+":"+defaultLine(ps)))
}

// ---------------------------------------------------------------------------
// C15

var zoneNames = []string{"UTC", "America/New_York", "Europe/London", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Etc/GMT+5", "Etc/UTC", "GMT", "EST5EDT", "Africa/Casablanca", "Antarctica/Troll"}
var badZones = []string{"Nowhere/Zone", "America/", "New_York", "../etc/passwd", "America/New_York ", " UTC", "utc/", "/usr", "X", "America/New_York\\", "Europe\\London", "-", "Etc/GMT+99"}

// timeFields: products of boundary fields in every form.
func timeFields(c *Ctx, p *place, k valKind, wide bool) {
	years := []int{1997, 0, 1, 4, 1600, 1899, 1900, 1969, 1970, 2000, 2024, 2038, 9999}
	days := []int{1, 2, 28, 29, 30, 31}
	y := years[c.Choose(len(years))]
	m := 1 + c.Choose(12)
	d := days[c.Choose(len(days))]
	if k == vDate {
		c.judge("date", p.text(fmt.Sprintf("%s:%04d%02d%02d", p.head(k), y, m, d)))
		return
	}
	tods := []string{"000000", "000001", "235959", "120000", "023000", "010101", "595923", "095909", "200000"}
	tod := tods[c.Choose(len(tods))]
	suf := []string{"", "Z"}[c.Choose(2)]
	zone := ""
	if n := c.Choose(len(zoneNames) + 1); n > 0 {
		if suf == "Z" && n > 1 {
			c.Skip()
		}
		zone = ";TZID=" + zoneNames[n-1]
	}
	c.judge("date-time", p.text(fmt.Sprintf("%s%s:%04d%02d%02dT%s%s", p.head(k), zone, y, m, d, tod, suf)))
}

// timeShape: all strings differing in one or two places from a good one.
var timeSeeds = []string{"19970714T170000Z", "19970714T170000", "19970714"}
var timeChars = []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "T", "Z", "t", "z", "-", ":", " ", "+", "", "00", "é", ".", ","}

func timeShape(c *Ctx, bound int) {
	ps := placesFor(vDateTime)
	p := ps[0]
	switch c.Choose(5) {
	case 0:
		p = placeMap["VEVENT.DTSTAMP"]
	case 1:
		p = placeMap["VEVENT.DTSTART"]
	case 2:
		p = placeMap["VTODO.DUE"]
	case 3:
		p = placeMap["VEVENT.EXDATE"]
	case 4:
		p = placeMap["VEVENT.RDATE"]
	}
	s := timeSeeds[c.Choose(len(timeSeeds))]
	var b strings.Builder
	for i := 0; i <= len(s); i++ {
		n := c.Dev(2*len(timeChars) + 1)
		if n > len(timeChars) { // insert before
			b.WriteString(timeChars[n-len(timeChars)-1])
			n = 0
		}
		switch {
		case n > 0:
			b.WriteString(timeChars[n-1]) // replace
		case i < len(s):
			b.WriteByte(s[i])
		}
	}
	h := p.U.Name
	kinds := p.U.Prop.Kinds
	k := kinds[c.Choose(len(kinds))]
	if k == vPeriod {
		c.Skip()
	}
	h = p.head(k)
	if c.Bool() {
		h += ";TZID=America/New_York"
	}
	c.judge("time shape", p.text(h+":"+b.String()))
}

func zones(c *Ctx) {
	ps := placesFor(vDateTime)
	p := ps[c.Choose(len(ps))]
	all := append(append([]string(nil), zoneNames...), badZones...)
	z := all[c.Choose(len(all))]
	q := []string{z, "\"" + z + "\""}[c.Choose(2)]
	t := []string{"19970714T170000", "19970714T170000Z", "20240110T123456"}[c.Choose(3)]
	if p.U.Name == "DTSTAMP" && c.Bool() {
		q += ";X-A=1"
	}
	c.judge("zone", p.text(p.head(vDateTime)+";TZID="+q+":"+t))
}

// everyDay sweeps every day of all years 0..9999 as a date; time of day and
// zone vary with the day so that every second of the day occurs.
func everyDay(c *Ctx, from, to int) {
	y := from + c.Choose(to-from)
	m := 1 + c.Choose(12)
	for d := 0; d <= 32; d++ {
		p := placeMap["VEVENT.DTSTART"]
		text := p.text(fmt.Sprintf("DTSTART;VALUE=DATE:%04d%02d%02d", y, m, d))
		c.judge("day", text)
		if c.fail != nil {
			return
		}
	}
}

func everySecond(c *Ctx) {
	h, m := c.Choose(25), c.Choose(61)
	p := placeMap["VEVENT.DTSTAMP"]
	for s := 0; s <= 61; s++ {
		suf := []string{"Z", ""}[s%2]
		c.judge("second", p.text(fmt.Sprintf("DTSTAMP:20240229T%02d%02d%02d%s", h, m, s, suf)))
		if c.fail != nil {
			return
		}
		if h < 24 && m < 60 && s < 60 {
			loc := []*time.Location{time.UTC, time.Local, ny, kol}[(h+m+s)%4]
			checkObject(c, p.object(p.valued(vDateTime, reflect.ValueOf(ics.DateTime{Time: dt(2024, 2, 28, h, m, s, loc)}))))
			if c.fail != nil {
				return
			}
		}
	}
}

// timeObjects: objects in every zone over boundary instants.
func timeObjects(c *Ctx, all bool) {
	ps := placesFor(vDateTime)
	if !all {
		ps = []*place{placeMap["VEVENT.DTSTAMP"], placeMap["VTODO.DUE"], placeMap["VEVENT.EXDATE"], placeMap["VEVENT/AUDIO.TRIGGER"], placeMap["STANDARD.DTSTART"]}
	}
	p := ps[c.Choose(len(ps))]
	years := []int{1997, 1, 2, 100, 1582, 1883, 1900, 1969, 1970, 2024, 2037, 2100, 9998, 9999, 0}
	y := years[c.Choose(len(years))]
	m := []int{1, 2, 3, 7, 10, 12}[c.Choose(6)]
	d := []int{1, 28, 31}[c.Choose(3)]
	h := []int{0, 3, 12, 23}[c.Choose(4)]
	var loc *time.Location
	n := c.Choose(len(zoneNames) + 5)
	switch n {
	case 0:
		loc = time.UTC
	case 1:
		loc = time.Local
	case 2:
		loc = fixed
	case 3:
		loc = fixNg
	case 4:
		loc = time.FixedZone("", 0)
	default:
		loc = mustLoc(zoneNames[n-5])
	}
	t := dt(y, m, d, h, 59, 58, loc)
	if n == 2 {
		t = t.Add(123456789)
	}
	ki := c.Choose(2)
	k := vDateTime
	if ki == 1 {
		if len(p.U.Prop.Kinds) < 2 || p.U.Prop.Kinds[1] != vDate {
			c.Skip()
		}
		k = vDate
		checkObject(c, p.object(p.valued(k, reflect.ValueOf(ics.Date{Time: t}))))
		return
	}
	checkObject(c, p.object(p.valued(k, reflect.ValueOf(ics.DateTime{Time: t}))))
}

// ---------------------------------------------------------------------------
// C16

var recurParts0 = []struct {
	Name string
	Vals []string
}{
	{"FREQ", []string{"DAILY", "SECONDLY", "MINUTELY", "HOURLY", "WEEKLY", "MONTHLY", "YEARLY", "", "NEVER", "DAIL", "DAILYS", "X", "DAILY,WEEKLY"}},
	{"UNTIL", []string{"19971224", "19971224T000000Z", "19971224T000000", "99991231T235959Z", "", "1997", "19971324", "19971224T", "19971224T250000Z", "19971224T000000ZZ", "00010101T000001Z", "19970229"}},
	{"COUNT", []string{"1", "10", "18446744073709551615", "18446744073709551616", "-1", "+1", "", "a", "1.0", "01", "0x1", "1 ", " 1", "1_0"}},
	{"INTERVAL", []string{"1", "2", "18446744073709551615", "18446744073709551616", "-1", "+1", "", "a", "01", "1_0"}},
	{"BYSECOND", []string{"0", "60", "61", "-1", "0,60", "60,61", "", "1,", ",1", "a", "+1", "1,,2", "59,58,57", "256", "007"}},
	{"BYMINUTE", []string{"0", "59", "60", "-1", "0,59", "59,60", "", "1,", "a", "256"}},
	{"BYHOUR", []string{"0", "23", "24", "-1", "0,23", "23,24", "", "1,", "a", "256"}},
	{"BYDAY", []string{"SU", "MO,TU,WE,TH,FR,SA,SU", "1MO", "-1SU", "+53TU", "-53WE", "54TH", "-54FR", "0SA", "", "M", "1", "XX", "MO,", ",MO", "100MO", "1MOX", "-MO", "+5", "5", "--1MO", "+-1MO", "01MO", "10MO,-10TU", "1 MO", "53MO,53TU,54WE"}},
	{"BYMONTHDAY", []string{"1", "-1", "31", "-31", "32", "-32", "0", "1,-31", "31,32", "", "+1", "a", "1,,2", "127", "-128", "128"}},
	{"BYYEARDAY", []string{"1", "-1", "366", "-366", "367", "-367", "0", "1,-366", "366,367", "", "a", "32768"}},
	{"BYWEEKNO", []string{"1", "-1", "53", "-53", "54", "-54", "0", "1,-53", "53,54", "", "a", "128"}},
	{"BYMONTH", []string{"1", "12", "13", "0", "-1", "1,12", "12,13", "", "a", "256", "12,11,1"}},
	{"BYSETPOS", []string{"1", "-1", "366", "-366", "367", "-367", "0", "1,-366", "366,367", "", "a"}},
	{"WKST", []string{"SU", "MO", "TU", "WE", "TH", "FR", "SA", "", "XX", "1MO", "MO,TU"}},
	{"X-FOO", []string{"1", ""}},
	{"BYEASTER", []string{"1"}},
	{"", []string{"", "1"}},
}

// recurText: a sequence of parts in any order, repeats allowed, values as
// deviations.
func recurText(c *Ctx, parts int, lead bool) {
	var ps []string
	if lead {
		ps = append(ps, "FREQ="+recurParts0[0].Vals[c.Dev(len(recurParts0[0].Vals))])
	}
	for k := 0; k < parts; k++ {
		n := c.Choose(len(recurParts0) + 1)
		if n == 0 {
			break
		}
		rp := recurParts0[n-1]
		v := rp.Vals[c.Dev(len(rp.Vals))]
		s := rp.Name + "=" + v
		switch c.Dev(4) {
		case 1:
			s = rp.Name // no value
		case 2:
			s += ";"
		case 3:
			s = s + " "
		}
		ps = append(ps, s)
	}
	h := "RRULE"
	if c.Dev(2) == 1 {
		h += ";TZID=Europe/London"
	}
	c.judge("rule", placeMap["VEVENT.RRULE"].text(h+":"+strings.Join(ps, ";")))
}

// recurElement sweeps every element value of every by-list, alone and as the
// last of two, as text and as object.
func recurElement(c *Ctx) {
	lists := []string{"BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"}
	l := lists[c.Choose(len(lists))]
	n := c.Choose(801) - 400
	pre := []string{"", "1,"}[c.Choose(2)]
	fr := freqs[c.Choose(len(freqs))]
	ps := placesFor(vRecur)
	p := ps[c.Choose(len(ps))]
	form := []string{"%d", "%+d", "%03d"}[c.Choose(3)]
	c.judge("element", p.text(fmt.Sprintf("RRULE:%s=%s%s;FREQ=%s", l, pre, fmt.Sprintf(form, n), fr)))
	if c.fail != nil || form != "%d" {
		return
	}
	r := ics.Recur{Frequency: ics.Daily}
	i8, i16 := []int8{int8(n)}, []int16{int16(n)}
	u8 := []uint8{uint8(n)}
	if pre != "" {
		i8, i16, u8 = append([]int8{1}, i8...), append([]int16{1}, i16...), append([]uint8{1}, u8...)
	}
	for i, f := range freqs {
		if f == fr {
			r.Frequency = ics.Frequency(i)
		}
	}
	if n != int(int8(n)) && l != "BYYEARDAY" && l != "BYSETPOS" {
		return
	}
	switch l {
	case "BYSECOND":
		r.BySecond = u8
	case "BYMINUTE":
		r.ByMinute = u8
	case "BYHOUR":
		r.ByHour = u8
	case "BYMONTHDAY":
		r.ByMonthDay = i8
	case "BYYEARDAY":
		r.ByYearDay = i16
	case "BYWEEKNO":
		r.ByWeekNum = i8
	case "BYMONTH":
		for _, n := range u8 {
			r.ByMonth = append(r.ByMonth, ics.Month(n))
		}
	case "BYSETPOS":
		r.BySetPos = i16
	}
	checkObject(c, p.object(p.valued(vRecur, reflect.ValueOf(r))))
}

func recurByDay(c *Ctx) {
	n := c.Choose(201) - 100
	d := c.Choose(9)
	form := c.Choose(4)
	if d >= 1 && d <= 7 && form < 4 {
		s := weekDays[d]
		switch {
		case form == 1:
			s = fmt.Sprintf("%+d%s", n, s)
		case form == 2:
			s = fmt.Sprintf("%02d%s", n, s)
		case form == 0:
			s = fmt.Sprintf("%d%s", n, s)
		case form == 3:
			s = fmt.Sprintf("MO,%d%s,TU", n, s)
		}
		c.judge("weekday", placeMap["VEVENT.RRULE"].text("RRULE:FREQ=YEARLY;BYDAY="+s))
		if c.fail != nil {
			return
		}
	}
	if form == 0 || form == 3 {
		r := ics.Recur{Frequency: ics.Yearly, ByDay: []ics.DayRecur{{Day: ics.WeekDay(d), Occurrence: int8(n)}}}
		if form == 3 {
			r.ByDay = []ics.DayRecur{{Day: ics.Monday}, r.ByDay[0], {Day: ics.Tuesday}}
		}
		p := placeMap["VJOURNAL.RRULE"]
		if p == nil {
			p = placeMap["VEVENT.RRULE"]
		}
		checkObject(c, p.object(p.valued(vRecur, reflect.ValueOf(r))))
	}
}

// recurObjects: subsets of parts of a rule, list lengths 0..3.
func recurObjects(c *Ctx) {
	r := ics.Recur{Frequency: ics.Frequency([]int{3, 0, 1, 2, 4, 5, 6, 7}[c.Dev(8)])}
	switch c.Dev(8) {
	case 1:
		r.Until = dt(1997, 12, 24, 0, 0, 0, time.UTC)
	case 2:
		r.Until, r.UntilTime = dt(1997, 12, 24, 1, 2, 3, time.UTC), true
	case 3:
		r.Until, r.UntilTime = dt(1997, 12, 24, 1, 2, 3, time.Local), true
	case 4:
		r.Until, r.UntilTime = dt(1997, 12, 24, 1, 2, 3, ny), true
	case 5:
		r.Until = dt(1997, 12, 24, 23, 2, 3, ny)
	case 6:
		r.Until, r.UntilTime = dt(2030, 12, 31, 20, 2, 3, fixNg), true
	case 7:
		r.Until = dt(0, 12, 24, 0, 0, 0, time.UTC)
	}
	r.Count = []uint64{0, 1, 2, math.MaxUint64}[c.Dev(4)]
	r.Interval = []uint64{0, 1, 2, math.MaxUint64}[c.Dev(4)]
	u := func(max uint8) []uint8 {
		return [][]uint8{nil, {0}, {max}, {max + 1}, {max, 0, 1}, {}}[c.Dev(6)]
	}
	r.BySecond, r.ByMinute, r.ByHour = u(60), u(59), u(23)
	r.ByDay = [][]ics.DayRecur{nil, {{Day: ics.Sunday}}, {{Day: ics.Saturday, Occurrence: -53}, {Day: ics.Monday}, {Day: ics.Monday}}, {{Day: 0}}, {}}[c.Dev(5)]
	r.ByMonthDay = [][]int8{nil, {1}, {-31, 31, 1}, {0}, {}}[c.Dev(5)]
	r.ByYearDay = [][]int16{nil, {1}, {-366, 366, 1}, {367}, {}}[c.Dev(5)]
	r.ByWeekNum = [][]int8{nil, {1}, {-53, 53, 1}, {54}, {}}[c.Dev(5)]
	r.ByMonth = [][]ics.Month{nil, {1}, {12, 11, 1}, {13}, {}}[c.Dev(5)]
	r.BySetPos = [][]int16{nil, {1}, {-366, 366, 1}, {0}, {}}[c.Dev(5)]
	r.WeekStart = ics.WeekDay(c.Dev(9))
	p := placeMap["VEVENT.RRULE"]
	checkObject(c, p.object(p.valued(vRecur, reflect.ValueOf(r))))
}

// ---------------------------------------------------------------------------
// C17

var durAlpha = []string{"P", "T", "W", "D", "H", "M", "S", "1", "0", "-", "+"}

func durText(c *Ctx, max int) {
	s := c.str(durAlpha, max)
	c.judge("duration", placeMap["VEVENT.DURATION"].text("DURATION:"+s))
}

// durUnits: unit products in standard order with numbers of several sizes.
func durUnits(c *Ctx) {
	ps := placesFor(vDuration)
	p := ps[c.Choose(len(ps))]
	var b strings.Builder
	b.WriteString([]string{"", "-", "+", "--", "- "}[c.Choose(5)])
	b.WriteString([]string{"P", "", "PP", "p"}[c.Dev(4)])
	num := []string{"", "0", "1", "59", "100", "4294967296", "18446744073709551616", "01", "-1", "1.5", " 1"}
	var t bool
	for i, u := range "WDTHMS" {
		if u == 'T' {
			t = true
			continue
		}
		var n string
		if i == 0 {
			n = num[c.Dev(len(num))]
		} else {
			n = num[c.Choose(4)]
			if k := c.Dev(len(num)); k > 0 {
				n = num[k]
			}
		}
		if n == "" {
			continue
		}
		if t {
			t = false
			b.WriteString([]string{"T", ""}[c.Dev(2)])
		}
		b.WriteString(n)
		b.WriteRune(u)
	}
	b.WriteString([]string{"", "T", " ", "X", "1"}[c.Dev(5)])
	c.judge("duration units", p.text(p.head(vDuration)+":"+b.String()))
}

func durObjects(c *Ctx) {
	ps := placesFor(vDuration)
	p := ps[c.Choose(len(ps))]
	n := []uint{0, 1, 7, 59, 60, 1000, math.MaxUint32}
	d := ics.Duration{Negative: c.Bool(), Weeks: n[c.Dev(len(n))], Days: n[c.Choose(len(n))], Hours: n[c.Choose(len(n))], Minutes: n[c.Choose(len(n))], Seconds: n[c.Choose(len(n))]}
	checkObject(c, p.object(p.valued(vDuration, reflect.ValueOf(d))))
}

func periodText(c *Ctx) {
	ps := placesFor(vPeriod)
	p := ps[c.Choose(len(ps))]
	times := []string{"19970101T180000Z", "19970102T070000Z", "19970101T180000", "19970102T070000", "19970101", "", "19970101T180000ZX", "99991231T235959Z", "19971301T000000Z"}
	ends := append([]string{"PT1H", "P1W", "PT5H30M", "-PT1H", "+PT1H", "P1D", "P", "PT", "P1W1D", "1H", "PT0S", "P0W", "-P0D", "PT1H/PT1H", "P1DT1S", "pt1h"}, times...)
	seps := []string{"/", "", "//", "-", ",", "/ "}
	s := times[c.Choose(len(times))] + seps[c.Choose(len(seps))] + ends[c.Choose(len(ends))]
	if c.Bool() {
		s += []string{"/", " ", ",19970103T180000Z/PT1H"}[c.Choose(3)]
	}
	z := []string{"", ";TZID=America/New_York", ";TZID=UTC", ";TZID=Nowhere/X"}[c.Choose(4)]
	c.judge("period", p.text(p.head(vPeriod)+z+":"+s))
}

func periodObjects(c *Ctx) {
	ps := placesFor(vPeriod)
	p := ps[c.Choose(len(ps))]
	locs := []*time.Location{time.UTC, time.Local, ny, kol, fixed, mustLoc("America/New_York"), mustLoc("UTC")}
	var per ics.Period
	if c.Choose(8) > 0 {
		per.Start.Time = dt(1997, 3, 1, 18, 0, 0, locs[c.Choose(len(locs))])
	}
	gaps := []time.Duration{time.Second, -time.Second, 0, time.Minute, 13 * time.Hour, 24 * time.Hour, 8760 * time.Hour * 20, time.Millisecond}
	if n := c.Choose(len(gaps) + 1); n > 0 {
		per.End.Time = dt(1997, 3, 1, 18, 0, 0, locs[c.Choose(len(locs))]).Add(gaps[n-1])
	}
	durs := []ics.Duration{{}, {Hours: 1}, {Weeks: 1}, {Negative: true, Seconds: 1}, {Negative: true}, {Weeks: 1, Days: 1}, {Days: 3, Hours: 2, Minutes: 1, Seconds: 5}}
	per.Duration = durs[c.Choose(len(durs))]
	checkObject(c, p.object(p.valued(vPeriod, reflect.ValueOf(per))))
}

// ---------------------------------------------------------------------------
// C18

func offsets(c *Ctx, all bool) {
	// 600 offsets an execution
	lim := 86400
	n := c.Choose(2 * (lim/600 + 1))
	ps := placesFor(vUTCOffset)
	p := ps[n%len(ps)]
	sign := 1 - 2*(n%2)
	for k := 0; k < 600; k++ {
		o := sign * ((n/2)*600 + k)
		checkObject(c, p.object(p.valued(vUTCOffset, reflect.ValueOf(ics.UTCOffset(o)))))
		if c.fail != nil {
			return
		}
	}
}

func offsetText(c *Ctx) {
	ps := placesFor(vUTCOffset)
	sg := []string{"+", "-", ""}[c.Choose(3)]
	h, m := c.Choose(100), c.Choose(100)
	secs := []string{"", "00", "01", "30", "59", "60", "99", "0", "5", "000", " ", "Z"}
	p := ps[(h+m)%len(ps)]
	for _, s := range secs {
		c.judge("offset", p.text(fmt.Sprintf("%s:%s%02d%02d%s", p.U.Name, sg, h, m, s)))
		if c.fail != nil {
			return
		}
	}
}

func shortNumbers(c *Ctx, max int) {
	p := placeMap["VEVENT.PRIORITY"]
	c.judge("integer", p.text("PRIORITY:"+c.str([]string{"0", "1", "9", "-", "+", ".", " ", "_", "x", "e", ",", "٣"}, max)))
}

func integers(c *Ctx) {
	ps := placesFor(vInteger)
	p := ps[c.Choose(len(ps))]
	b := []int64{0, 1, 9, 10, 99, 100, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64}
	n := b[c.Choose(len(b))]
	if c.Bool() {
		n = -n
	}
	switch c.Choose(3) {
	case 1:
		n++
	case 2:
		n--
	}
	f := []string{"%d", "%+d", "%012d", "%d ", "%d.0", "0x%x", "%d,1"}[c.Choose(7)]
	c.judge("integer", p.text(p.U.Name+":"+fmt.Sprintf(f, n)))
	if c.fail == nil && n >= math.MinInt32 && n <= math.MaxInt32 {
		checkObject(c, p.object(p.valued(vInteger, reflect.ValueOf(ics.Integer(n)))))
	}
}

func coordText(c *Ctx, max int) {
	p := placeMap["VEVENT.GEO"]
	c.judge("coordinates", p.text("GEO:"+c.str([]string{"0", "1", "9", "-", "+", ".", ";", ",", " ", "e", "\\;"}, max)))
}

var floats = []float64{0, 1, -1, 0.1, 37.386013, -122.082932, 90, -90, 1.0 / 3, 1e-5, 1e-7, 5e-324, 89.99999999999999, 45.5, 12.000001, -0.5, 1e-300, math.Pi, 0.3}

func coordObjects(c *Ctx) {
	ps := placesFor(vTFloat)
	p := ps[c.Choose(len(ps))]
	x := append(append([]float64(nil), floats...), math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1))
	g := ics.TFloat{x[c.Choose(len(x))], x[c.Choose(len(x))]}
	if c.Bool() {
		g[1] *= 1.9
	}
	checkObject(c, p.object(p.valued(vTFloat, reflect.ValueOf(g))))
}

// coordSweep: every ten-thousandth of a degree over the whole range.
func coordSweep(c *Ctx, step int) {
	n := c.Choose(360)
	p := placeMap["VTODO.GEO"]
	for k := 0; k < 10000; k += step {
		lon := float64(n-180) + float64(k)/10000
		lat := lon / 2
		checkObject(c, p.object(p.valued(vTFloat, reflect.ValueOf(ics.TFloat{lat, lon}))))
		if c.fail != nil {
			return
		}
	}
}

func binaries(c *Ctx, max int) {
	ps := placesFor(vBinary)
	p := ps[c.Choose(len(ps))]
	n := c.Choose(max + 1)
	al := []byte{0, 255, 'a', 0x3e, 0x3f, 0xfb, '\n'}
	b := make(ics.Binary, n)
	for i := range b {
		b[i] = al[c.Choose(len(al))]
	}
	checkObject(c, p.object(p.valued(vBinary, reflect.ValueOf(b))))
}

func binarySizes(c *Ctx, max int) {
	n := c.Choose(max)
	b := make(ics.Binary, n)
	for i := range b {
		b[i] = byte(i*7 + n)
	}
	p := placeMap["VEVENT.ATTACH"]
	checkObject(c, p.object(p.valued(vBinary, reflect.ValueOf(b))))
}

func binaryLarge(c *Ctx) {
	n := []int{1 << 16, 1 << 18, 1 << 20, 1 << 22, 1 << 24}[c.Choose(5)] + []int{-1, 0, 1, 5}[c.Choose(4)]
	b := make(ics.Binary, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*5 + n)
	}
	p := placeMap["VEVENT.ATTACH"]
	checkObject(c, p.object(p.valued(vBinary, reflect.ValueOf(b))))
}

func everyByte(c *Ctx) {
	b := ics.Binary{byte(c.Choose(256)), byte(c.Choose(256))}
	p := placeMap["VJOURNAL.ATTACH"]
	checkObject(c, p.object(p.valued(vBinary, reflect.ValueOf(b[:1+c.Choose(2)]))))
}

func base64Text(c *Ctx, max int) {
	p := placeMap["VEVENT.ATTACH"]
	hs := []string{"ATTACH;VALUE=BINARY;ENCODING=BASE64:", "ATTACH;ENCODING=BASE64;VALUE=BINARY:", "ATTACH;VALUE=BINARY:", "ATTACH;VALUE=BINARY;ENCODING=8BIT:", "ATTACH;VALUE=BINARY;ENCODING=\"BASE64\":", "ATTACH;VALUE=BINARY;ENCODING=BASE64,BASE64:", "ATTACH;VALUE=BINARY;ENCODING=:", "ATTACH;ENCODING=BASE64:"}
	c.judge("base64", p.text(hs[c.Choose(len(hs))]+c.str([]string{"A", "Q", "/", "+", "=", "-", "_", " ", "!"}, max)))
}

func booleans(c *Ctx, max int) {
	var ps []*place
	for _, p := range placesFor(vBoolean) {
		ps = append(ps, p)
	}
	p := ps[c.Choose(len(ps))]
	c.judge("boolean", p.text(p.U.Name+":"+c.str([]string{"TRUE", "FALSE", "true", "T", "R", "U", "E", "1", "0", " ", "YES"}, max)))
}

func rsvp(c *Ctx, max int) {
	p := placeMap["VEVENT.ATTENDEE"]
	v := c.str([]string{"TRUE", "FALSE", "true", "T", "R", "U", "E", "1", "0", " ", "YES", ","}, max)
	if c.Bool() {
		v = "\"" + v + "\""
	}
	c.judge("rsvp", p.text("ATTENDEE;RSVP="+v+":mailto:a@b"))
}

func uriText(c *Ctx, max int) {
	ps := append(placesFor(vURI), placesFor(vCalAddr)...)
	var p *place
	switch c.Choose(3) {
	case 0:
		p = placeMap["VEVENT.URL"]
	case 1:
		p = placeMap["VEVENT.ORGANIZER"]
	default:
		p = ps[c.Choose(len(ps))]
		max -= 2
	}
	s := c.str([]string{"a", ":", "/", "%", "2", "?", "#", "@", " ", ";", ",", "\\", "\"", "[", "]", "é", "//h"}, max)
	c.judge("uri", p.text(p.U.Name+":"+s))
}

func init() {
	register(&property{ID: "C12", Level: "model_checking",
		Assume: []string{"invalid UTF-8 is only checked for termination"},
		Suites: func(t bool) []*suite {
			return []*suite{
				{Name: "short-lines", About: "every line up to the length over the structural alphabet", Run: func(c *Ctx) { freeLine(c, lineAlpha, pickInt(t, 7, 9)) }},
				{Name: "wide-lines", About: "every line over a wide alphabet with controls and line ends", Run: func(c *Ctx) { freeLine(c, lineWide, pickInt(t, 4, 5)) }},
				{Name: "parameter-tokens", About: "every token sequence between a known property name and its value", Run: func(c *Ctx) { paramTokens(c, pickInt(t, 5, 6)) }},
				{Name: "odd-bytes", About: "every byte value at every position of a line, inserted or substituted, in five surroundings", Run: oddByte},
				sizes("sizes", "lines", "folds"),
				{Name: "code-points", About: "code points text handling might single out (thorough: all) at every position of a line", Run: func(c *Ctx) { oddRune(c, t) }},
				{Name: "malformed-anywhere", About: "every malformed line at every position of a rich calendar", Run: malformedAnywhere},
			}
		}})
	register(&property{ID: "C13", Level: "model_checking",
		Assume: []string{"unknown backslash escapes are not judged"},
		Suites: func(t bool) []*suite {
			return []*suite{
				{Name: "texts", About: "every text up to the length over the specials", Run: func(c *Ctx) { textObject(c, placeMap["VEVENT.SUMMARY"], textAlpha, pickInt(t, 5, 6)) }},
				{Name: "texts-everywhere", About: "every short text in every text property", Run: func(c *Ctx) { ps := textPlaces(); textObject(c, ps[c.Choose(len(ps))], textAlpha, pickInt(t, 3, 4)) }},
				{Name: "lists", About: "every list of up to three texts", Run: func(c *Ctx) {
					textList(c, placeMap["VEVENT.CATEGORIES"], []string{"\\", ",", ";", "\n", "a"}, 3, pickInt(t, 3, 4))
				}},
				{Name: "lists-everywhere", About: "lists in every list property", Run: func(c *Ctx) {
					ps := placesFor(vMText)
					textList(c, ps[c.Choose(len(ps))], textAlpha, 2, pickInt(t, 2, 3))
				}},
				{Name: "sayings", About: "one or two of the phrases found in real calendars, joined by every special", Run: saidText},
				{Name: "sayings-everywhere", About: "every phrase in every text property", Run: saidEverywhere},
				{Name: "lengths", About: "texts and list items of every length in every text property", Run: lengthsInText},
				{Name: "runs", About: "runs of every length of one or two characters", Run: func(c *Ctx) { runsInText(c, pickInt(t, 80, 400)) }},
				{Name: "raw", About: "every raw text up to the length", Run: func(c *Ctx) {
					c.judge("raw text", placeMap["VEVENT.SUMMARY"].text("SUMMARY:"+c.str(rawAlpha, pickInt(t, 6, 7))))
				}},
				{Name: "raw-lists", About: "every raw list text up to the length", Run: func(c *Ctx) {
					c.judge("raw list", placeMap["VTODO.RESOURCES"].text("RESOURCES:"+c.str(rawAlpha, pickInt(t, 6, 7))))
				}},
				{Name: "raw-everywhere", About: "short raw texts in every text property", Run: func(c *Ctx) {
					ps := append(textPlaces(), placesFor(vMText)...)
					p := ps[c.Choose(len(ps))]
					c.judge("raw text", p.text(p.U.Name+":"+c.str(rawAlpha, pickInt(t, 3, 4))))
				}},
				sizes("sizes", "texts"),
				{Name: "code-points", About: "every Unicode code point, the first ones singly", Run: func(c *Ctx) { runeBlocks(c, pickInt(t, 0x400, 0x10000)) }},
			}
		}})
	register(&property{ID: "C14", Level: "model_checking",
		Assume: []string{"media types outside the registered shape are not judged"},
		Suites: func(t bool) []*suite {
			return bothWays([]*suite{
				{Name: "values", About: "every value up to the length in one parameter of each kind", Run: func(c *Ctx) {
					at := placeMap["VEVENT.ATTENDEE"]
					q := []string{"CN", "SENT-BY", "MEMBER"}[c.Choose(3)]
					paramObject(c, paramPlace{at, at.U.Prop.param(q)}, pickInt(t, 3, 4))
				}},
				{Name: "values-everywhere", About: "short values in every text parameter of every property", Run: func(c *Ctx) {
					pp := paramPlaces(pText, pQText, pQTextL)
					paramObject(c, pp[c.Choose(len(pp))], pickInt(t, 2, 2))
				}},
				{Name: "sayings", About: "one or two of the phrases found in real calendars, joined by every special, in parameters", Run: saidParam},
				{Name: "sayings-everywhere", About: "every phrase in every text parameter of every property", Run: saidParamEverywhere},
				{Name: "lengths", About: "values of every length in every text parameter of every property", Run: lengthsInParams},
				{Name: "runs", About: "runs of every length of one or two characters", Run: func(c *Ctx) { runsInParams(c, pickInt(t, 80, 400)) }},
				{Name: "raw", About: "every raw parameter text up to the length, quoted and not", Run: func(c *Ctx) {
					at := placeMap["VTODO.ATTENDEE"]
					q := at.U.Prop.param([]string{"CN", "DIR", "MEMBER", "DELEGATED-TO"}[c.Choose(4)])
					rawParam(c, paramPlace{at, q}, parRaw, pickInt(t, 4, 5))
				}},
				{Name: "raw-everywhere", About: "short raw parameter texts in every parameter of every property", Run: func(c *Ctx) {
					pp := paramPlaces(pText, pQText, pQTextL, pQURI, pQAddrL, pMedia, pEnum, pOnly, pBool)
					rawParam(c, pp[c.Choose(len(pp))], parRaw, pickInt(t, 2, 3))
				}},
				sizes("sizes", "params"),
				{Name: "carets", About: "code points text handling might single out (thorough: all) after and before carets", Run: func(c *Ctx) { caretRunes(c, t) }},
				{Name: "multiplicity", About: "repeated parameters, several values and pairs of parameters, quoted and not", Run: paramTwice},
				focusSuite("alternatives", "every parameter alternative of every property", 1, genOpts{lvl: 2, bad: true, max: 1}, checkObject),
			})
		}})
	register(&property{ID: "C15", Level: "model_checking",
		Assume: []string{"local times skipped or repeated by daylight saving, leap seconds and fractions are not judged", "the process runs in Asia/Kolkata, in New York and in UTC"},
		Suites: func(t bool) []*suite {
			return bothWays(append([]*suite{
				{Name: "fields", About: "products of boundary fields in every form and zone", Run: func(c *Ctx) { timeFields(c, placeMap["VEVENT.DTSTART"], vDateTime, t) }},
				{Name: "date-fields", About: "products of date fields in every property with a date", Run: func(c *Ctx) {
					ps := placesFor(vDate)
					timeFields(c, ps[c.Choose(len(ps))], vDate, t)
				}},
				{Name: "shapes", Bound: pickInt(t, 1, 2), About: "every replacement, insertion or deletion in a date or date-time", Run: func(c *Ctx) { timeShape(c, 1) }},
				{Name: "zones", About: "good and bad zone names in every property", Run: zones},
				{Name: "database", About: "every zone of the database, months of several years", Run: func(c *Ctx) {
					allZones(c, []*place{placeMap["VEVENT.DTSTART"], placeMap["VEVENT/AUDIO.TRIGGER"]})
				}},
				{Name: "hours", About: "every hour of three years in zones with changing offsets", Run: func(c *Ctx) {
					everyHour(c, zoneNames[:pickInt(t, 8, len(zoneNames))])
				}},
				{Name: "days", About: "every day number of every month of a range of years", Run: func(c *Ctx) { everyDay(c, pickInt(t, 1890, 0), pickInt(t, 2110, 10000)) }},
				{Name: "seconds", About: "every second of a day as text and object", Run: everySecond},
				{Name: "objects", About: "boundary instants in every zone", Run: func(c *Ctx) { timeObjects(c, t) }},
			}, append(editSuites("C15", t), localSuites(t)...)...))
		}})
	register(&property{ID: "C16", Level: "model_checking",
		Assume: []string{"lower case recurrence keywords, zero counts and BYDAY with a bare plus are not judged"},
		Suites: func(t bool) []*suite {
			return bothWays(append([]*suite{
				{Name: "weekdays", About: "every weekday occurrence", Run: recurByDay},
				{Name: "amounts", About: "counts and intervals around every power of two and ten", Run: ruleAmounts},
				{Name: "parts", Bound: 2, About: "FREQ followed by up to three parts in any order, values as deviations", Run: func(c *Ctx) { recurText(c, pickInt(t, 2, 3), true) }},
				{Name: "elements", About: "every element value -400..400 of every list under every frequency and in every property", Run: recurElement},
				sizes("sizes", "rules"),
				{Name: "lists", About: "every short list of each kind over a few elements, with repeats", Run: func(c *Ctx) { ruleLists(c, pickInt(t, 3, 5)) }},
				{Name: "objects", Bound: pickInt(t, 3, 4), About: "rule objects with up to Bound parts", Run: recurObjects},
				{Name: "orders", Bound: 1, About: "up to four parts in any order including FREQ", Run: func(c *Ctx) { recurText(c, pickInt(t, 4, 5), false) }},
			}, editSuites("C16", t)...))
		}})
	register(&property{ID: "C17", Level: "model_checking",
		Assume: []string{"durations with a missing T or skipped minutes are not judged"},
		Suites: func(t bool) []*suite {
			return bothWays(append([]*suite{
				{Name: "strings", About: "every string up to the length over the duration alphabet", Run: func(c *Ctx) { durText(c, pickInt(t, 6, 7)) }},
				{Name: "amounts", About: "each unit in amounts around every power of two and ten, alone and with another unit", Run: durAmounts},
				{Name: "units", Bound: pickInt(t, 1, 2), About: "unit products with odd numbers and shapes as deviations in every property", Run: durUnits},
				{Name: "objects", Bound: 1, About: "duration objects over unit products in every property", Run: durObjects},
				{Name: "period-texts", About: "start x separator x end x zone in every property", Run: periodText},
				{Name: "period-objects", About: "period objects over zones, gaps and durations", Run: periodObjects},
			}, editSuites("C17", t)...))
		}})
	register(&property{ID: "C18", Level: "model_checking",
		Assume: []string{"offsets of a day or more, coordinates out of range and exponent forms are not judged"},
		Suites: func(t bool) []*suite {
			return bothWays(append([]*suite{
				{Name: "offsets", About: "every offset of less than a day, to the second", Run: func(c *Ctx) { offsets(c, t) }},
				{Name: "offset-texts", About: "sign x every pair of two-digit fields x seconds", Run: offsetText},
				{Name: "integer-texts", About: "every string over the number alphabet", Run: func(c *Ctx) { shortNumbers(c, pickInt(t, 4, 5)) }},
				{Name: "integers", About: "integer boundaries in every form and property", Run: integers},
				{Name: "coordinate-texts", About: "every string over the coordinate alphabet", Run: func(c *Ctx) { coordText(c, pickInt(t, 5, 6)) }},
				{Name: "coordinates", About: "pairs of special numbers in every property", Run: coordObjects},
				{Name: "coordinate-digits", About: "every two digits at every magnitude", Run: coordFine},
				{Name: "coordinate-sweep", About: "the whole range in steps", Run: func(c *Ctx) { coordSweep(c, pickInt(t, 50, 1)) }},
				{Name: "binaries", About: "every byte string over an alphabet", Run: func(c *Ctx) { binaries(c, pickInt(t, 4, 5)) }},
				{Name: "binary-sizes", About: "every length", Run: func(c *Ctx) { binarySizes(c, pickInt(t, 600, 3000)) }},
				{Name: "lengths", About: "addresses, links and data of every length in every property", Run: lengthsInValues},
				{Name: "binary-large", About: "lengths about powers of two up to 16 MiB", Serial: true, Run: binaryLarge},
				{Name: "bytes", About: "every one and two byte string", Run: everyByte},
				{Name: "base64-texts", About: "every string over the base64 alphabet under every encoding parameter", Run: func(c *Ctx) { base64Text(c, pickInt(t, 4, 6)) }},
				{Name: "booleans", About: "boolean texts", Run: func(c *Ctx) { booleans(c, 4) }},
				{Name: "rsvp", About: "RSVP texts", Run: func(c *Ctx) { rsvp(c, 4) }},
				sizes("sizes", "values"),
				{Name: "uri-parts", About: "every byte, escaped in either case or plain, in every part of a URI", Run: uriParts},
				{Name: "uris", About: "every string over the URI alphabet", Run: func(c *Ctx) { uriText(c, pickInt(t, 4, 5)) }},
				focusSuite("alternatives", "every value alternative of every property", 1, genOpts{lvl: 2, bad: true, max: 1}, checkObject),
			}, editSuites("C18", t)...))
		}})
}
