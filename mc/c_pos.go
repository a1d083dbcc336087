package main

import (
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"vimagination.zapto.org/ics"
)

// bothWays has every accepted text of the suites encoded again as well.
func bothWays(ss []*suite) []*suite {
	for _, s := range ss {
		run := s.Run
		s.Run = func(c *Ctx) {
			c.both = true
			run(c)
		}
	}
	return ss
}

// ---------------------------------------------------------------------------
// C08: one invalid element of long lists

// badMany: an invalid element at every position of a long list, for every
// repeated property and every kind of component.
func badMany(c *Ctx, size int) {
	n := c.Choose(len(places) + len(focuses))
	if n < len(places) {
		p := places[n]
		if p.U.Card != cardMany {
			c.Skip()
		}
		bad := badPropAlts(p.U.Prop)
		if len(bad) == 0 {
			c.Skip()
		}
		vals := make([]reflect.Value, size)
		for i := range vals {
			vals[i] = propDefault(p.U.Prop)
		}
		vals[c.Choose(size)] = bad[len(bad)-1]
		refusedAmong(c, p.object(vals...))
		return
	}
	f := focuses[n-len(places)]
	if f.Path == "VCALENDAR" {
		c.Skip()
	}
	cal := focused(nil, f, genOpts{noDev: true})
	comp := locate(cal, f)
	at := c.Choose(size)
	var u *propUse
	for i := range f.Spec.Props {
		if x := &f.Spec.Props[i]; x.Card == cardOne && len(badPropAlts(x.Prop)) > 0 {
			u = x
		}
	}
	if u == nil {
		c.Skip()
	}
	// the list holding the component
	l := listHolding(reflect.ValueOf(cal).Elem(), comp)
	if !l.IsValid() {
		panic("harness: component not found: " + f.Path)
	}
	out := reflect.MakeSlice(l.Type(), size, size)
	for i := 0; i < size; i++ {
		out.Index(i).Set(l.Index(0))
	}
	l.Set(out)
	other := locate(focused(nil, f, genOpts{noDev: true}), f)
	b := badPropAlts(u.Prop)
	other.FieldByName(u.Field).Set(b[len(b)-1])
	if e := out.Index(at); e.Type() == reflect.TypeOf(ics.Alarm{}) {
		e.Field(0).Set(other.Addr())
	} else {
		e.Set(other)
	}
	refusedAmong(c, cal)
}

// listHolding finds the slice of v whose first element is comp.
func listHolding(v, comp reflect.Value) reflect.Value {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice || f.Len() == 0 || f.Type().Elem().Kind() != reflect.Struct {
			continue
		}
		e := f.Index(0)
		if e.Type() == reflect.TypeOf(ics.Alarm{}) {
			if e.Field(0).Elem().Elem().Addr().Pointer() == comp.Addr().Pointer() {
				return f
			}
		} else if e.Type() == comp.Type() && e.Addr().Pointer() == comp.Addr().Pointer() {
			return f
		} else if r := listHolding(e, comp); r.IsValid() {
			return r
		}
	}
	return reflect.Value{}
}

// refusedAmong is refusal for calendars known to be invalid, without writing
// them out.
func refusedAmong(c *Ctx, cal *ics.Calendar) {
	if v, _ := refValid(cal); v != reject {
		c.Skip()
	}
	var w countWriter
	err, p := c.encodeTo(&w, cal)
	if p {
		return
	}
	if err == nil {
		c.Fail("invalid calendar encoded", "%s", clip(dump(cal), 2000))
	} else if w.calls > 0 {
		c.Fail("bytes written before the refusal", "%q", clip(w.String(), 2000))
	}
	c.Outcome(fmt.Sprint(err))
}

// ---------------------------------------------------------------------------
// C09: names of components with something added

var nameForms = []func(string) string{
	func(s string) string { return s },
	strings.ToLower,
	func(s string) string { return s + "\u00a0" },
	func(s string) string { return " " + s },
	func(s string) string { return s + "\t" },
	func(s string) string { return "\"" + s + "\"" },
	func(s string) string { return s + ";" },
	func(s string) string { return s + "," + s },
	func(s string) string { return s + "S" },
	func(s string) string { return s[:len(s)-1] },
	func(s string) string { return s[1:] },
	func(s string) string { return "X-" + s },
	func(s string) string { return "BEGIN:" + s },
	func(s string) string { return s + " " },
	func(s string) string { return s + "\\" },
	func(s string) string { return "" },
}

func componentNames(c *Ctx) {
	k := treeKinds[c.Choose(len(treeKinds))]
	a, b := nameForms[c.Choose(len(nameForms))](k), nameForms[c.Choose(len(nameForms))](k)
	inner := "BEGIN:" + a + "\r\n" + strings.ReplaceAll(treeBody[k], "@", "1") + "END:" + b + "\r\n"
	switch c.Choose(6) {
	case 1:
		inner = "BEGIN:VEVENT\r\nUID:2\r\nDTSTAMP:19970714T170000Z\r\n" + inner + "END:VEVENT\r\n"
	case 2:
		inner = "BEGIN:VTODO\r\nUID:2\r\nDTSTAMP:19970714T170000Z\r\n" + inner + "END:VTODO\r\n"
	case 3:
		inner = "BEGIN:VTIMEZONE\r\nTZID:2\r\nBEGIN:STANDARD\r\n" + treeBody["STANDARD"] + "END:STANDARD\r\n" + inner + "END:VTIMEZONE\r\n"
	case 4:
		inner = "BEGIN:X-A\r\n" + inner + "END:X-A\r\n"
	case 5:
		inner = "BEGIN:VJOURNAL\r\nUID:2\r\nDTSTAMP:19970714T170000Z\r\n" + inner + "END:VJOURNAL\r\n"
	}
	c.judge("component name", "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n"+inner+"END:VCALENDAR\r\n")
}

// ---------------------------------------------------------------------------
// C12: code points

// runeSets: code points that text handling might single out, and all of them.
var runeSets [2][]rune

func init() {
	setups = append(setups, func() {
		for n := range runeSets {
			for r := rune(0x80); r <= unicode.MaxRune; r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				if n == 1 || r < 0x400 || unicode.In(r, unicode.White_Space, unicode.Cc, unicode.Cf, unicode.Zl, unicode.Zp, unicode.Nd, unicode.Pc, unicode.Pd, unicode.Other_Default_Ignorable_Code_Point) || r&0xffff >= 0xfffe || strings.ToUpper(string(r)) != string(r) && len(strings.ToUpper(string(r))) != len(string(r)) || r >= 0xff00 && r <= 0xffff || r&(r-1) == 0 || r&(r+1) == 0 {
					runeSets[n] = append(runeSets[n], r)
				}
			}
		}
	})
}

func runeSet(all bool) []rune {
	if all {
		return runeSets[1]
	}
	return runeSets[0]
}

// oddRune: a code point at every position of a line.
func oddRune(c *Ctx, all bool) {
	l := "COMMENT;LANGUAGE=e;X=\"b\",c:v"
	rs := runeSet(all)
	r := rs[c.Choose(len(rs))]
	i := c.Choose(len(l) + 1)
	h := []string{"VEVENT", "skipped"}[c.Choose(2)]
	l = l[:i] + string(r) + l[i:]
	if h == "skipped" {
		c.judge("code point", placeMap["VEVENT"].text("BEGIN:X-A\r\n"+l+"\r\nEND:X-A"))
		return
	}
	c.judge("code point", placeMap[h].text(l))
}

// ---------------------------------------------------------------------------
// C14: what follows a caret

func caretRunes(c *Ctx, all bool) {
	n := 0x80 + len(runeSet(all))
	k := c.Choose(n)
	r := rune(k)
	if k >= 0x80 {
		r = runeSet(all)[k-0x80]
	}
	s := []string{"^%c", "%c^", "^^%c", "^%cn", "a%c^n", "\\%c"}[c.Choose(6)]
	s = strings.ReplaceAll(s, "%c", string(r))
	q := []string{"CN", "MEMBER", "LANGUAGE"}[c.Choose(3)]
	if q == "MEMBER" || c.Bool() {
		s = "\"" + s + "\""
	}
	at := placeMap["VEVENT.ATTENDEE"]
	c.judge("caret", at.text("ATTENDEE;"+q+"="+s+":mailto:a@b"))
}

// ---------------------------------------------------------------------------
// C18: escapes and characters in the parts of a URI

func uriParts(c *Ctx) {
	parts := []string{"http://h/a@b", "http://h/@", "http://h/a?@", "http://h/a#@", "http://h/a?b=@&c#d", "mailto:@", "mailto:a@", "urn:@", "http://@h/", "http://u:p@@h", "http://h@/", "http://h:1@/a", "http://[::1@]/a", "@", "a@b/c", "/@", "//h/@", "x:@?@#@", "http://h/@/@"}
	s := parts[c.Choose(len(parts))]
	b := c.Choose(256)
	var x string
	switch c.Choose(5) {
	case 0:
		x = fmt.Sprintf("%%%02X", b)
	case 1:
		x = fmt.Sprintf("%%%02x", b)
	case 2:
		x = string(rune(b))
	case 3:
		x = fmt.Sprintf("%%%02Xz%c", b, "/?#;:&+ "[b%8])
	case 4:
		x = fmt.Sprintf("%%C3%%%02x", b)
	}
	s = strings.ReplaceAll(s, "@", x)
	p := []*place{placeMap["VEVENT.URL"], placeMap["VEVENT.ATTENDEE"], placeMap["VTODO.ATTACH"]}[c.Choose(3)]
	switch c.Choose(2) {
	case 0:
		c.judge("uri part", p.text(p.U.Name+":"+s))
	case 1:
		if strings.Contains(s, "\"") {
			c.Skip()
		}
		q := "DIR"
		if p.U.Name != "ATTENDEE" {
			c.Skip()
		}
		c.judge("uri part", p.text(p.U.Name+";"+q+"=\""+s+"\":mailto:a@b"))
	}
}

// coordFine: every decimal digit at every magnitude, with either sign.
func coordFine(c *Ctx) {
	d, k := c.Choose(100), c.Choose(20)
	s := fmt.Sprintf("%de-%d", d, k)
	if c.Bool() {
		s = "-" + s
	}
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	v := ics.TFloat{x, 1}
	if c.Bool() {
		v = ics.TFloat{1, x}
	}
	if x == 0 || x < -90 || x > 90 {
		c.Skip()
	}
	p := []*place{placeMap["VEVENT.GEO"], placeMap["VTODO.GEO"]}[c.Choose(2)]
	checkObject(c, p.object(p.valued(vTFloat, reflect.ValueOf(v))))
}

// ---------------------------------------------------------------------------
// C08: an invalid character far into a text

func badLate(c *Ctx, max int) {
	ns := sizesUpTo(max)
	n := ns[c.Choose(len(ns))]
	ctl := []string{"\x00", "\r", "\x7f"}[c.Choose(3)]
	s := strings.Repeat("a", n) + ctl + []string{"", "b", strings.Repeat("c", 1100)}[c.Choose(3)]
	ps := []*place{placeMap["VEVENT.SUMMARY"], placeMap["VEVENT.UID"], placeMap["VTODO.RESOURCES"], placeMap["VEVENT.ATTENDEE"], placeMap["VEVENT.DESCRIPTION"], placeMap["VTIMEZONE.TZID"], placeMap["VEVENT.URL"]}
	p := ps[c.Choose(len(ps))]
	v := clone(propDefault(p.U.Prop))
	switch k := p.U.Prop.Kinds[0]; {
	case p.U.Name == "DESCRIPTION":
		setParamText(v, p.U.Prop.param("LANGUAGE"), s)
	case p.U.Name == "ATTENDEE":
		setParamText(v, p.U.Prop.param([]string{"CN", "MEMBER"}[c.Choose(2)]), s)
	case k == vMText:
		setValue(p.U.Prop, v, k, reflect.ValueOf(ics.MText{"a", ics.Text(s)}))
	case k == vURI:
		setValue(p.U.Prop, v, k, reflect.ValueOf(ics.URI{URL: url.URL{Scheme: "x", Opaque: s}}))
	default:
		setValue(p.U.Prop, v, k, reflect.ValueOf(ics.Text(s)))
	}
	refusedAmong(c, p.object(v))
}

// ---------------------------------------------------------------------------
// C01: equal neighbours

// equals: lists of components and of properties in which entries repeat, or
// repeat in what identifies them.
func equals(c *Ctx, max int) *ics.Calendar {
	n := c.Choose(len(places) + len(focuses))
	if n < len(places) {
		p := places[n]
		if p.U.Card != cardMany {
			c.Skip()
		}
		alts := propAlts(p.U.Prop, 1)
		if len(alts) > 4 {
			alts = alts[:4]
		}
		vals := make([]reflect.Value, 1+c.Choose(max))
		for i := range vals {
			vals[i] = alts[c.Choose(len(alts))]
		}
		return p.object(vals...)
	}
	f := focuses[n-len(places)]
	if f.Path == "VCALENDAR" {
		c.Skip()
	}
	cal := focused(nil, f, genOpts{noDev: true})
	l := listHolding(reflect.ValueOf(cal).Elem(), locate(cal, f))
	// a default one, one of the same identity, another identity
	size := 1 + c.Choose(max)
	out := reflect.MakeSlice(l.Type(), size, size)
	for i := 0; i < size; i++ {
		e := locate(focused(nil, f, genOpts{noDev: true}), f)
		switch c.Choose(4) {
		case 1:
			if u := f.Spec.prop("SEQUENCE"); u != nil {
				setProp(e, u, propAlts(u.Prop, 1)[0])
			} else if u = f.Spec.prop("COMMENT"); u != nil {
				setProp(e, u, propDefault(u.Prop))
			} else {
				for j := range f.Spec.Props {
					if u := &f.Spec.Props[j]; u.Card == cardOpt && u.Name != "REPEAT" && u.Name != "DURATION" {
						setProp(e, u, propDefault(u.Prop))
						break
					}
				}
			}
		case 2:
			u := f.Spec.prop("RECURRENCE-ID")
			if u == nil {
				c.Skip()
			}
			setProp(e, u, propDefault(u.Prop))
		case 3:
			for _, name := range []string{"UID", "TZID", "DTSTART", "DESCRIPTION", "TRIGGER", "URL"} {
				if u := f.Spec.prop(name); u != nil {
					if a := propAlts(u.Prop, 1); len(a) > 1 {
						setProp(e, u, a[1])
					}
					break
				}
			}
		}
		if x := out.Index(i); x.Type() == reflect.TypeOf(ics.Alarm{}) {
			x.Field(0).Set(e.Addr())
		} else {
			x.Set(e)
		}
	}
	l.Set(out)
	return cal
}

// ---------------------------------------------------------------------------
// C22: names in use elsewhere

var foreignLines = strings.Split(strings.TrimSpace(`
METHOD:CANCEL
METHOD:REQUEST
METHOD:PUBLISH
CALSCALE:GREGORIAN
CALSCALE:JULIAN
NAME:n
NAME;LANGUAGE=en:n
DESCRIPTION:d
UID:other
URL:http://example.com/
LAST-MODIFIED:19970714T170000Z
CATEGORIES:A,B
REFRESH-INTERVAL;VALUE=DURATION:P1W
SOURCE;VALUE=URI:http://example.com/
COLOR:turquoise
IMAGE;VALUE=URI;DISPLAY=BADGE:http://example.com/
CONFERENCE;VALUE=URI;FEATURE=PHONE:tel:+1
STRUCTURED-DATA;VALUE=TEXT:x
STYLED-DESCRIPTION:x
LOCATION-TYPE:x
PARTICIPANT-TYPE:ACTIVE
CALENDAR-ADDRESS:mailto:a@b
RESOURCE-TYPE:ROOM
ACKNOWLEDGED:20090604T084500Z
PROXIMITY:DEPART
CONCEPT:http://example.com/
LINK;LINKREL=x;VALUE=URI:http://example.com/
REFID:x
RELATED-TO;RELTYPE=SNOOZE:other
EXRULE:FREQ=DAILY
DCREATED:19970714T170000Z
DALARM:19970714T170000Z;PT5M;2;x
AALARM:19970714T170000Z;;;x
MALARM:19970714T170000Z
PALARM:19970714T170000Z
RNUM:3
TRANSP:OPAQUE
TZ:-05
TZID:Europe/Paris
TZID-ALIAS-OF:Europe/Paris
TZUNTIL:20200101T000000Z
TZNAME:EST
TZOFFSET:+0100
BUSYTYPE:BUSY
DEFAULT-ALARM-VEVENT:x
POLL-ITEM-ID:1
VERSION2:2.0
PRODUCT:x
GEO2:1;2
PERCENT:50
CLASS2:PRIVATE
DTSTART2:19970714T170000Z
DATE:19970714
TIME:170000
DAY:MO
WKST:MO
FREQ:DAILY
RULE:FREQ=DAILY
UNTIL:19970714T170000Z
COUNT:3
INTERVAL:2
ALARM:AUDIO
VALARM:x
VEVENT:x
VCALENDAR:x
STANDARD:x
AUDIO:x
DISPLAY:x
EMAIL:a@b
VALUE:DATE
ENCODING:BASE64
CN:x
ROLE:CHAIR
RSVP:TRUE
LANGUAGE:en
ALTREP:http://example.com/
X-WR-CALNAME:c
X-WR-CALDESC:c
X-WR-TIMEZONE:Europe/Paris
X-WR-RELCALID:c
X-WR-ALARMUID:c
X-WR-ATTENDEE:mailto:a@b
X-PUBLISHED-TTL:PT1H
X-LIC-LOCATION:Europe/Paris
X-TZINFO:x
X-MICROSOFT-CDO-BUSYSTATUS:FREE
X-MICROSOFT-CDO-ALLDAYEVENT:TRUE
X-MICROSOFT-CDO-IMPORTANCE:2
X-MICROSOFT-CDO-TZID:4
X-MICROSOFT-CDO-INTENDEDSTATUS:BUSY
X-MICROSOFT-CALSCALE:GREGORIAN
X-MS-OLK-FORCEINSPECTOROPEN:TRUE
X-MS-OLK-AUTOFILLLOCATION:FALSE
X-MS-OLK-CONFTYPE:0
X-PRIMARY-CALENDAR:TRUE
X-OWNER;CN=x:mailto:a@b
X-ALT-DESC;FMTTYPE=text/html:<p>x</p>
X-DESCRIPTION:x
X-SUMMARY:x
X-UID:other
X-DTSTART:19970714T170000Z
X-DTSTART;VALUE=DATE:19970714
X-DTSTAMP:19970714T170000Z
X-STATUS:CANCELLED
X-CLASS:PRIVATE
X-TZID:Europe/Paris
X-ACTION:AUDIO
X-TRIGGER:PT1H
X-VERSION:2.0
X-PRODID:x
X-METHOD:CANCEL
X-APPLE-TRAVEL-ADVISORY-BEHAVIOR:AUTOMATIC
X-APPLE-STRUCTURED-LOCATION;VALUE=URI;X-ADDRESS="a":geo:1,2
X-APPLE-DEFAULT-ALARM:TRUE
X-APPLE-CALENDAR-COLOR:#FF0000FF
X-APPLE-EWS-BUSYSTATUS:BUSY
X-APPLE-REGION:US
X-GOOGLE-CONFERENCE:https://example.com/
X-GOOGLE-CALENDAR-CONTENT-TITLE:x
X-GOOGLE-EDITURL:http://example.com/
X-MOZ-LASTACK:20090604T084500Z
X-MOZ-SNOOZE-TIME:20090604T084500Z
X-MOZ-GENERATION:1
X-MOZ-SEND-INVITATIONS:TRUE
X-RECURRENCE-ID:x
X-EVOLUTION-CALDAV-HREF:http://example.com/
X-EVOLUTION-ALARM-UID:x
X-LOTUS-NOTESVERSION:2
X-YAHOO-YID:x
X-RADICALE-NAME:x
X-NEXTCLOUD-BC-FIELD-TYPE:x
X-PROP;VALUE=BINARY;ENCODING=BASE64:!!!
X-PROP;VALUE=DATE:x
X-PROP;TZID=Nowhere:x
X-PROP;ENCODING=QUOTED-PRINTABLE:a=20b
X-PROP;CHARSET=UTF-8:a
X-:x
X:x
-:x
0:x
BEGINS:VEVENT
ENDS:VEVENT
BEGIN-X:VEVENT
END-X:VEVENT
X-BEGIN:VEVENT
X-END:VEVENT
`), "\n")

var foreignParams = strings.Split(strings.TrimSpace(`
X-A=b
CHARSET=UTF-8
CHARSET=ISO-8859-1
X-CHARSET=UTF-8
ENCODING=QUOTED-PRINTABLE
ENCODING=8BIT
ENCODING=7BIT
EMAIL="a@b"
EMAIL=a@b
FEATURE=PHONE,CHAT
LABEL=x
DISPLAY=BADGE
SCHEDULE-AGENT=CLIENT
SCHEDULE-FORCE-SEND=REQUEST
SCHEDULE-STATUS="1.2"
ORDER=1
SCHEMA="http://example.com/"
DERIVED=TRUE
LINKREL="x"
GAP=PT1H
FILENAME=a.txt
MANAGED-ID=1
SIZE=100
RSCALE=GREGORIAN
SKIP=OMIT
X-NUM-GUESTS=0
X-FILENAME=a.txt
X-RESPONSE-COMMENT="a"
X-TZID=Europe/Paris
X-VALUE=DATE
X-CN=x
X-APPLE-FILENAME=a
X-ADDRESS="a\nb"
X-TITLE="a:b;c,d"
X-VOBJ-ORIGINAL-TZID=Europe/Paris
X-VOBJ-FLOATINGTIME-ALLOWED=TRUE
BASE64=1
URL="http://example.com/"
UID=x
DATE=19970714
DATE-TIME=x
PERIOD=x
TYPE=WORK
PREF=1
TZ=x
UTC=TRUE
LOCAL=TRUE
COUNT=1
COLOR=red
`), "\n")

// foreignAt lists the places where lines of a calendar can be added without
// coming between those of one property list.
var foreignText []string
var foreignAt []int

func init() {
	lateSetups = append(lateSetups, func() {
		foreignText = emit(rich()).logical(nil)
		last := ""
		for i := 1; i < len(foreignText); i++ {
			n, _, _ := strings.Cut(foreignText[i], ":")
			if last == "BEGIN" || n == "END" || n == "BEGIN" || last == "END" {
				foreignAt = append(foreignAt, i)
			}
			last = n
		}
	})
}

func foreign(c *Ctx) {
	i := foreignAt[c.Choose(len(foreignAt))]
	var x string
	n := c.Choose(len(foreignLines) + 8)
	if n < len(foreignLines) {
		x = foreignLines[n]
	} else {
		k := []string{"VAVAILABILITY", "AVAILABLE", "VPOLL", "PARTICIPANT", "VLOCATION", "VRESOURCE", "VCARD", "X-VENDOR"}[n-len(foreignLines)]
		x = "BEGIN:" + k + "\r\nUID:other\r\nDTSTAMP:19970714T170000Z\r\nVERSION:3.0\r\nDTSTART:19970714T170000Z\r\nACTION:AUDIO\r\nTZID:x\r\nBEGIN:VALARM\r\nACTION:NONE\r\nEND:VALARM\r\nEND:" + k
	}
	ls := append(append(foreignText[:i:i], x), foreignText[i:]...)
	c.judge("foreign", joinLines(ls))
}

func foreignParam(c *Ctx) {
	p := places[c.Choose(len(places))]
	x := foreignParams[c.Choose(len(foreignParams))]
	l := emitProp(p.U, propDefault(p.U.Prop))
	s := l.String()
	i := len(l.Name)
	if c.Bool() {
		m := l
		m.Value = ""
		i = len(m.String()) - 1
	}
	c.judge("foreign parameter", p.text(s[:i]+";"+x+s[i:]))
}
