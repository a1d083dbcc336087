package main

import (
	"reflect"
	"strings"

	"vimagination.zapto.org/ics"
)

// The vocabulary of the format, written from RFC 5545, RFC 6868 and RFC 9074
// (restricted to what the library's exported types can hold). Nothing here is
// derived from the implementation's dispatch tables; only the exported Go
// field names are shared.

type card uint8

const (
	cardOne  card = iota // exactly one
	cardOpt              // at most one
	cardMany             // any number
)

type propUse struct {
	Field string // exported Go field
	Name  string // wire name
	Prop  *propSpec
	Card  card
}

type subUse struct {
	Field string
	Name  string
	Comp  *compSpec // nil for VALARM, which is resolved by its action
}

type ruleKind uint8

const (
	ruleXor  ruleKind = iota // A and B not together
	ruleNeed                 // A requires B
	ruleBoth                 // both or neither
	ruleAny                  // at least one of the sub-components A, B
)

type rule struct {
	Kind ruleKind
	A, B string
}

type compSpec struct {
	Name   string // wire name
	Go     string
	Action string // for alarms
	Props  []propUse
	Subs   []subUse
	Rules  []rule
	Type   reflect.Type
}

func (c *compSpec) prop(name string) *propUse {
	for i := range c.Props {
		if c.Props[i].Name == name {
			return &c.Props[i]
		}
	}
	return nil
}

func (c *compSpec) sub(name string) *subUse {
	for i := range c.Subs {
		if c.Subs[i].Name == name {
			return &c.Subs[i]
		}
	}
	return nil
}

type valKind uint8

const (
	vText valKind = iota
	vMText
	vDateTime
	vDate
	vDuration
	vPeriod
	vRecur
	vURI
	vCalAddr
	vInteger
	vTFloat
	vUTCOffset
	vBinary
	vBoolean
	vEnum
)

var kindNames = map[string]valKind{
	"Text": vText, "MText": vMText, "DateTime": vDateTime, "Date": vDate,
	"Duration": vDuration, "Period": vPeriod, "Recur": vRecur, "URI": vURI,
	"CalendarAddress": vCalAddr, "Integer": vInteger, "TFloat": vTFloat,
	"UTCOffset": vUTCOffset, "Binary": vBinary, "Boolean": vBoolean,
}

// name announced by VALUE= for kinds that occur as alternatives
var valueNames = map[valKind]string{
	vURI: "URI", vBinary: "BINARY", vDateTime: "DATE-TIME", vDate: "DATE",
	vPeriod: "PERIOD", vDuration: "DURATION",
}

var kindGo = map[valKind]string{
	vText: "Text", vMText: "MText", vDateTime: "DateTime", vDate: "Date",
	vDuration: "Duration", vPeriod: "Period", vRecur: "Recur", vURI: "URI",
	vCalAddr: "CalendarAddress", vInteger: "Integer", vTFloat: "TFloat",
	vUTCOffset: "UTCOffset", vBinary: "Binary", vBoolean: "Boolean",
}

var kindTypes = map[valKind]reflect.Type{
	vText: reflect.TypeOf(ics.Text("")), vMText: reflect.TypeOf(ics.MText{}),
	vDateTime: reflect.TypeOf(ics.DateTime{}), vDate: reflect.TypeOf(ics.Date{}),
	vDuration: reflect.TypeOf(ics.Duration{}), vPeriod: reflect.TypeOf(ics.Period{}),
	vRecur: reflect.TypeOf(ics.Recur{}), vURI: reflect.TypeOf(ics.URI{}),
	vCalAddr: reflect.TypeOf(ics.CalendarAddress{}), vInteger: reflect.TypeOf(ics.Integer(0)),
	vTFloat: reflect.TypeOf(ics.TFloat{}), vUTCOffset: reflect.TypeOf(ics.UTCOffset(0)),
	vBinary: reflect.TypeOf(ics.Binary{}), vBoolean: reflect.TypeOf(ics.Boolean(false)),
}

type paramKind uint8

const (
	pText   paramKind = iota // quoted only when needed
	pQText                   // always quoted
	pQTextL                  // list, always quoted
	pQURI                    // always quoted URI
	pQAddrL                  // list of quoted calendar addresses
	pEnum                    // extensible enumeration, 0 is unknown
	pOnly                    // single permitted keyword
	pBool
	pMedia // media type
)

type paramSpec struct {
	Name  string
	Field string
	Kind  paramKind
	Words []string
	Type  reflect.Type // named type (element of pointer, or slice)
}

type propSpec struct {
	Name   string
	Go     string
	Kinds  []valKind // first is the default
	Words  []string  // for vEnum: value i <-> Words[i]
	Params []*paramSpec
	Type   reflect.Type
}

func (p *propSpec) param(name string) *paramSpec {
	for _, q := range p.Params {
		if q.Name == name {
			return q
		}
	}
	return nil
}

// name | Go param field | kind | keywords
const paramText = `
ALTREP AlternativeRepresentation quri
CN CommonName text
CUTYPE CalendarUserType enum INDIVIDUAL GROUP RESOURCE ROOM
DELEGATED-FROM Delegator qaddrs
DELEGATED-TO Delagatee qaddrs
DIR DirectoryEntry qtext
FMTTYPE FormatType media
FBTYPE FreeBusyType enum FREE BUSY BUSY-UNAVAILABLE BUSY-TENTATIVE
LANGUAGE Language text
MEMBER Member qtexts
PARTSTAT ParticipationStatus enum NEEDS-ACTION ACCEPTED DECLINED TENTATIVE DELEGATED COMPLETED IN-PROCESS
RANGE Range only THISANDFUTURE
RELTYPE RelationshipType enum PARENT CHILD SIBLING
ROLE ParticipationRole enum REQ-PARTICIPANT CHAIR OPT-PARTICIPANT NON-PARTICIPANT
RSVP RSVP bool
SENT-BY SentBy qtext
URI URI quri
ID ID qtext
AGENT-ID AgentID qtext
`

// key | wire name | Go type | values (first default, or "enum" words) | params
const propText = `
ATTACH PropAttachment URI,Binary FMTTYPE
ATTENDEE PropAttendee CalendarAddress CUTYPE,MEMBER,ROLE,PARTSTAT,RSVP,DELEGATED-TO,DELEGATED-FROM,SENT-BY,CN,DIR,LANGUAGE
CATEGORIES PropCategories MText LANGUAGE
CLASS PropClass =PUBLIC,PRIVATE,CONFIDENTIAL
COMMENT PropComment Text ALTREP,LANGUAGE
COMPLETED PropCompleted DateTime
CONTACT PropContact Text ALTREP,LANGUAGE
CREATED PropCreated DateTime
DESCRIPTION PropDescription Text ALTREP,LANGUAGE
DTEND PropDateTimeEnd DateTime,Date
DTSTAMP PropDateTimeStamp DateTime
DTSTART PropDateTimeStart DateTime,Date
DUE PropDue DateTime,Date
DURATION PropDuration Duration
EXDATE PropExceptionDateTime DateTime,Date
FREEBUSY PropFreeBusy Period FBTYPE
GEO PropGeo TFloat
LAST-MODIFIED PropLastModified DateTime
LOCATION PropLocation Text ALTREP,LANGUAGE
ORGANIZER PropOrganizer CalendarAddress CN,DIR,SENT-BY,LANGUAGE
PERCENT-COMPLETE PropPercentComplete Integer
PRIORITY PropPriority Integer
PRODID PropProductID Text
RDATE PropRecurrenceDateTimes DateTime,Date,Period
RECURRENCE-ID PropRecurrenceID DateTime,Date RANGE
RELATED-TO PropRelatedTo Text RELTYPE
REPEAT PropRepeat Integer
REQUEST-STATUS PropRequestStatus Text
RESOURCES PropResources MText ALTREP,LANGUAGE
RRULE PropRecurrenceRule Recur
SEQUENCE PropSequence Integer
STATUS PropStatus =TENTATIVE,CONFIRMED,CANCELLED,NEEDS-ACTION,COMPLETED,IN-PROCESS,DRAFT,FINAL
SUMMARY PropSummary Text ALTREP,LANGUAGE
TRANSP PropTimeTransparency =OPAQUE,TRANSPARENT
TRIGGER PropTrigger Duration,DateTime
TZID PropTimezoneID Text
TZNAME PropTimezoneName Text LANGUAGE
TZOFFSETFROM PropTimezoneOffsetFrom UTCOffset
TZOFFSETTO PropTimezoneOffsetTo UTCOffset
TZURL PropTimezoneURL URI
UID PropUID Text
URL PropURL URI
URI PropURI URI
VERSION PropVersion Text
ALARM-AGENT PropAlarmAgent Text URI,ID,AGENT-ID
STATUS@alarm PropAlarmStatus =ACTIVE,CANCELLED,COMPLETED
LAST-TRIGGERED PropLastTriggered DateTime
ACKNOWLEDGED PropAcknowledged DateTime
PROXIMITY PropProximity Text
GEO-LOCATION PropGeoLocation URI
DEFAULT-ALARM PropDefaultAlarm Boolean
`

// default Go field name for a wire name
var fieldNames = map[string]string{
	"VERSION": "Version", "PRODID": "ProductID", "DTSTAMP": "DateTimeStamp", "UID": "UID",
	"DTSTART": "DateTimeStart", "CLASS": "Class", "CREATED": "Created", "DESCRIPTION": "Description",
	"GEO": "Geo", "LAST-MODIFIED": "LastModified", "LOCATION": "Location", "ORGANIZER": "Organizer",
	"PRIORITY": "Priority", "SEQUENCE": "Sequence", "STATUS": "Status", "SUMMARY": "Summary",
	"TRANSP": "TimeTransparency", "URL": "URL", "RECURRENCE-ID": "RecurrenceID", "RRULE": "RecurrenceRule",
	"DTEND": "DateTimeEnd", "DURATION": "Duration", "ATTACH": "Attachment", "ATTENDEE": "Attendee",
	"CATEGORIES": "Categories", "COMMENT": "Comment", "CONTACT": "Contact", "EXDATE": "ExceptionDateTime",
	"REQUEST-STATUS": "RequestStatus", "RELATED-TO": "RelatedTo", "RESOURCES": "Resources",
	"RDATE": "RecurrenceDateTimes", "COMPLETED": "Completed", "PERCENT-COMPLETE": "PercentComplete",
	"DUE": "Due", "FREEBUSY": "FreeBusy", "TZID": "TimezoneID", "TZURL": "TimezoneURL",
	"TZOFFSETTO": "TimezoneOffsetTo", "TZOFFSETFROM": "TimezoneOffsetFrom", "TZNAME": "TimezoneName",
	"TRIGGER": "Trigger", "REPEAT": "Repeat", "ALARM-AGENT": "AlarmAgent", "STATUS@alarm": "AlarmStatus",
	"LAST-TRIGGERED": "LastTriggered", "ACKNOWLEDGED": "Acknowledged", "PROXIMITY": "Proximity",
	"GEO-LOCATION": "GeoLocation", "DEFAULT-ALARM": "DefaultAlarm", "URI": "URI",
}

const alarmCommon = ` ?UID *ALARM-AGENT ?STATUS@alarm *LAST-TRIGGERED ?ACKNOWLEDGED ?PROXIMITY *GEO-LOCATION ?RELATED-TO ?DEFAULT-ALARM need:GEO-LOCATION,PROXIMITY`

var compText = []string{
	`VCALENDAR Calendar !VERSION !PRODID sub:VEVENT,Event sub:VTODO,Todo sub:VJOURNAL,Journal sub:VFREEBUSY,FreeBusy sub:VTIMEZONE,Timezone`,
	`VEVENT Event !DTSTAMP !UID ?DTSTART ?CLASS ?CREATED ?DESCRIPTION ?GEO ?LAST-MODIFIED ?LOCATION ?ORGANIZER ?PRIORITY ?SEQUENCE ?STATUS ?SUMMARY ?TRANSP ?URL ?RECURRENCE-ID ?RRULE ?DTEND ?DURATION *ATTACH *ATTENDEE *CATEGORIES *COMMENT *CONTACT *EXDATE *REQUEST-STATUS *RELATED-TO *RESOURCES *RDATE sub:VALARM,Alarm xor:DTEND,DURATION`,
	`VTODO Todo !DTSTAMP !UID ?CLASS ?COMPLETED ?CREATED ?DESCRIPTION ?DTSTART ?GEO ?LAST-MODIFIED ?LOCATION ?ORGANIZER ?PERCENT-COMPLETE ?PRIORITY ?RECURRENCE-ID ?SEQUENCE ?STATUS ?SUMMARY ?URL ?DUE ?DURATION *ATTACH *ATTENDEE *CATEGORIES *COMMENT *CONTACT *EXDATE *REQUEST-STATUS *RELATED-TO *RESOURCES *RDATE sub:VALARM,Alarm need:DURATION,DTSTART xor:DUE,DURATION`,
	`VJOURNAL Journal !DTSTAMP !UID ?CLASS ?CREATED ?DTSTART ?LAST-MODIFIED ?ORGANIZER ?RECURRENCE-ID ?SEQUENCE ?STATUS ?SUMMARY ?URL ?RRULE *ATTACH *ATTENDEE *CATEGORIES *COMMENT *CONTACT *DESCRIPTION *EXDATE *REQUEST-STATUS *RELATED-TO *RESOURCES *RDATE`,
	`VFREEBUSY FreeBusy !DTSTAMP !UID ?CONTACT ?DTSTART ?DTEND ?ORGANIZER ?URL *ATTENDEE *COMMENT *FREEBUSY *REQUEST-STATUS`,
	`VTIMEZONE Timezone !TZID ?LAST-MODIFIED ?TZURL sub:STANDARD,Standard sub:DAYLIGHT,Daylight any:STANDARD,DAYLIGHT`,
	`STANDARD Standard !DTSTART !TZOFFSETTO !TZOFFSETFROM ?RRULE *COMMENT *RDATE *TZNAME`,
	`DAYLIGHT Daylight !DTSTART !TZOFFSETTO !TZOFFSETFROM ?RRULE *COMMENT *RDATE *TZNAME`,
	`VALARM#AUDIO AlarmAudio !TRIGGER ?DURATION ?REPEAT *ATTACH` + alarmCommon,
	`VALARM#DISPLAY AlarmDisplay !DESCRIPTION !TRIGGER ?DURATION ?REPEAT` + alarmCommon,
	`VALARM#EMAIL AlarmEmail !DESCRIPTION !TRIGGER !SUMMARY ?ATTENDEE ?DURATION ?REPEAT` + alarmCommon + ` both:DURATION,REPEAT`,
	`VALARM#URI AlarmURI !URI ?DURATION ?REPEAT` + alarmCommon + ` both:DURATION,REPEAT`,
	`VALARM#NONE AlarmNone`,
}

var (
	params   = map[string]*paramSpec{}
	props    = map[string]*propSpec{}
	comps    = map[string]*compSpec{} // by wire name, alarms by VALARM#ACTION
	compList []*compSpec
	propList []*propSpec
	actions  = []string{"AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"}
	calSpec  *compSpec
)

func alarmByGo(name string) *compSpec {
	for _, a := range actions {
		if c := comps["VALARM#"+a]; c.Go == name {
			return c
		}
	}
	return nil
}

var compTypes = map[string]reflect.Type{
	"Calendar": reflect.TypeOf(ics.Calendar{}), "Event": reflect.TypeOf(ics.Event{}), "Todo": reflect.TypeOf(ics.Todo{}),
	"Journal": reflect.TypeOf(ics.Journal{}), "FreeBusy": reflect.TypeOf(ics.FreeBusy{}), "Timezone": reflect.TypeOf(ics.Timezone{}),
	"Standard": reflect.TypeOf(ics.Standard{}), "Daylight": reflect.TypeOf(ics.Daylight{}),
	"AlarmAudio": reflect.TypeOf(ics.AlarmAudio{}), "AlarmDisplay": reflect.TypeOf(ics.AlarmDisplay{}),
	"AlarmEmail": reflect.TypeOf(ics.AlarmEmail{}), "AlarmURI": reflect.TypeOf(ics.AlarmURI{}), "AlarmNone": reflect.TypeOf(ics.AlarmNone{}),
}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(paramText), "\n") {
		f := strings.Fields(l)
		p := &paramSpec{Name: f[0], Field: f[1], Words: f[3:]}
		p.Kind = map[string]paramKind{"text": pText, "qtext": pQText, "qtexts": pQTextL, "quri": pQURI, "qaddrs": pQAddrL, "enum": pEnum, "only": pOnly, "bool": pBool, "media": pMedia}[f[2]]
		params[p.Name] = p
	}
	for _, l := range strings.Split(strings.TrimSpace(propText), "\n") {
		f := strings.Fields(l)
		p := &propSpec{Name: strings.SplitN(f[0], "@", 2)[0], Go: f[1]}
		if strings.HasPrefix(f[2], "=") {
			p.Kinds = []valKind{vEnum}
			p.Words = strings.Split(f[2][1:], ",")
		} else {
			for _, k := range strings.Split(f[2], ",") {
				v, ok := kindNames[k]
				if !ok {
					panic(k)
				}
				p.Kinds = append(p.Kinds, v)
			}
		}
		if len(f) > 3 {
			for _, q := range strings.Split(f[3], ",") {
				if params[q] == nil {
					panic(q)
				}
				p.Params = append(p.Params, params[q])
			}
		}
		props[f[0]] = p
		propList = append(propList, p)
	}
	for _, l := range compText {
		f := strings.Fields(l)
		c := &compSpec{Name: f[0], Go: f[1]}
		if i := strings.Index(f[0], "#"); i >= 0 {
			c.Name, c.Action = f[0][:i], f[0][i+1:]
		}
		c.Type = compTypes[c.Go]
		for _, e := range f[2:] {
			if i := strings.IndexByte(e, ':'); i >= 0 {
				ab := strings.SplitN(e[i+1:], ",", 2)
				switch e[:i] {
				case "sub":
					c.Subs = append(c.Subs, subUse{Name: ab[0], Field: ab[1]})
				case "xor":
					c.Rules = append(c.Rules, rule{ruleXor, ab[0], ab[1]})
				case "need":
					c.Rules = append(c.Rules, rule{ruleNeed, ab[0], ab[1]})
				case "both":
					c.Rules = append(c.Rules, rule{ruleBoth, ab[0], ab[1]})
				case "any":
					c.Rules = append(c.Rules, rule{ruleAny, ab[0], ab[1]})
				}
				continue
			}
			ps := props[e[1:]]
			if ps == nil || fieldNames[e[1:]] == "" {
				panic(e)
			}
			u := propUse{Field: fieldNames[e[1:]], Name: ps.Name, Prop: ps, Card: map[byte]card{'!': cardOne, '?': cardOpt, '*': cardMany}[e[0]]}
			sf, ok := c.Type.FieldByName(u.Field)
			if !ok {
				panic("no field " + c.Go + "." + u.Field)
			}
			ft := sf.Type
			if ft.Kind() == reflect.Ptr && u.Card == cardOpt || ft.Kind() == reflect.Slice && u.Card == cardMany {
				ft = ft.Elem()
			}
			if ft.Name() != ps.Go {
				panic("field type " + c.Go + "." + u.Field + " " + ft.Name() + " " + ps.Go)
			}
			ps.Type = ft
			c.Props = append(c.Props, u)
		}
		comps[f[0]] = c
		compList = append(compList, c)
	}
	for _, c := range compList {
		for i := range c.Subs {
			c.Subs[i].Comp = comps[c.Subs[i].Name]
		}
	}
	calSpec = comps["VCALENDAR"]
	for _, p := range propList {
		if p.Type == nil {
			panic("unused property " + p.Go)
		}
		for _, q := range p.Params {
			sf, ok := p.Type.FieldByName(q.Field)
			if !ok {
				panic("no param field " + p.Go + "." + q.Field)
			}
			t := sf.Type
			if t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			if q.Type != nil && q.Type != t {
				panic("param type")
			}
			q.Type = t
		}
	}
}
