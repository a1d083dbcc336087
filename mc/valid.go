package main

import (
	"math"
	"net/url"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// refValid judges whether a calendar object is representable.
func refValid(cal *ics.Calendar) (verdict, string) {
	var r refState
	validComp(&r, calSpec, reflect.ValueOf(cal).Elem())
	if r.rejected != "" {
		return reject, r.rejected
	}
	if r.unspecd != "" {
		return unspec, r.unspecd
	}
	return accept, ""
}

func validComp(r *refState, c *compSpec, v reflect.Value) {
	seen := map[string]bool{}
	for i := range c.Props {
		u := &c.Props[i]
		f := v.FieldByName(u.Field)
		switch u.Card {
		case cardOne:
			validProp(r, u.Prop, f)
		case cardOpt:
			if !f.IsNil() {
				seen[u.Name] = true
				validProp(r, u.Prop, f.Elem())
			}
		case cardMany:
			for k := 0; k < f.Len(); k++ {
				seen[u.Name] = true
				validProp(r, u.Prop, f.Index(k))
			}
		}
	}
	for _, u := range c.Props {
		if u.Card == cardOne {
			seen[u.Name] = true
		}
	}
	for _, s := range c.Subs {
		f := v.FieldByName(s.Field)
		for k := 0; k < f.Len(); k++ {
			seen[s.Name] = true
			if s.Name == "VALARM" {
				at := f.Index(k).Field(0)
				if at.IsNil() {
					r.rej("alarm without kind")
					continue
				}
				e := at.Elem().Elem()
				validComp(r, alarmByGo(e.Type().Name()), e)
				continue
			}
			validComp(r, s.Comp, f.Index(k))
		}
	}
	refRules(c, func(n string) bool { return seen[n] }, func(why string) { r.rej("%s: %s", c.Name, why) })
}

func hasCtl(s string) bool {
	for _, c := range s {
		if isCtl(c) && c != '\n' {
			return true
		}
	}
	return false
}

func validStr(r *refState, what, s string) {
	if hasCtl(s) {
		r.rej("%s: control character", what)
	} else if !utf8.ValidString(s) {
		r.uns("%s: not UTF-8", what)
	}
}

func validProp(r *refState, ps *propSpec, v reflect.Value) {
	for _, q := range ps.Params {
		f := v.FieldByName(q.Field)
		switch q.Kind {
		case pText, pQText:
			if !f.IsNil() {
				validStr(r, q.Name, f.Elem().String())
			}
		case pMedia:
			if !f.IsNil() {
				s := f.Elem().String()
				switch {
				case s == "":
					r.uns("empty media type")
				case hasCtl(s) || !strings.Contains(s, "/"):
					r.rej("%s: media type", ps.Name)
				case !mediaStrict.MatchString(s):
					r.uns("media type")
				}
			}
		case pQTextL:
			for i := 0; i < f.Len(); i++ {
				validStr(r, q.Name, f.Index(i).String())
			}
		case pQURI:
			if !f.IsNil() {
				x := f.Elem().Field(0).Interface().(url.URL)
				validURL(r, q.Name, x)
			}
		case pQAddrL:
			for i := 0; i < f.Len(); i++ {
				validURL(r, q.Name, f.Index(i).Interface().(ics.CalendarAddress).URL)
			}
		case pEnum:
			if !f.IsNil() && int(f.Elem().Uint()) > len(q.Words) {
				r.uns("%s: unknown constant", q.Name)
			}
		}
	}
	kinds, vals := getValues(ps, v)
	if len(kinds) != 1 {
		r.rej("%s: %d values set", ps.Name, len(kinds))
	}
	for i, k := range kinds {
		if k == vEnum {
			if int(vals[i].Uint()) >= len(ps.Words) {
				r.rej("%s: constant out of range", ps.Name)
			}
			continue
		}
		validValue(r, ps.Name, k, vals[i])
	}
}

func validURL(r *refState, what string, u url.URL) {
	s := u.String()
	for _, c := range s {
		if isCtl(c) {
			r.rej("%s: control character in URI", what)
			return
		}
	}
	if !utf8.ValidString(s) {
		r.uns("%s: URI not UTF-8", what)
		return
	}
	// a URL object whose text form does not parse back to itself
	p, err := url.Parse(s)
	if err != nil || p.String() != s {
		r.uns("%s: not a parseable URI", what)
	}
}

func validTime(r *refState, what string, t time.Time) {
	n := t.Location().String()
	if t.IsZero() {
		r.rej("%s: time not set", what)
		return
	}
	y := t.Year()
	if n == "" {
		y = t.UTC().Year()
	}
	if y < 0 || y > 9999 {
		r.rej("%s: year %d", what, y)
		return
	}
	if hasCtl(n) || strings.Contains(n, "\n") {
		r.rej("%s: zone name", what)
		return
	}
	if t.Location() != time.Local && n != "UTC" && n != "" {
		l, err := time.LoadLocation(n)
		if err != nil {
			r.uns("%s: zone unknown here", what)
			return
		}
		_, a := t.Zone()
		_, b := t.In(l).Zone()
		if a != b {
			r.uns("%s: zone differs from the database", what)
		}
	}
	if ambiguous(t) {
		r.uns("%s: repeated local time", what)
	}
}

func validValue(r *refState, what string, k valKind, v reflect.Value) {
	switch k {
	case vText:
		validStr(r, what, v.String())
	case vMText:
		if v.Len() == 0 {
			r.uns("%s: empty list", what)
		}
		for i := 0; i < v.Len(); i++ {
			validStr(r, what, v.Index(i).String())
		}
	case vDateTime:
		validTime(r, what, v.Field(0).Interface().(time.Time))
	case vDate:
		t := v.Field(0).Interface().(time.Time)
		if t.IsZero() || t.Year() < 0 || t.Year() > 9999 {
			r.rej("%s: date", what)
		}
	case vDuration:
		validDuration(r, what, v.Interface().(ics.Duration))
	case vPeriod:
		p := v.Interface().(ics.Period)
		validTime(r, what, p.Start.Time)
		if p.End.IsZero() {
			validDuration(r, what, p.Duration)
			if p.Duration.Negative {
				r.rej("%s: negative duration", what)
			}
			if p.Duration == (ics.Duration{}) {
				r.uns("%s: empty period", what)
			}
			return
		}
		validTime(r, what, p.End.Time)
		if !p.End.After(p.Start.Time) {
			r.rej("%s: end not after start", what)
		} else if p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
			r.rej("%s: start and end in different zones", what)
		} else if p.Start.Truncate(time.Second).Equal(p.End.Truncate(time.Second)) {
			r.uns("%s: shorter than a second", what)
		}
	case vRecur:
		validRecur(r, what, v.Interface().(ics.Recur))
	case vURI:
		validURL(r, what, v.Interface().(ics.URI).URL)
	case vCalAddr:
		validURL(r, what, v.Interface().(ics.CalendarAddress).URL)
	case vTFloat:
		for i, f := range v.Interface().(ics.TFloat) {
			if math.IsNaN(f) || math.IsInf(f, 0) {
				r.rej("%s: not finite", what)
			} else if math.Abs(f) > 180 || i == 0 && math.Abs(f) > 90 {
				r.uns("%s: not a coordinate", what)
			}
		}
	case vUTCOffset:
		o := v.Int()
		if o <= -360000 || o >= 360000 {
			r.rej("%s: offset", what)
		} else if o <= -86400 || o >= 86400 {
			r.uns("%s: offset of a day or more", what)
		}
	}
}

func validDuration(r *refState, what string, d ics.Duration) {
	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
		r.rej("%s: weeks mixed with other units", what)
	}
}

func validRecur(r *refState, what string, q ics.Recur) {
	bad := func(s string) { r.rej("%s: %s", what, s) }
	if q.Frequency > ics.Yearly {
		bad("frequency")
	}
	if !q.Until.IsZero() {
		if q.Count != 0 {
			bad("count and until")
		}
		if q.UntilTime {
			validTime(r, what, q.Until)
		} else if y := q.Until.Year(); y < 0 || y > 9999 {
			bad("until year")
		}
	} else if q.UntilTime {
		r.uns("UntilTime without Until")
	}
	for _, n := range q.BySecond {
		if n > 60 {
			bad("BYSECOND")
		}
	}
	for _, n := range q.ByMinute {
		if n > 59 {
			bad("BYMINUTE")
		}
	}
	for _, n := range q.ByHour {
		if n > 23 {
			bad("BYHOUR")
		}
	}
	for _, n := range q.ByDay {
		if n.Day < 1 || n.Day > 7 || n.Occurrence > 53 || n.Occurrence < -53 {
			bad("BYDAY")
		}
	}
	for _, n := range q.ByMonthDay {
		if n == 0 || n > 31 || n < -31 {
			bad("BYMONTHDAY")
		}
	}
	for _, n := range q.ByYearDay {
		if n == 0 || n > 366 || n < -366 {
			bad("BYYEARDAY")
		}
	}
	for _, n := range q.ByWeekNum {
		if n == 0 || n > 53 || n < -53 {
			bad("BYWEEKNO")
		}
	}
	for _, n := range q.ByMonth {
		if n == 0 || n > 12 {
			bad("BYMONTH")
		}
	}
	for _, n := range q.BySetPos {
		if n == 0 || n > 366 || n < -366 {
			bad("BYSETPOS")
		}
	}
	if q.WeekStart > 7 {
		bad("WKST")
	}
}
