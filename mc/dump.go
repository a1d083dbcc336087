package main

import (
	"encoding/hex"
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// dump renders the meaning of a calendar as text. Two calendars are equal for
// the purposes of the properties exactly when their dumps are equal: what the
// format cannot carry (sub-second parts, empty versus absent parameters, a
// false RSVP versus none, the identity of a nameless zone) is left out.
func dump(cal *ics.Calendar) string {
	if cal == nil {
		return "<nil>"
	}
	var b strings.Builder
	dumpComp(&b, calSpec, reflect.ValueOf(cal).Elem(), "")
	return b.String()
}

func dumpComp(b *strings.Builder, c *compSpec, v reflect.Value, in string) {
	b.WriteString(in)
	b.WriteString(c.Name)
	if c.Action != "" {
		b.WriteByte('#')
		b.WriteString(c.Action)
	}
	b.WriteByte('\n')
	in += " "
	for i := range c.Props {
		u := &c.Props[i]
		f := v.FieldByName(u.Field)
		switch u.Card {
		case cardOne:
			dumpProp(b, u, f, in)
		case cardOpt:
			if !f.IsNil() {
				dumpProp(b, u, f.Elem(), in)
			}
		case cardMany:
			for k := 0; k < f.Len(); k++ {
				dumpProp(b, u, f.Index(k), in)
			}
		}
	}
	for _, s := range c.Subs {
		f := v.FieldByName(s.Field)
		for k := 0; k < f.Len(); k++ {
			if s.Name == "VALARM" {
				at := f.Index(k).Field(0)
				if at.IsNil() {
					b.WriteString(in + "VALARM#nil\n")
					continue
				}
				e := at.Elem()
				if e.Kind() == reflect.Ptr {
					if e.IsNil() {
						b.WriteString(in + "VALARM#nilptr\n")
						continue
					}
					e = e.Elem()
				}
				if ac := alarmByGo(e.Type().Name()); ac != nil {
					dumpComp(b, ac, e, in)
				} else {
					b.WriteString(in + "VALARM#? " + e.Type().Name() + "\n")
				}
				continue
			}
			dumpComp(b, s.Comp, f.Index(k), in)
		}
	}
}

func dumpProp(b *strings.Builder, u *propUse, v reflect.Value, in string) {
	b.WriteString(in)
	b.WriteString(u.Name)
	ps := u.Prop
	for _, q := range ps.Params {
		dumpParam(b, q, v.FieldByName(q.Field))
	}
	kinds, vals := getValues(ps, v)
	for i, k := range kinds {
		b.WriteByte(' ')
		dumpValue(b, k, vals[i])
	}
	if len(kinds) == 0 {
		b.WriteString(" <no value>")
	}
	b.WriteByte('\n')
}

func dumpParam(b *strings.Builder, q *paramSpec, f reflect.Value) {
	var s string
	switch q.Kind {
	case pText, pQText, pMedia:
		if f.IsNil() || f.Elem().Len() == 0 {
			return
		}
		s = strconv.Quote(f.Elem().String())
	case pQTextL:
		if f.Len() == 0 {
			return
		}
		for i := 0; i < f.Len(); i++ {
			s += strconv.Quote(f.Index(i).String()) + ","
		}
	case pQURI:
		if f.IsNil() {
			return
		}
		u := f.Elem().Field(0).Interface().(url.URL)
		if s = u.String(); s == "" {
			return
		}
		s = strconv.Quote(s)
	case pQAddrL:
		if f.Len() == 0 {
			return
		}
		for i := 0; i < f.Len(); i++ {
			u := f.Index(i).Interface().(ics.CalendarAddress)
			s += strconv.Quote(u.URL.String()) + ","
		}
	case pEnum:
		if f.IsNil() {
			return
		}
		n := int(f.Elem().Uint())
		if n > 0 && n <= len(q.Words) {
			s = q.Words[n-1]
		} else {
			s = "UNKNOWN"
		}
	case pOnly:
		if f.IsNil() {
			return
		}
		s = q.Words[0]
	case pBool:
		if f.IsNil() || !f.Elem().Bool() {
			return
		}
		s = "TRUE"
	}
	b.WriteByte(';')
	b.WriteString(q.Name)
	b.WriteByte('=')
	b.WriteString(s)
}

func dumpTime(b *strings.Builder, t time.Time) {
	name := t.Location().String()
	switch {
	case t.Location() == time.Local:
		b.WriteString("floating ")
	case name == "UTC":
		b.WriteString("UTC ")
	case name == "":
		t = t.UTC()
		b.WriteString("UTC ")
	default:
		b.WriteString("zone " + strconv.Quote(name) + " ")
	}
	b.WriteString(t.Format("2006-01-02T15:04:05 "))
	b.WriteString(strconv.FormatInt(t.Unix(), 10))
}

func dumpValue(b *strings.Builder, k valKind, v reflect.Value) {
	switch k {
	case vEnum:
		b.WriteString("#" + strconv.FormatUint(v.Uint(), 10))
	case vText:
		b.WriteString(strconv.Quote(v.String()))
	case vMText:
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte('|')
			}
			b.WriteString(strconv.Quote(v.Index(i).String()))
		}
		if v.Len() == 0 {
			b.WriteString(`""`)
		}
	case vDateTime:
		b.WriteString("datetime ")
		dumpTime(b, v.Field(0).Interface().(time.Time))
	case vDate:
		b.WriteString("date " + v.Field(0).Interface().(time.Time).Format("2006-01-02"))
	case vDuration:
		d := v.Interface().(ics.Duration)
		fmt.Fprintf(b, "duration %v %d %d %d %d %d", d.Negative, d.Weeks, d.Days, d.Hours, d.Minutes, d.Seconds)
	case vPeriod:
		p := v.Interface().(ics.Period)
		b.WriteString("period ")
		dumpTime(b, p.Start.Time)
		if p.End.IsZero() {
			fmt.Fprintf(b, " for %v %d %d %d %d %d", p.Duration.Negative, p.Duration.Weeks, p.Duration.Days, p.Duration.Hours, p.Duration.Minutes, p.Duration.Seconds)
		} else {
			b.WriteString(" to ")
			dumpTime(b, p.End.Time)
		}
	case vRecur:
		r := v.Interface().(ics.Recur)
		fmt.Fprintf(b, "recur %d %d %d %d", r.Frequency, r.WeekStart, r.Count, r.Interval)
		if !r.Until.IsZero() {
			if r.UntilTime {
				b.WriteString(" until ")
				dumpTime(b, r.Until)
			} else {
				b.WriteString(" until " + r.Until.Format("2006-01-02"))
			}
		}
		fmt.Fprintf(b, " s%v m%v h%v d%v md%v yd%v w%v mo%v p%v", r.BySecond, r.ByMinute, r.ByHour, r.ByDay, r.ByMonthDay, r.ByYearDay, r.ByWeekNum, r.ByMonth, r.BySetPos)
	case vURI:
		u := v.Interface().(ics.URI)
		b.WriteString("uri " + strconv.Quote(u.URL.String()))
	case vCalAddr:
		u := v.Interface().(ics.CalendarAddress)
		b.WriteString("addr " + strconv.Quote(u.URL.String()))
	case vInteger:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case vTFloat:
		f := v.Interface().(ics.TFloat)
		b.WriteString(strconv.FormatFloat(f[0], 'g', -1, 64) + ";" + strconv.FormatFloat(f[1], 'g', -1, 64))
	case vUTCOffset:
		b.WriteString("offset " + strconv.FormatInt(v.Int(), 10))
	case vBinary:
		b.WriteString("binary " + hex.EncodeToString(v.Bytes()))
	case vBoolean:
		b.WriteString(strconv.FormatBool(v.Bool()))
	}
}

// diffLine finds the first differing line of two dumps.
func diffLine(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("want %s\n got %s", x, y)
		}
	}
	return ""
}
