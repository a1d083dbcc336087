package main

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Reference writer: calendar -> component tree -> text.

func emit(cal *ics.Calendar) *node { return emitComp(calSpec, reflect.ValueOf(cal).Elem()) }

func emitComp(c *compSpec, v reflect.Value) *node {
	n := &node{Name: c.Name}
	add := func(l line) {
		n.Order = append(n.Order, len(n.Lines))
		n.Lines = append(n.Lines, l)
	}
	if c.Action != "" {
		add(line{Name: "ACTION", Value: c.Action})
	}
	for i := range c.Props {
		u := &c.Props[i]
		f := v.FieldByName(u.Field)
		switch u.Card {
		case cardOne:
			add(emitProp(u, f))
		case cardOpt:
			if !f.IsNil() {
				add(emitProp(u, f.Elem()))
			}
		case cardMany:
			for k := 0; k < f.Len(); k++ {
				add(emitProp(u, f.Index(k)))
			}
		}
	}
	for _, s := range c.Subs {
		f := v.FieldByName(s.Field)
		for k := 0; k < f.Len(); k++ {
			e, ec := f.Index(k), s.Comp
			if s.Name == "VALARM" {
				e = e.Field(0).Elem().Elem()
				ec = alarmByGo(e.Type().Name())
			}
			n.Order = append(n.Order, ^len(n.Subs))
			n.Subs = append(n.Subs, emitComp(ec, e))
		}
	}
	return n
}

func quoteParam(s string) pval {
	return pval{enc6868(s), strings.ContainsAny(s, ";:,")}
}

func emitProp(u *propUse, v reflect.Value) line {
	ps := u.Prop
	l := line{Name: u.Name}
	put := func(name string, v ...pval) { l.Params = append(l.Params, param{name, v}) }
	for _, q := range ps.Params {
		f := v.FieldByName(q.Field)
		switch q.Kind {
		case pText, pMedia:
			if !f.IsNil() && f.Elem().Len() > 0 {
				put(q.Name, quoteParam(f.Elem().String()))
			}
		case pQText:
			if !f.IsNil() && f.Elem().Len() > 0 {
				put(q.Name, pval{enc6868(f.Elem().String()), true})
			}
		case pQTextL:
			if f.Len() > 0 {
				var p []pval
				for i := 0; i < f.Len(); i++ {
					p = append(p, pval{enc6868(f.Index(i).String()), true})
				}
				put(q.Name, p...)
			}
		case pQURI:
			if !f.IsNil() {
				x := f.Elem().Field(0).Interface().(url.URL)
				if x.String() != "" {
					put(q.Name, pval{enc6868(x.String()), true})
				}
			}
		case pQAddrL:
			if f.Len() > 0 {
				var p []pval
				for i := 0; i < f.Len(); i++ {
					x := f.Index(i).Interface().(ics.CalendarAddress)
					p = append(p, pval{enc6868(x.URL.String()), true})
				}
				put(q.Name, p...)
			}
		case pEnum:
			if !f.IsNil() {
				w := "UNKNOWN"
				if n := int(f.Elem().Uint()); n > 0 && n <= len(q.Words) {
					w = q.Words[n-1]
				}
				put(q.Name, pval{w, false})
			}
		case pOnly:
			if !f.IsNil() {
				put(q.Name, pval{q.Words[0], false})
			}
		case pBool:
			if !f.IsNil() && f.Elem().Bool() {
				put(q.Name, pval{"TRUE", false})
			}
		}
	}
	kinds, vals := getValues(ps, v)
	if len(kinds) == 0 {
		return l
	}
	k, g := kinds[0], vals[0]
	if k == vEnum {
		if n := int(g.Uint()); n < len(ps.Words) {
			l.Value = ps.Words[n]
		}
		return l
	}
	if k != ps.Kinds[0] {
		put("VALUE", pval{valueNames[k], false})
	}
	zone := func(t time.Time) {
		if n := t.Location().String(); t.Location() != time.Local && n != "UTC" && n != "" {
			put("TZID", quoteParam(n))
		}
	}
	switch k {
	case vDateTime:
		zone(g.Field(0).Interface().(time.Time))
	case vPeriod:
		zone(g.Interface().(ics.Period).Start.Time)
	case vRecur:
		if r := g.Interface().(ics.Recur); !r.Until.IsZero() && r.UntilTime {
			zone(r.Until)
		}
	case vBinary:
		put("ENCODING", pval{"BASE64", false})
	}
	l.Value = emitValue(k, g)
	return l
}

func emitTime(t time.Time) string {
	n := t.Location().String()
	switch {
	case t.Location() == time.Local:
	case n == "UTC":
		return t.Format("20060102T150405Z")
	case n == "":
		return t.UTC().Format("20060102T150405Z")
	}
	return t.Format("20060102T150405")
}

var textEsc = strings.NewReplacer(`\`, `\\`, ";", `\;`, ",", `\,`, "\n", `\n`)

func emitText(s string) string {
	return textEsc.Replace(s)
}

func emitDuration(d ics.Duration) string {
	s := "P"
	if d.Negative {
		s = "-P"
	}
	if d.Weeks != 0 {
		return s + strconv.FormatUint(uint64(d.Weeks), 10) + "W"
	}
	if d.Days != 0 {
		s += strconv.FormatUint(uint64(d.Days), 10) + "D"
		if d.Hours == 0 && d.Minutes == 0 && d.Seconds == 0 {
			return s
		}
	}
	return s + fmt.Sprintf("T%dH%dM%dS", d.Hours, d.Minutes, d.Seconds)
}

func emitValue(k valKind, g reflect.Value) string {
	switch k {
	case vText:
		return emitText(g.String())
	case vMText:
		var p []string
		for i := 0; i < g.Len(); i++ {
			p = append(p, emitText(g.Index(i).String()))
		}
		return strings.Join(p, ",")
	case vDateTime:
		return emitTime(g.Field(0).Interface().(time.Time))
	case vDate:
		return g.Field(0).Interface().(time.Time).Format("20060102")
	case vDuration:
		return emitDuration(g.Interface().(ics.Duration))
	case vPeriod:
		p := g.Interface().(ics.Period)
		if p.End.IsZero() {
			return emitTime(p.Start.Time) + "/" + emitDuration(p.Duration)
		}
		return emitTime(p.Start.Time) + "/" + emitTime(p.End.Time)
	case vRecur:
		return emitRecur(g.Interface().(ics.Recur))
	case vURI:
		u := g.Interface().(ics.URI)
		return u.URL.String()
	case vCalAddr:
		u := g.Interface().(ics.CalendarAddress)
		return u.URL.String()
	case vInteger:
		return strconv.FormatInt(g.Int(), 10)
	case vTFloat:
		f := g.Interface().(ics.TFloat)
		return strconv.FormatFloat(f[0], 'f', -1, 64) + ";" + strconv.FormatFloat(f[1], 'f', -1, 64)
	case vUTCOffset:
		o := g.Int()
		s := "+"
		if o < 0 {
			s, o = "-", -o
		}
		s += fmt.Sprintf("%02d%02d", o/3600, o/60%60)
		if o%60 != 0 {
			s += fmt.Sprintf("%02d", o%60)
		}
		return s
	case vBinary:
		return base64.StdEncoding.EncodeToString(g.Bytes())
	case vBoolean:
		return strings.ToUpper(strconv.FormatBool(g.Bool()))
	}
	panic("kind")
}

func joinInts[T ~int8 | ~int16 | ~uint8](v []T) string {
	var s []string
	for _, n := range v {
		s = append(s, strconv.Itoa(int(n)))
	}
	return strings.Join(s, ",")
}

func recurParts(r ics.Recur) []string {
	p := []string{"FREQ=" + freqs[r.Frequency]}
	if !r.Until.IsZero() {
		if r.UntilTime {
			p = append(p, "UNTIL="+emitTime(r.Until))
		} else {
			p = append(p, "UNTIL="+r.Until.Format("20060102"))
		}
	}
	if r.Count != 0 {
		p = append(p, "COUNT="+strconv.FormatUint(r.Count, 10))
	}
	if r.Interval != 0 {
		p = append(p, "INTERVAL="+strconv.FormatUint(r.Interval, 10))
	}
	if len(r.BySecond) > 0 {
		p = append(p, "BYSECOND="+joinInts(r.BySecond))
	}
	if len(r.ByMinute) > 0 {
		p = append(p, "BYMINUTE="+joinInts(r.ByMinute))
	}
	if len(r.ByHour) > 0 {
		p = append(p, "BYHOUR="+joinInts(r.ByHour))
	}
	if len(r.ByDay) > 0 {
		var s []string
		for _, d := range r.ByDay {
			o := ""
			if d.Occurrence != 0 {
				o = strconv.Itoa(int(d.Occurrence))
			}
			s = append(s, o+weekDays[d.Day])
		}
		p = append(p, "BYDAY="+strings.Join(s, ","))
	}
	if len(r.ByMonthDay) > 0 {
		p = append(p, "BYMONTHDAY="+joinInts(r.ByMonthDay))
	}
	if len(r.ByYearDay) > 0 {
		p = append(p, "BYYEARDAY="+joinInts(r.ByYearDay))
	}
	if len(r.ByWeekNum) > 0 {
		p = append(p, "BYWEEKNO="+joinInts(r.ByWeekNum))
	}
	if len(r.ByMonth) > 0 {
		p = append(p, "BYMONTH="+joinInts(r.ByMonth))
	}
	if len(r.BySetPos) > 0 {
		p = append(p, "BYSETPOS="+joinInts(r.BySetPos))
	}
	if r.WeekStart != 0 {
		p = append(p, "WKST="+weekDays[r.WeekStart])
	}
	return p
}

func emitRecur(r ics.Recur) string { return strings.Join(recurParts(r), ";") }

func (l *line) String() string {
	var b strings.Builder
	l.write(&b)
	return b.String()
}

func (l *line) write(b *strings.Builder) {
	b.WriteString(l.Name)
	for _, p := range l.Params {
		b.WriteByte(';')
		b.WriteString(p.Name)
		for i, v := range p.Vals {
			if i == 0 {
				b.WriteByte('=')
			} else {
				b.WriteByte(',')
			}
			if v.Quoted {
				b.WriteByte('"')
				b.WriteString(v.S)
				b.WriteByte('"')
			} else {
				b.WriteString(v.S)
			}
		}
	}
	b.WriteByte(':')
	b.WriteString(l.Value)
}

// logical lists the unfolded lines of a tree.
func (n *node) logical(out []string) []string {
	out = append(out, "BEGIN:"+n.Name)
	for _, o := range n.Order {
		if o >= 0 {
			out = append(out, n.Lines[o].String())
		} else {
			out = n.Subs[^o].logical(out)
		}
	}
	return append(out, "END:"+n.Name)
}

func joinLines(lines []string) string {
	return strings.Join(lines, "\r\n") + "\r\n"
}

func (n *node) text() string { return joinLines(n.logical(nil)) }

// refFold folds at the given width in octets without regard to characters.
func refFold(text string, width int) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(text, "\r\n") {
		body := strings.TrimSuffix(l, "\r\n")
		for len(body) > width {
			b.WriteString(body[:width])
			b.WriteString("\r\n ")
			body = body[width:]
		}
		b.WriteString(body)
		if len(l) >= 2 && strings.HasSuffix(l, "\r\n") {
			b.WriteString("\r\n")
		}
	}
	return b.String()
}
