package main

import (
	"fmt"
	"reflect"
	"strings"

	"vimagination.zapto.org/ics"
)

// Sizes: each construct that can be repeated or lengthened, in every small size
// and around every power of two, so that fixed buffers and narrow counters in
// the implementation are crossed.

func sizesUpTo(max int) (out []int) {
	for n := 0; n <= 140 && n <= max; n++ {
		out = append(out, n)
	}
	for p := 256; p <= 1<<20; p *= 2 {
		for n := p - 2; n <= p+2; n++ {
			if n <= max {
				out = append(out, n)
			}
		}
	}
	return
}

type sizeKind struct {
	Name string
	Max  int
	Obj  func(n int) *ics.Calendar
	Text func(n int) string
}

func numbered(n int) string { return fmt.Sprintf("%d.%d", n, n*n) }

func sizeTexts(fs map[string]func(int) string, max int, obj func(string) *ics.Calendar, name string) (out []sizeKind) {
	for _, k := range []string{"a", "é", "日", "𝒳", ",", "\n", "mixed"} {
		f := fs[k]
		out = append(out, sizeKind{Name: name + " of " + k, Max: max, Obj: func(n int) *ics.Calendar { return obj(f(n)) }})
	}
	return
}

var sizeKinds = map[string][]sizeKind{}

func fillSizes() {
	fs := map[string]func(int) string{}
	for _, k := range []string{"a", "é", "日", "𝒳", ",", "\n"} {
		fs[k] = func(n int) string { return strings.Repeat(k, n) }
	}
	fs["mixed"] = func(n int) string {
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			b.WriteString([]string{"abc", "é", ", ", "\\", "日", ";", "\n", numbered(i)}[i*i%8])
		}
		return b.String()
	}
	in := func(path string, k valKind) func(any) *ics.Calendar {
		p := placeMap[path]
		return func(v any) *ics.Calendar { return p.object(p.valued(k, reflect.ValueOf(v))) }
	}
	text := func(path string) func(string) *ics.Calendar {
		f := in(path, vText)
		return func(s string) *ics.Calendar { return f(ics.Text(s)) }
	}
	add := func(group string, k ...sizeKind) { sizeKinds[group] = append(sizeKinds[group], k...) }

	for _, p := range []string{"VEVENT.SUMMARY", "VEVENT.UID", "VTODO.DESCRIPTION", "VCALENDAR.PRODID", "VEVENT/DISPLAY.DESCRIPTION", "VTIMEZONE.TZID", "STANDARD.TZNAME", "VJOURNAL.COMMENT"} {
		add("texts", sizeTexts(fs, 1<<16+2, text(p), p)...)
	}
	cats := in("VEVENT.CATEGORIES", vMText)
	res := in("VTODO.RESOURCES", vMText)
	list := func(f func(any) *ics.Calendar, e func(int) string) func(int) *ics.Calendar {
		return func(n int) *ics.Calendar {
			l := make(ics.MText, n+1)
			for i := range l {
				l[i] = ics.Text(e(i))
			}
			return f(l)
		}
	}
	add("texts",
		sizeKind{Name: "CATEGORIES items", Max: 1<<13 + 2, Obj: list(cats, numbered)},
		sizeKind{Name: "empty RESOURCES items", Max: 1<<13 + 2, Obj: list(res, func(int) string { return "" })},
		sizeKind{Name: "escaped RESOURCES items", Max: 1<<13 + 2, Obj: list(res, func(i int) string { return strings.Repeat(",", i%3) })},
	)

	att := placeMap["VEVENT.ATTENDEE"]
	par := func(q string) func(...string) *ics.Calendar {
		sp := att.U.Prop.param(q)
		return func(s ...string) *ics.Calendar {
			v := clone(propDefault(att.U.Prop))
			setParamText(v, sp, s...)
			return att.object(v)
		}
	}
	for _, q := range []string{"CN", "DIR", "SENT-BY"} {
		f := par(q)
		add("params", sizeTexts(fs, 1<<16+2, func(s string) *ics.Calendar { return f(s) }, q)...)
	}
	add("params",
		sizeKind{Name: "MEMBER items", Max: 1<<13 + 2, Obj: func(n int) *ics.Calendar {
			var l []string
			for i := 0; i <= n; i++ {
				l = append(l, "mailto:"+numbered(i))
			}
			return par("MEMBER")(l...)
		}},
		sizeKind{Name: "carets", Max: 1<<13 + 2, Obj: func(n int) *ics.Calendar { return par("CN")(strings.Repeat("^n\"'", n)) }},
	)

	// repeated properties
	for _, p := range places {
		if p.U.Card != cardMany || p.F.Path != "VEVENT" && p.F.Path != "VFREEBUSY" && p.F.Path != "STANDARD" && p.F.Path != "VEVENT/EMAIL" {
			continue
		}
		alts, _ := genOpts{lvl: 1}.alts(p.U.Prop)
		add("repeats", sizeKind{Name: p.F.Path + "." + p.U.Name + " lines", Max: 1<<12 + 2, Obj: func(n int) *ics.Calendar {
			vals := make([]reflect.Value, n)
			for i := range vals {
				vals[i] = alts[i*i%len(alts)]
			}
			return p.object(vals...)
		}})
	}

	// repeated components
	for _, u := range calSpec.Subs {
		add("components", sizeKind{Name: u.Name + " components", Max: 1<<11 + 2, Obj: func(n int) *ics.Calendar {
			cal := newCal()
			f := reflect.ValueOf(cal).Elem().FieldByName(u.Field)
			for i := 0; i < n; i++ {
				e := reflect.New(u.Comp.Type).Elem()
				fill(nil, u.Comp, e, genOpts{noDev: true})
				id := e.FieldByName("UID")
				if !id.IsValid() {
					id = e.FieldByName("TimezoneID")
				}
				id.SetString(numbered(i))
				f.Set(reflect.Append(f, e))
			}
			return cal
		}})
		for _, w := range u.Comp.Subs {
			add("components", sizeKind{Name: w.Name + " in " + u.Name, Max: 1<<11 + 2, Obj: func(n int) *ics.Calendar {
				cal := newCal()
				f := reflect.ValueOf(cal).Elem().FieldByName(u.Field)
				e := reflect.New(u.Comp.Type).Elem()
				fill(nil, u.Comp, e, genOpts{noDev: true})
				g := e.FieldByName(w.Field)
				g.Set(reflect.Zero(g.Type()))
				for i := 0; i <= n; i++ {
					if w.Name == "VALARM" {
						g.Set(reflect.Append(g, newAlarm(nil, actions[i*i%len(actions)], genOpts{noDev: true})))
						continue
					}
					o := reflect.New(w.Comp.Type).Elem()
					fill(nil, w.Comp, o, genOpts{noDev: true})
					o.FieldByName("TimezoneOffsetTo").SetInt(int64(i * 7 % 86400))
					g.Set(reflect.Append(g, o))
				}
				f.Set(reflect.Append(f, e))
				return cal
			}})
		}
	}

	// recurrence lists
	rr := in("VEVENT.RRULE", vRecur)
	rt := reflect.TypeOf(ics.Recur{})
	for i := 0; i < rt.NumField(); i++ {
		if rt.Field(i).Type.Kind() != reflect.Slice {
			continue
		}
		add("rules", sizeKind{Name: rt.Field(i).Name + " elements", Max: 1<<12 + 2, Obj: func(n int) *ics.Calendar {
			r := ics.Recur{Frequency: ics.Yearly}
			f := reflect.ValueOf(&r).Elem().Field(i)
			for k := 0; k < n; k++ {
				e := reflect.New(f.Type().Elem()).Elem()
				switch e.Kind() {
				case reflect.Struct:
					e.Set(reflect.ValueOf(ics.DayRecur{Day: ics.WeekDay(1 + k%7), Occurrence: int8(k*k%107 - 53)}))
				case reflect.Uint8:
					e.SetUint(uint64(1 + k*k%12))
				default:
					e.SetInt(int64(1 + k*k%31))
				}
				f.Set(reflect.Append(f, e))
			}
			return rr(r)
		}})
	}

	bin := in("VEVENT.ATTACH", vBinary)
	uri := in("VEVENT.URL", vURI)
	add("values",
		sizeKind{Name: "binary octets", Max: 1<<16 + 2, Obj: func(n int) *ics.Calendar {
			b := make(ics.Binary, n)
			for i := range b {
				b[i] = byte(i * i)
			}
			return bin(b)
		}},
		sizeKind{Name: "URI octets", Max: 1<<16 + 2, Obj: func(n int) *ics.Calendar {
			return uri(ics.URI{URL: mustURL("http://a/" + strings.Repeat("b", n))})
		}},
	)

	// texts
	ev := placeMap["VEVENT"].text
	line := func(name string, max int, f func(n int) string) sizeKind {
		return sizeKind{Name: name, Max: max, Text: func(n int) string { return ev(f(n)) }}
	}
	many := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	x := strings.Repeat
	add("lines",
		line("property name", 1<<16+2, func(n int) string { return "X" + x("A", n) + ":v" }),
		line("parameter name", 1<<16+2, func(n int) string { return "COMMENT;X" + x("A", n) + "=b:v" }),
		line("parameter value", 1<<16+2, func(n int) string { return "COMMENT;LANGUAGE=" + x("a", n) + ";X-A=b:v" }),
		line("quoted value", 1<<16+2, func(n int) string { return "COMMENT;LANGUAGE=\"" + x(";", n) + "\":v" }),
		line("value", 1<<16+2, func(n int) string { return "COMMENT:" + x("v", n) }),
		line("value of quotes", 1<<16+2, func(n int) string { return "COMMENT:" + x("\":", n) }),
		line("unterminated quote", 1<<16+2, func(n int) string { return "COMMENT;LANGUAGE=\"" + x("a", n) + ":v" }),
		line("control after", 1<<16+2, func(n int) string { return "COMMENT:" + x("a", n) + "\x01" }),
		line("control in parameter after", 1<<16+2, func(n int) string { return "COMMENT;LANGUAGE=" + x("a", n) + "\x01:v" }),
	)
	add("unknown",
		line("unknown parameters", 1<<12+2, func(n int) string {
			return "COMMENT" + many(n, func(i int) string { return ";X-" + fmt.Sprint(i) + "=" + fmt.Sprint(i) }) + ";LANGUAGE=en:v"
		}),
		line("values of an unknown parameter", 1<<12+2, func(n int) string {
			return "COMMENT;X-A=b" + many(n, func(i int) string { return []string{",c", ",\"d;e\"", ","}[i%3] }) + ";LANGUAGE=en:v"
		}),
		line("unknown parameter value", 1<<16+2, func(n int) string { return "DTSTART;X-A=\"" + x(":", n) + "\":20240229T120000Z" }),
		line("unknown property value", 1<<16+2, func(n int) string { return "X-A;B=c:" + x("d", n) + "\r\nCOMMENT:v" }),
		line("unknown properties", 1<<12+2, func(n int) string {
			return many(n, func(i int) string { return "X-" + fmt.Sprint(i) + ":" + numbered(i) + "\r\n" }) + "COMMENT:v"
		}),
		line("unknown components", 1<<12+2, func(n int) string {
			return many(n, func(i int) string { return "BEGIN:X-" + fmt.Sprint(i) + "\r\nUID:z\r\nEND:X-" + fmt.Sprint(i) + "\r\n" }) + "COMMENT:v"
		}),
		line("lines of an unknown component", 1<<12+2, func(n int) string {
			return "BEGIN:X-A\r\n" + x("UID:z\r\n", n) + "END:X-A\r\nCOMMENT:v"
		}),
		line("depth of unknown components", 1<<12+2, func(n int) string {
			return x("BEGIN:X-A\r\n", n) + x("END:X-A\r\n", n) + "COMMENT:v"
		}),
		line("depth with a missing end", 1<<12+2, func(n int) string {
			return x("BEGIN:X-A\r\n", n+1) + x("END:X-A\r\n", n) + "COMMENT:v"
		}),
		line("depth with an extra end", 1<<12+2, func(n int) string {
			return x("BEGIN:X-A\r\n", n) + x("END:X-A\r\n", n+1) + "COMMENT:v"
		}),
		line("depth with a wrong innermost end", 1<<12+2, func(n int) string {
			return x("BEGIN:X-A\r\n", n) + "BEGIN:X-B\r\nEND:X-C\r\n" + x("END:X-A\r\n", n) + "COMMENT:v"
		}),
		line("unknown alarm properties", 1<<12+2, func(n int) string {
			return "BEGIN:VALARM\r\n" + x("X-A:b\r\n", n) + "ACTION:DISPLAY\r\nDESCRIPTION:d\r\nTRIGGER:-PT1H\r\nEND:VALARM"
		}),
	)
	for _, w := range []int{1, 2, 7, 60, 74} {
		add("folds", line(fmt.Sprintf("folds every %d octets", w), 1<<13+2, func(n int) string {
			var b strings.Builder
			b.WriteString("COMMENT:")
			for i := 0; i < n; i++ {
				b.WriteString(strings.Repeat("v", w) + "\r\n" + []string{" ", "\t"}[i%2])
			}
			return b.String()
		}))
	}
	add("folds",
		line("empty folds", 1<<13+2, func(n int) string { return "COMMENT:a" + x("\r\n ", n) + "b" }),
		line("folds of spaces", 1<<13+2, func(n int) string { return "COMMENT:a" + x("\r\n  ", n) + "b" }),
		line("text before a fold in a character", 1<<13+2, func(n int) string { return "COMMENT:" + x("a", n) + "\xe6\r\n \x97\r\n\t\xa5" }),
	)
	add("values",
		line("zeros before an integer", 1<<10, func(n int) string { return "PRIORITY:" + x("0", n) + "7" }),
		line("digits of a fraction", 1<<10, func(n int) string { return "GEO:1." + x("0", n) + "5;2." + x("3", n) + "1" }),
		line("zeros before a duration", 1<<10, func(n int) string { return "DTSTART:20240229T120000Z\r\nDURATION:PT" + x("0", n) + "7S" }),
	)
}

func init() { lateSetups = append(lateSetups, fillSizes) }

// sizes explores all sizes of the constructs of some groups.
func sizes(name string, groups ...string) *suite {
	return &suite{Name: name, About: "every repeatable construct (" + strings.Join(groups, ", ") + ") in every size up to 140 and around each power of two up to its maximum", Run: func(c *Ctx) {
		var ks []sizeKind
		for _, g := range groups {
			ks = append(ks, sizeKinds[g]...)
		}
		k := ks[c.Choose(len(ks))]
		ns := sizesUpTo(k.Max)
		n := ns[c.Choose(len(ns))]
		if k.Text != nil {
			c.judge("size: "+k.Name, k.Text(n))
		} else {
			checkObject(c, k.Obj(n))
		}
	}}
}
