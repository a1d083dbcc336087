package main

import (
	"fmt"
	"reflect"
	"strings"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// C02: decode, encode, decode, encode.

func stable(c *Ctx, text string) {
	cal, err, p := c.decode(text)
	if p {
		return
	}
	if err != nil {
		c.Outcome("rejected")
		return
	}
	_, v, _ := refDecode(text)
	c.Note("%s %q", v, text)
	rv, _ := refValid(cal)
	d1 := dump(cal)
	out, err, p := c.encode(cal)
	if p {
		return
	}
	if err != nil {
		if v == accept && rv == accept {
			c.Fail("decoded calendar refused by Encode", "input: %q\ncalendar:\n%s\nerror: %v", text, d1, err)
		}
		c.Outcome("refused")
		return
	}
	c.Outcome(out)
	cal2, err, p := c.decode(out)
	if p {
		return
	}
	if v == unspec || rv == unspec {
		return
	}
	if err != nil {
		c.Fail("re-encoded text rejected", "input: %q\noutput: %q\nerror: %v", text, out, err)
		return
	}
	if d2 := dump(cal2); d2 != d1 {
		c.Fail("second decode differs", "input: %q\noutput: %q\n%s", text, out, diffLine(d1, d2))
		return
	}
	out2, err, p := c.encode(cal2)
	if p {
		return
	}
	if err != nil {
		c.Fail("second encode fails", "input: %q\nerror: %v", text, err)
	} else if out2 != out {
		c.Fail("second encode differs", "input: %q\nfirst: %q\nsecond: %q", text, out, out2)
	}
}

// restyle rewrites a tree into another spelling of the same calendar. Each
// style is one deviation.
var styles = []struct {
	Name string
	Do   func(*node)
	Text func(string) string
}{
	{"lower-case names", func(n *node) {
		each(n, func(n *node) { n.Name = strings.ToLower(n.Name) }, func(l *line) {
			l.Name = strings.ToLower(l.Name)
			for i := range l.Params {
				l.Params[i].Name = strings.ToLower(l.Params[i].Name)
			}
		})
	}, nil},
	{"parameters reversed", func(n *node) {
		each(n, nil, func(l *line) {
			for i, j := 0, len(l.Params)-1; i < j; i, j = i+1, j-1 {
				l.Params[i], l.Params[j] = l.Params[j], l.Params[i]
			}
		})
	}, nil},
	{"everything quoted", func(n *node) {
		each(n, nil, func(l *line) {
			for i := range l.Params {
				for j := range l.Params[i].Vals {
					l.Params[i].Vals[j].Quoted = true
				}
			}
		})
	}, nil},
	{"lines reversed", func(n *node) {
		each(n, func(n *node) {
			// keep the relative order of lines of one name and of sub-components
			var names []string
			by := map[string][]int{}
			for _, o := range n.Order {
				k := "/"
				if o >= 0 {
					k = n.Lines[o].Name
				}
				if by[k] == nil {
					names = append(names, k)
				}
				by[k] = append(by[k], o)
			}
			n.Order = nil
			for i := len(names) - 1; i >= 0; i-- {
				n.Order = append(n.Order, by[names[i]]...)
			}
		}, nil)
	}, nil},
	{"folded every 20 octets", nil, func(s string) string { return refFold(s, 20) }},
	{"folded with tabs every octet", nil, func(s string) string {
		return strings.ReplaceAll(refFold(s, 1), "\r\n ", "\r\n\t")
	}},
	{"capital N escapes", func(n *node) {
		each(n, nil, func(l *line) {
			ps := props[strings.ToUpper(l.Name)]
			if ps == nil || ps.Kinds[0] != vText && ps.Kinds[0] != vMText {
				return
			}
			var b strings.Builder
			for i := 0; i < len(l.Value); i++ {
				b.WriteByte(l.Value[i])
				if l.Value[i] == '\\' && i+1 < len(l.Value) {
					i++
					if l.Value[i] == 'n' {
						b.WriteByte('N')
					} else {
						b.WriteByte(l.Value[i])
					}
				}
			}
			l.Value = b.String()
		})
	}, nil},
	{"no final line end", nil, func(s string) string { return strings.TrimSuffix(s, "\r\n") }},
	{"trailing data", nil, func(s string) string { return strings.TrimSuffix(s, "\r\n") + "\r\nBEGIN:VCALENDAR\r\njunk" }},
	{"default VALUE announced", func(n *node) {
		each(n, nil, func(l *line) {
			for _, q := range l.Params {
				if strings.EqualFold(q.Name, "VALUE") {
					return
				}
			}
			if ps := props[strings.ToUpper(l.Name)]; ps != nil && len(ps.Kinds) > 1 {
				l.Params = append(l.Params, param{"VALUE", []pval{{valueNames[ps.Kinds[0]], false}}})
			}
		})
	}, nil},
	{"unknown lines and parameters", func(n *node) {
		each(n, func(n *node) {
			n.Subs = append(n.Subs, &node{Name: "X-COMP", Lines: []line{{Name: "UID", Value: "other"}}, Order: []int{0}})
			if !strings.EqualFold(n.Name, "VALARM") {
				n.Order = append([]int{^(len(n.Subs) - 1)}, n.Order...)
			}
			n.put(line{Name: "X-PROP", Value: "a:b;c"})
		}, func(l *line) {
			l.Params = append([]param{{"X-PAR", []pval{{"1", false}, {"a:b", true}}}}, l.Params...)
		})
	}, nil},
}

func each(n *node, comp func(*node), ln func(*line)) {
	subs := n.Subs
	if ln != nil {
		for i := range n.Lines {
			ln(&n.Lines[i])
		}
	}
	if comp != nil {
		comp(n)
	}
	for _, s := range subs {
		each(s, comp, ln)
	}
}

func restyled(c *Ctx, n *node, free bool) string {
	var text []func(string) string
	for _, s := range styles {
		var on bool
		if free {
			on = c.Bool()
		} else {
			on = c.Dev(2) == 1
		}
		if on {
			if s.Do != nil {
				s.Do(n)
			}
			if s.Text != nil {
				text = append(text, s.Text)
			}
		}
	}
	t := n.text()
	for _, f := range text {
		t = f(t)
	}
	return t
}

// restyleCheck: another spelling decodes to the same calendar and is stable.
func restyleCheck(c *Ctx, cal *ics.Calendar, free bool) {
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	t := restyled(c, emit(cal), free)
	if !c.expectDecode("respelled calendar", t, dump(cal)) {
		return
	}
	stable(c, t)
}

// rich is a calendar using most of the vocabulary at once.
func rich() *ics.Calendar {
	cal := newCal()
	cv := reflect.ValueOf(cal).Elem()
	for _, u := range calSpec.Subs {
		for k := 0; k < 2; k++ {
			e := reflect.New(u.Comp.Type).Elem()
			fullComp(u.Comp, e, k)
			f := cv.FieldByName(u.Field)
			f.Set(reflect.Append(f, e))
		}
	}
	return cal
}

func fullComp(s *compSpec, v reflect.Value, k int) {
	skip := map[string]bool{}
	for _, r := range s.Rules {
		if r.Kind == ruleXor {
			skip[[]string{r.A, r.B}[k%2]] = true
		}
	}
	for i := range s.Props {
		u := &s.Props[i]
		if skip[u.Name] {
			continue
		}
		a := propAlts(u.Prop, 1)
		if u.Card == cardMany {
			setProp(v, u, a[(k)%len(a)], a[len(a)-1])
		} else {
			setProp(v, u, a[(k*3)%len(a)])
		}
	}
	for _, u := range s.Subs {
		f := v.FieldByName(u.Field)
		if u.Name == "VALARM" {
			for _, ac := range actions {
				a := comps["VALARM#"+ac]
				p := reflect.New(a.Type)
				fullComp(a, p.Elem(), k)
				f.Set(reflect.Append(f, reflect.ValueOf(ics.Alarm{AlarmType: p.Interface().(ics.AlarmType)})))
			}
			continue
		}
		e := reflect.New(u.Comp.Type).Elem()
		fullComp(u.Comp, e, k)
		f.Set(reflect.Append(f, e))
	}
}

// ---------------------------------------------------------------------------
// C08

func refusal(c *Ctx, cal *ics.Calendar) {
	v, why := refValid(cal)
	want := dump(cal)
	var w countWriter
	err, p := c.encodeTo(&w, cal)
	if p {
		return
	}
	c.Note("%s %s calendar:\n%s", v, why, want)
	if err != nil && (w.Len() > 0 || w.calls > 0) {
		c.Fail("bytes written before the refusal", "calendar:\n%s\nerror: %v\n%d calls wrote %q", want, err, w.calls, w.String())
		return
	}
	switch v {
	case accept:
		if err != nil {
			c.Fail("valid calendar refused", "calendar:\n%s\nerror: %v", want, err)
		} else if w.Len() == 0 {
			c.Fail("nothing written", "calendar:\n%s", want)
		}
		c.Outcome("ok", w.String())
	case reject:
		if err == nil {
			c.Fail("invalid calendar encoded: "+sigWhy(why), "%s\ncalendar:\n%s\noutput: %q", why, want, w.String())
		}
		c.Outcome("refused", why)
	default:
		c.Outcome("unspecified")
	}
}

func sigWhy(s string) string { return clip(s, 60) }

// badPosition: an invalid (or valid) sibling at any position of any list.
func badPosition(c *Ctx) {
	cal := rich()
	cv := reflect.ValueOf(cal).Elem()
	var comps []reflect.Value
	var specs []*compSpec
	var walk func(s *compSpec, v reflect.Value)
	walk = func(s *compSpec, v reflect.Value) {
		comps, specs = append(comps, v), append(specs, s)
		for _, u := range s.Subs {
			f := v.FieldByName(u.Field)
			for i := 0; i < f.Len(); i++ {
				if u.Name == "VALARM" {
					e := f.Index(i).Field(0).Elem().Elem()
					walk(alarmByGo(e.Type().Name()), e)
				} else {
					walk(u.Comp, f.Index(i))
				}
			}
		}
	}
	walk(calSpec, cv)
	n := c.Choose(len(comps))
	s, v := specs[n], comps[n]
	if len(s.Props) == 0 {
		c.Skip()
	}
	u := &s.Props[c.Choose(len(s.Props))]
	bad := badPropAlts(u.Prop)
	if len(bad) == 0 {
		c.Skip()
	}
	b := bad[c.Choose(len(bad))]
	f := v.FieldByName(u.Field)
	switch u.Card {
	case cardOne:
		f.Set(b)
	case cardOpt:
		if f.IsNil() {
			c.Skip()
		}
		p := reflect.New(u.Prop.Type)
		p.Elem().Set(b)
		f.Set(p)
	case cardMany:
		f.Index(c.Choose(f.Len())).Set(b)
	}
	refusal(c, cal)
}

// ---------------------------------------------------------------------------
// C10

// occurrences: every property of a component kind present 0, 1 or 2 times
// (deviation), lines in a rotated or swapped order.
func occurrences(c *Ctx, big bool) {
	f := focuses[c.Choose(len(focuses))]
	root, at := minimal(f)
	if f.Path == "VTIMEZONE" {
		at.Subs, at.Order = nil, at.Order[:len(at.Lines)]
	}
	var ls []line
	seen := map[string]int{}
	for i := range f.Spec.Props {
		u := &f.Spec.Props[i]
		alts := propAlts(u.Prop, 0)
		def := 0
		if u.Card == cardOne {
			def = 1
		}
		n := c.Dev(4)
		// deviation 0: default count; others: the remaining counts up to 3
		count := n
		if n == 0 {
			count = def
		} else if n <= def {
			count = n - 1
		}
		for k := 0; k < count; k++ {
			ls = append(ls, emitProp(u, alts[k%len(alts)]))
		}
		seen[u.Name] = count
	}
	if f.Spec.Action != "" {
		ls = append([]line{{Name: "ACTION", Value: f.Spec.Action}}, ls...)
	}
	at.Lines, at.Order = nil, nil
	// placement: reverse all, move the last line first, swap neighbours, or
	// interleave the sub-components
	switch n := c.Dev(4); {
	case n == 1:
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
	case n == 2 && len(ls) > 1:
		ls = append(ls[len(ls)-1:len(ls):len(ls)], ls[:len(ls)-1]...)
	case n == 3 && len(ls) > 1:
		for i := 0; i+1 < len(ls); i += 2 {
			ls[i], ls[i+1] = ls[i+1], ls[i]
		}
	}
	for _, l := range ls {
		at.Order = append(at.Order, len(at.Lines))
		at.Lines = append(at.Lines, l)
	}
	for _, s := range f.Spec.Subs {
		if s.Name == "VALARM" || f.Path == "VCALENDAR" {
			continue
		}
		n := c.Dev(3)
		if s.Name == "STANDARD" {
			n = []int{1, 0, 2}[n]
		}
		for k := 0; k < n; k++ {
			e := reflect.New(s.Comp.Type).Elem()
			fill(nil, s.Comp, e, genOpts{noDev: true})
			at.Subs = append(at.Subs, emitComp(s.Comp, e))
			if c.Dev(2) == 1 {
				at.Order = append([]int{^(len(at.Subs) - 1)}, at.Order...)
			} else {
				at.Order = append(at.Order, ^(len(at.Subs) - 1))
			}
		}
	}
	c.judge("occurrences", root.text())
}

// permutations: all orders of the lines of a component with a few properties.
func permutations(c *Ctx, extra int) {
	f := focuses[c.Choose(len(focuses))]
	if len(f.Spec.Props) == 0 {
		c.Skip()
	}
	root, at := minimal(f)
	at.Order = at.Order[:len(at.Order):len(at.Order)]
	// up to `extra` further properties, increasing index
	from := 0
	for k := 0; k < extra; k++ {
		n := c.Choose(len(f.Spec.Props) - from + 1)
		if n == 0 {
			break
		}
		u := &f.Spec.Props[from+n-1]
		from += n - 1
		if u.Card == cardMany {
			alts := propAlts(u.Prop, 0)
			at.put(emitProp(u, alts[k%len(alts)]))
		} else if from++; u.Card == cardOpt {
			at.put(emitProp(u, propDefault(u.Prop)))
		}
		if from >= len(f.Spec.Props) {
			break
		}
	}
	// a permutation of everything in the component
	var ord []int
	rest := append([]int(nil), at.Order...)
	for len(rest) > 0 {
		n := c.Choose(len(rest))
		ord = append(ord, rest[n])
		rest = append(rest[:n:n], rest[n+1:]...)
	}
	at.Order = ord
	c.judge("order", root.text())
}

// ---------------------------------------------------------------------------
// C09

var treeTokens = []string{
	"END:VCALENDAR", "END:VEVENT", "END:VALARM", "END:X-A", "END:VTIMEZONE", "END:STANDARD", "END:VTODO",
	"BEGIN:VEVENT\r\nUID:@\r\nDTSTAMP:19970714T170000Z",
	"BEGIN:VALARM\r\nACTION:DISPLAY\r\nDESCRIPTION:@\r\nTRIGGER:PT1H",
	"BEGIN:X-A",
	"BEGIN:VTIMEZONE\r\nTZID:@",
	"BEGIN:STANDARD\r\nDTSTART:19970714T170000\r\nTZOFFSETTO:0100\r\nTZOFFSETFROM:0200\r\nCOMMENT:@",
	"BEGIN:VTODO\r\nUID:@\r\nDTSTAMP:19970714T170000Z",
	"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:@",
	"BEGIN:VJOURNAL\r\nUID:@\r\nDTSTAMP:19970714T170000Z", "END:VJOURNAL",
	"BEGIN:VFREEBUSY\r\nUID:@\r\nDTSTAMP:19970714T170000Z", "END:VFREEBUSY",
	"BEGIN:DAYLIGHT\r\nDTSTART:19970714T170000\r\nTZOFFSETTO:0100\r\nTZOFFSETFROM:0200\r\nCOMMENT:@", "END:DAYLIGHT",
	"BEGIN:X-B", "END:X-B", "COMMENT:@", "END:", "BEGIN:", "END;X=1:VEVENT", "BEGIN;X=\":\":VEVENT\r\nUID:@\r\nDTSTAMP:19970714T170000Z", "END:VEVENT ", "BEGIN:VEVENTS", "END:VEVENTS",
}

func treeSequence(c *Ctx, tokens []string, max int) {
	var b strings.Builder
	b.WriteString("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n")
	for i := 0; i < max; i++ {
		n := c.Choose(len(tokens) + 1)
		if n == 0 {
			break
		}
		b.WriteString(strings.ReplaceAll(tokens[n-1], "@", fmt.Sprint(i)))
		b.WriteString("\r\n")
	}
	b.WriteString("END:VCALENDAR\r\n")
	c.judge("nesting", b.String())
}

// balanced trees: every tree up to a size, then one mismatch as a deviation.
var treeKinds = []string{"VEVENT", "VALARM", "X-A", "VTIMEZONE", "STANDARD", "VTODO", "VJOURNAL", "VCALENDAR", "VFREEBUSY", "DAYLIGHT"}

var treeBody = map[string]string{
	"VEVENT": "UID:@\r\nDTSTAMP:19970714T170000Z\r\n", "VTODO": "UID:@\r\nDTSTAMP:19970714T170000Z\r\n", "VJOURNAL": "UID:@\r\nDTSTAMP:19970714T170000Z\r\n", "VFREEBUSY": "UID:@\r\nDTSTAMP:19970714T170000Z\r\n",
	"VALARM": "ACTION:DISPLAY\r\nDESCRIPTION:@\r\nTRIGGER:PT1H\r\n", "X-A": "UID:@\r\nUID:@\r\n", "VTIMEZONE": "TZID:@\r\n", "STANDARD": "DTSTART:19970714T170000\r\nTZOFFSETTO:0100\r\nTZOFFSETFROM:0200\r\nCOMMENT:@\r\n", "DAYLIGHT": "DTSTART:19970714T170000\r\nTZOFFSETTO:0100\r\nTZOFFSETFROM:0200\r\nCOMMENT:@\r\n",
	"VCALENDAR": "VERSION:2.0\r\nPRODID:@\r\n",
}

func balanced(c *Ctx, kinds []string, size, depth int) {
	id := 0
	var b strings.Builder
	var emitTree func(name string, d int)
	emitTree = func(name string, d int) {
		id++
		me := fmt.Sprint(id)
		b.WriteString("BEGIN:" + name + "\r\n")
		b.WriteString(strings.ReplaceAll(treeBody[name], "@", me))
		for id < size && d < depth {
			n := c.Choose(len(kinds) + 1)
			if n == 0 {
				break
			}
			emitTree(kinds[n-1], d+1)
		}
		end := name
		switch c.Dev(4) {
		case 1:
			end = "X-OTHER"
		case 2:
			return // missing
		case 3:
			b.WriteString("END:" + name + "\r\n") // extra
		}
		b.WriteString("END:" + end + "\r\n")
	}
	emitTree("VCALENDAR", 0)
	c.judge("tree", b.String())
}

// ---------------------------------------------------------------------------
// C11

func keywords(c *Ctx) {
	p := places[c.Choose(len(places))]
	ps := p.U.Prop
	if ps.Kinds[0] == vEnum {
		// every keyword, near misses, and combinations
		cands := append([]string(nil), ps.Words...)
		for _, w := range ps.Words {
			cands = append(cands, w+"X", w[1:], w[:len(w)-1], " "+w, w+" ", strings.ReplaceAll(w, "-", "_"), w+","+w, w+";")
		}
		cands = append(cands, "", "UNKNOWN", "X-FOO", "0", "1")
		for _, q := range propList {
			if q.Kinds[0] == vEnum {
				cands = append(cands, q.Words...)
			}
		}
		c.judge("keyword", p.text(p.U.Name+":"+cands[c.Choose(len(cands))]))
		return
	}
	if len(ps.Params) == 0 {
		// a property under another one's name, or a near miss
		c.judge("keyword", p.text(p.U.Name+"X:"+emitValue(ps.Kinds[0], valAlts[ps.Kinds[0]][0])))
		return
	}
	q := ps.Params[c.Choose(len(ps.Params))]
	var cands []string
	if len(q.Words) > 0 {
		cands = append(cands, q.Words...)
		for _, w := range q.Words {
			cands = append(cands, w+"X", w[1:], w[:len(w)-1], " "+w, w+" ", `"`+w+`"`, w+","+w)
		}
		cands = append(cands, "", "UNKNOWN", "X-FOO", "0", `"UNKNOWN"`)
		for _, r := range params {
			cands = append(cands, r.Words...)
		}
	} else {
		cands = []string{"x", `"x"`, `"http://a/b"`, "text/plain", "TRUE", "FALSE", "true", "T", "F", "1", "0", `"a","b"`, "a,b", "", `""`}
	}
	v := cands[c.Choose(len(cands))]
	k := ps.Kinds[c.Choose(len(ps.Kinds))]
	extra := ""
	if k == vBinary {
		extra = ";ENCODING=BASE64"
	}
	c.judge("parameter keyword", p.text(p.head(k)+extra+";"+q.Name+"="+v+":"+emitValue(k, valAlts[k][0])))
}

// lineNames: each property's line placed under every component.
func lineNames(c *Ctx) {
	p := places[c.Choose(len(places))]
	f := focuses[c.Choose(len(focuses))]
	free := placeMap[f.Path]
	l := emitProp(p.U, propDefault(p.U.Prop))
	if f.Spec.prop(p.U.Name) != nil && f.Spec.prop(p.U.Name).Card == cardOne {
		if t := placeMap[f.Path+"."+p.U.Name]; t != nil {
			free = t
		}
	}
	c.judge("property in component", free.text(l.String()))
}

// ---------------------------------------------------------------------------
// C19

// flipCase: all sets of up to Bound letters of structural words flipped, or
// whole words in lower or alternating case.
func flipWord(c *Ctx, w string) string {
	switch c.Dev(3) {
	case 1:
		return strings.ToLower(w)
	case 2:
		b := []byte(w)
		for i := range b {
			if i%2 == 1 {
				b[i] = flip(b[i])
			}
		}
		return string(b)
	}
	return w
}

func flip(b byte) byte {
	switch {
	case b >= 'A' && b <= 'Z':
		return b + 32
	case b >= 'a' && b <= 'z':
		return b - 32
	}
	return b
}

func flipLine(c *Ctx, l *line, f func(*Ctx, string) string) {
	ps := props[l.Name]
	if l.Name == "STATUS" || l.Name == "ACTION" {
		l.Value = f(c, l.Value)
	} else if ps != nil && (ps.Kinds[0] == vEnum || ps.Kinds[0] == vBoolean) {
		l.Value = f(c, l.Value)
	}
	for i := range l.Params {
		q := &l.Params[i]
		sp := params[q.Name]
		if q.Name == "VALUE" || q.Name == "ENCODING" || sp != nil && (sp.Kind == pEnum || sp.Kind == pOnly || sp.Kind == pBool) {
			for j := range q.Vals {
				q.Vals[j].S = f(c, q.Vals[j].S)
			}
		}
		q.Name = f(c, q.Name)
	}
	l.Name = f(c, l.Name)
}

func flipTree(c *Ctx, n *node, out []string, f func(*Ctx, string) string) []string {
	out = append(out, f(c, "BEGIN")+":"+f(c, n.Name))
	for _, o := range n.Order {
		if o >= 0 {
			l := n.Lines[o]
			ps := append([]param(nil), l.Params...)
			for i := range ps {
				ps[i].Vals = append([]pval(nil), ps[i].Vals...)
			}
			l.Params = ps
			flipLine(c, &l, f)
			out = append(out, l.String())
		} else {
			out = flipTree(c, n.Subs[^o], out, f)
		}
	}
	return append(out, f(c, "END")+":"+f(c, n.Name))
}

// flipLetters flips each single letter as its own deviation.
func flipLetters(c *Ctx, w string) string {
	n := 0
	for i := 0; i < len(w); i++ {
		if flip(w[i]) != w[i] {
			n++
		}
	}
	if n == 0 {
		return w
	}
	k := c.Dev(n + 1)
	if k == 0 {
		return w
	}
	b := []byte(w)
	for i := range b {
		if flip(b[i]) != b[i] {
			if k--; k == 0 {
				b[i] = flip(b[i])
			}
		}
	}
	return string(b)
}

func caseFlips(c *Ctx, lvl int, f func(*Ctx, string) string) {
	fo := focuses[c.Choose(len(focuses))]
	// one property alternative per execution so that every keyword occurs
	var cal *ics.Calendar
	if len(fo.Spec.Props) == 0 {
		cal = focused(nil, fo, genOpts{noDev: true})
	} else {
		u := &fo.Spec.Props[c.Choose(len(fo.Spec.Props))]
		alts := propAlts(u.Prop, lvl)
		cal = (&place{F: fo, U: u}).object(alts[c.Choose(len(alts))])
	}
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	want := dump(cal)
	t := joinLines(flipTree(c, emit(cal), nil, f))
	c.Note("%q", t)
	c.Outcome(t)
	c.expectDecode("case", t, want)
}

// ---------------------------------------------------------------------------
// C21

func valueTypes(c *Ctx, lvl int) {
	p := places[c.Choose(len(places))]
	ps := p.U.Prop
	if len(ps.Kinds) < 2 {
		c.Skip()
	}
	names := []string{"", "BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET", "X-FOO", "=", "DATETIME", "DATE,DATE-TIME", `"DATE"`, `"DATE-TIME"`, "date", "Date-Time", "DATE;VALUE=DATE", "DATE-TIME;VALUE=DATE", `"PERIOD"`, `"URI"`, `"DURATION"`, "uri", "binary", "period", "duration", "DATE ", " DATE", "UNKNOWN"}
	n := names[c.Choose(len(names))]
	kinds := []valKind{vText, vDate, vDateTime, vDuration, vPeriod, vURI, vBinary, vInteger, vUTCOffset, vBoolean}
	k := kinds[c.Choose(len(kinds))]
	alts := valAlts[k]
	if lvl == 0 && len(alts) > 3 {
		alts = alts[:3]
	}
	g := alts[c.Choose(len(alts))]
	par := ""
	switch n {
	case "":
	case "=":
		par = ";VALUE="
	default:
		par = ";VALUE=" + n
	}
	switch c.Choose(5) {
	case 1:
		par += ";ENCODING=BASE64"
	case 2:
		par = ";ENCODING=BASE64" + par
	case 3:
		par += ";TZID=America/New_York"
	case 4:
		par = ";X-A=1" + par + ";X-B=2"
	}
	c.judge("value type", p.text(p.U.Name+par+":"+emitValue(k, g)))
}

func valueForms(c *Ctx) {
	p := places[c.Choose(len(places))]
	ps := p.U.Prop
	if len(ps.Kinds) < 2 {
		c.Skip()
	}
	// every subset of forms set, each with one of its first alternatives
	v := reflect.New(ps.Type).Elem()
	for _, k := range ps.Kinds {
		alts := valAlts[k]
		if len(alts) > 3 {
			alts = alts[:3]
		}
		n := c.Choose(1 + len(alts))
		if n > 0 {
			setValue(ps, v, k, alts[n-1])
		}
	}
	cal := p.object(v)
	checkObject(c, cal)
	if c.fail != nil || c.onCal != nil {
		return
	}
	if rv, _ := refValid(cal); rv != accept {
		return
	}
	// announced exactly when not the default
	out, _, pn := c.encode(cal)
	if pn {
		return
	}
	lines, _, _ := refLines(out)
	kinds, _ := getValues(ps, v)
	for _, s := range lines {
		l, ok := refLex(s)
		if !ok || l.Name != p.U.Name {
			continue
		}
		ann := ""
		for _, q := range l.Params {
			if q.Name == "VALUE" && len(q.Vals) == 1 {
				ann = q.Vals[0].S
			}
		}
		want := ""
		if kinds[0] != ps.Kinds[0] {
			want = valueNames[kinds[0]]
		}
		if ann != want {
			c.Fail("type announcement", "line %q announces %q, want %q", s, ann, want)
		}
	}
}

// ---------------------------------------------------------------------------
// C22

var oddLines = []string{
	"X-FOO:bar", "X-FOO;A=b;C=\"d;e:f\",g:h;i=j,k:l", "FOO:", "X-:;", "A;B=:c", "9:9", "-:-",
	"X-DTSTAMP:19970714T170000Z", "UIDX:1", "XUID:1", "DESCRIPTION-X:a;b,c\\", "LAST-MOD:x", "NAME:BEGIN:VEVENT",
	"X-UTF:hé日", "X-ENC;ENCODING=FOO:bar", "X-VALUE;VALUE=NONSENSE:bar", "X-TZ;TZID=Nowhere/Zone:bar",
	"X-LONG:" + "0123456789012345678901234567890123456789012345678901234567890\r\n 12345678901234567890",
	"X-DUP;A=1;A=2:x", "BEGINX:VEVENT", "ENDX:VEVENT", "X-BEGIN:VALARM", "X-END:VCALENDAR", "X-Q;A=\"\":", "X-TAB:\ta\t", "TZOFFSET:1", "METHOD-X:y", "ICALBODY:z",
}

var oddParams = []string{
	";X-A=1", ";X-A=\"a;b:c,d\"", ";X-A=a,b,\"c\"", ";X-A=", ";FOO=BAR;FOO=BAZ", ";A=;B=", ";X-A=^n^'^^^x", ";LANGUAGES=en", ";XLANGUAGE=en", ";VALUES=DATE", ";T=hé日", ";-=1", ";9=9", ";ROLES=X", ";X-TZID=Nowhere/Zone", ";ENC=BASE64", ";DERIVED=TRUE,FALSE", ";X-A=\t ,\"\t \"",
}

func insertLines(c *Ctx, lvl int) {
	f := focuses[c.Choose(len(focuses))]
	cal := focused(c, f, genOpts{lvl: lvl, max: 1})
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	ls := emit(cal).logical(nil)
	want := dump(cal)
	// insert after line i (never before the first BEGIN or after the last END)
	i := 1 + c.Choose(len(ls)-1)
	o := oddLines[c.Choose(len(oddLines))]
	var name string
	if l, ok := refLex(strings.ReplaceAll(o, "\r\n ", "")); ok {
		name = strings.ToUpper(l.Name)
	}
	if props[name] != nil {
		c.Skip()
	}
	all := append(append(append([]string(nil), ls[:i]...), o), ls[i:]...)
	t := joinLines(all)
	c.Note("%q", t)
	c.Outcome(t)
	c.expectDecode("unknown line", t, want)
}

func insertParams(c *Ctx, lvl int) {
	p := places[c.Choose(len(places))]
	alts := propAlts(p.U.Prop, lvl)
	cal := p.object(alts[c.Choose(len(alts))])
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	want := dump(cal)
	ls := emit(cal).logical(nil)
	i := c.Choose(len(ls)) // any line, BEGIN and END included
	l, ok := refLex(ls[i])
	if !ok {
		c.Skip()
	}
	at := c.Choose(len(l.Params) + 1)
	o := oddParams[c.Choose(len(oddParams))]
	head := line{Name: l.Name, Params: l.Params[:at]}
	tail := line{Params: l.Params[at:], Value: l.Value}
	ls[i] = strings.TrimSuffix(head.String(), ":") + o + tail.String()
	t := joinLines(ls)
	c.Note("%q", t)
	c.Outcome(t)
	c.expectDecode("unknown parameter", t, want)
}

// ---------------------------------------------------------------------------
// C23

func alarmTexts(c *Ctx, extra int) {
	host := []string{"VEVENT", "VTODO"}[c.Choose(2)]
	// what the alarm says it is
	acts := append(append([]string(nil), actions...), "", "audio", "Display", "eMAIL", "X-FOO", "PROCEDURE", " AUDIO", "AUDIO ", "AUDIO,DISPLAY")
	act := acts[c.Choose(len(acts))]
	// what its body is made for
	body := comps["VALARM#"+actions[c.Choose(len(actions))]]
	root, at := minimal(focus{host, comps[host]})
	e := reflect.New(body.Type).Elem()
	fill(c, body, e, genOpts{lvl: 0, max: 1})
	al := emitComp(body, e)
	al.drop("ACTION")
	// ACTION lines: where and how many
	put := func(v string) {
		i := c.Choose(len(al.Order) + 1)
		al.Lines = append(al.Lines, line{Name: "ACTION", Value: v})
		al.Order = append(al.Order[:i:i], append([]int{len(al.Lines) - 1}, al.Order[i:]...)...)
	}
	if act != "" {
		put(act)
	}
	switch c.Dev(3) {
	case 1:
		put(act)
	case 2:
		put(actions[c.Choose(len(actions))])
	}
	// drop one of the required lines
	if n := c.Dev(len(al.Order) + 1); n > 0 {
		al.Order = append(al.Order[:n-1:n-1], al.Order[n:]...)
	}
	at.Subs = append(at.Subs, al)
	at.Order = append(at.Order, ^(len(at.Subs) - 1))
	c.judge("alarm", root.text())
}

func alarmObjects(c *Ctx, lvl int) {
	fs := focuses[len(focuses)-2*len(actions):]
	f := fs[c.Choose(len(fs))]
	cal := focused(c, f, genOpts{lvl: lvl, max: 2})
	checkObject(c, cal)
	if c.fail != nil || c.onCal != nil {
		return
	}
	if v, _ := refValid(cal); v != accept {
		return
	}
	out, _, _ := c.encode(cal)
	lines, _, _ := refLines(out)
	in, n := false, 0
	for _, l := range lines {
		switch {
		case l == "BEGIN:VALARM":
			in = true
		case l == "END:VALARM":
			in = false
		case in && strings.HasPrefix(strings.ToUpper(l), "ACTION"):
			n++
			if l != "ACTION:"+f.Spec.Action {
				c.Fail("wrong ACTION written", "%q for %s", l, f.Spec.Action)
			}
		}
	}
	if n != 1 {
		c.Fail("ACTION lines written", "%d in %q", n, out)
	}
}

// alarmLists: several alarms of different kinds keep kind and order.
func alarmLists(c *Ctx, max int) {
	host := []string{"VEVENT", "VTODO"}[c.Choose(2)]
	cal := focused(nil, focus{host, comps[host]}, genOpts{noDev: true})
	al := locate(cal, focus{host, comps[host]}).FieldByName("Alarm")
	for k := 0; k < max; k++ {
		n := c.Choose(len(actions) + 1)
		if n == 0 {
			break
		}
		a := newAlarm(nil, actions[n-1], genOpts{noDev: true})
		if d := a.Field(0).Elem().Elem().FieldByName("UID"); d.IsValid() {
			u := reflect.New(d.Type().Elem())
			setValue(props["UID"], u.Elem(), vText, reflect.ValueOf(ics.Text(fmt.Sprint(k))))
			d.Set(u)
		}
		al.Set(reflect.Append(al, a))
	}
	checkObject(c, cal)
}

// deepNesting: unknown components nested n deep around known text.
func deepNesting(c *Ctx) {
	depths := []int{0, 1, 2, 3, 10, 63, 64, 65, 255, 256, 257, 1000, 5000}
	d := depths[c.Choose(len(depths))]
	flaw := c.Choose(4)
	lower := c.Bool()
	where := c.Choose(2)
	var b strings.Builder
	b.WriteString("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n")
	if where == 1 {
		b.WriteString("BEGIN:VEVENT\r\nUID:1\r\n")
	}
	for i := 0; i < d; i++ {
		fmt.Fprintf(&b, "BEGIN:X-%c%d\r\nUID:%d\r\n", 'A'+i%26, i%7, i)
	}
	for i := d - 1; i >= 0; i-- {
		n := fmt.Sprintf("X-%c%d", 'A'+i%26, i%7)
		if lower {
			n = strings.ToLower(n)
		}
		switch {
		case flaw == 1 && i == 0, flaw == 2 && i == d/2:
			n += "Z"
		case flaw == 3 && i == d-1:
			continue
		}
		b.WriteString("END:" + n + "\r\n")
	}
	if where == 1 {
		b.WriteString("DTSTAMP:19970714T170000Z\r\nEND:VEVENT\r\n")
	}
	b.WriteString("END:VCALENDAR\r\n")
	c.judge("deep", b.String())
}

// repeatOrder: several elements of repeatable properties, interleaved.
func repeatOrder(c *Ctx, max int) {
	f := focuses[c.Choose(len(focuses))]
	var many []*propUse
	for i := range f.Spec.Props {
		if f.Spec.Props[i].Card == cardMany {
			many = append(many, &f.Spec.Props[i])
		}
	}
	if len(many) == 0 {
		c.Skip()
	}
	root, at := minimal(f)
	a, b := many[c.Choose(len(many))], many[c.Choose(len(many))]
	companions(f.Spec, at, a.Name)
	companions(f.Spec, at, b.Name)
	for k := 0; k < max; k++ {
		u := a
		if c.Bool() {
			u = b
		}
		alts := propAlts(u.Prop, 2)
		at.put(emitProp(u, alts[(k*5+c.Dev(3))%len(alts)]))
	}
	c.judge("repeats", root.text())
}

func wholeCase(c *Ctx) {
	cal := rich()
	var f func(*Ctx, string) string
	switch c.Choose(4) {
	case 0:
		f = func(_ *Ctx, s string) string { return strings.ToLower(s) }
	case 1:
		f = func(_ *Ctx, s string) string { return strings.ToUpper(s) }
	case 2:
		f = func(_ *Ctx, s string) string {
			b := []byte(s)
			for i := range b {
				if i%2 == 0 {
					b[i] = flip(b[i])
				}
			}
			return string(b)
		}
	case 3:
		f = func(_ *Ctx, s string) string {
			b := []byte(s)
			for i := range b {
				if i%2 == 1 {
					b[i] = flip(b[i])
				}
			}
			return string(b)
		}
	}
	c.expectDecode("case", joinLines(flipTree(c, emit(cal), nil, f)), dump(cal))
}

var lenientParams = []string{"", ";TZID=America/New_York", ";ENCODING=BASE64", ";TZID=UTC", ";X-A=b", ";TZID=\"Europe/London\"", ";ENCODING=base64"}

// lenientValues: spellings that are not what Encode writes.
var lenientValues = map[valKind][]string{
	vText:      {`a\Nb`, `\\`, `a\:b`, `\x`, `\`, `"a"`, `a\,b\;c`, ``, ` `, "a\tb", `a,b`},
	vMText:     {`a,b`, `,`, `,,`, `a\,b,c`, `\N,\n`, ``, `a,`, `\x,y`},
	vDateTime:  {"19970714T170000", "19970714T170000Z", "19970714T173000", "00010101T000000Z", "00000101T000000Z", "99991231T235959", "19970714T170060Z", "19970714", "20240229T000000", "20230229T000000", "19970406T023000", "19971026T013000"},
	vDate:      {"19970714", "00010101", "00000101", "99991231", "20240229", "19000229", "19970714T170000"},
	vDuration:  {"P1W", "P0W", "PT0S", "P0D", "P1DT1S", "PT1H1S", "PT1M", "+PT1H", "-PT1H", "-P0D", "PT01H", "P1DT0H0M0S", "PT24H", "PT90M", "P", "PT", "P1D1H", "P1DT", "P007D"},
	vPeriod:    {"19970101T180000Z/19970102T070000Z", "19970101T180000Z/PT5H30M", "19970101T180000Z/P1W", "19970101T180000/19970102T070000", "19970101T180000/+PT1H", "19970101T180000Z/PT0S", "19970101T180000Z/19970101T180000Z", "19970102T180000Z/19970101T180000Z", "19970101T180000Z/-PT1H", "19970101T180000Z/19970102T070000"},
	vRecur:     {"FREQ=DAILY", "FREQ=DAILY;COUNT=0", "FREQ=DAILY;INTERVAL=0", "FREQ=DAILY;INTERVAL=01", "COUNT=1;FREQ=YEARLY", "FREQ=WEEKLY;BYDAY=+1MO,-1SU,TU", "FREQ=MONTHLY;BYMONTHDAY=+1,-1,01", "FREQ=DAILY;UNTIL=19971224", "FREQ=DAILY;UNTIL=19971224T000000Z", "FREQ=DAILY;UNTIL=19971224T000000", "FREQ=DAILY;WKST=SU;BYSECOND=0,60", "FREQ=DAILY;UNTIL=00010101T000000Z", "BYMONTH=1,12,02;FREQ=YEARLY", "FREQ=YEARLY;BYSETPOS=-1,+366"},
	vURI:       {"http://a/b", "HTTP://A/b", "http://a/b c", "http://a/%7e", "a", "", "mailto:A@B", "http://[::1]:80/", "//h/p", "?q", "http://a?", "http://a/\"x\"", "a:b:c", "http://a/b;c,d"},
	vCalAddr:   {"mailto:a@b.c", "MAILTO:a@b.c", "urn:x", "", "mailto:%20", "a b"},
	vInteger:   {"0", "+1", "-1", "007", "-0", "2147483647", "-2147483648"},
	vTFloat:    {"1;2", "+1.5;-2.5", "01.50;.5", "1.;2.", "1e2;2e1", "0;-0", "37.386013;-122.082932", "90;180", "1.0000000000000000001;0"},
	vUTCOffset: {"+0100", "0100", "-0100", "+010000", "-000001", "+0000", "0000", "+2359", "+9959", "235959"},
	vBinary:    {"", "AA==", "AAAA", "YWJj", "YWI=", "AB==", "AAAA\r\n AAAA"},
	vBoolean:   {"TRUE", "FALSE", "true", "False", "1", "0", "T", "f", "tRuE"},
}

func init() {
	register(&property{ID: "C02", Level: "model_checking",
		Assume: []string{"texts on which the reference model is unspecified are only checked for panics"},
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "respelled", Bound: 2, About: "every field alternative of every component kind, combined with one change of spelling", Run: func(c *Ctx) {
					f := focuses[c.Choose(len(focuses))]
					restyleCheck(c, focused(c, f, genOpts{lvl: pickInt(t, 1, 2), max: 1, subs: true}), false)
				}},
				{Name: "rich", Bound: 0, About: "a calendar using the whole vocabulary under every subset of spelling changes", Run: func(c *Ctx) {
					restyleCheck(c, rich(), true)
				}},
				{Name: "lenient", Bound: 0, About: "keyword, value-type and raw value texts that decode", Run: func(c *Ctx) {
					p := places[c.Choose(len(places))]
					ps := p.U.Prop
					k := ps.Kinds[c.Choose(len(ps.Kinds))]
					raws := lenientValues[k]
					if len(raws) == 0 {
						c.Skip()
					}
					stable(c, p.text(p.head(k)+lenientParams[c.Choose(len(lenientParams))]+":"+raws[c.Choose(len(raws))]))
				}},
			}
			s = append(s, borrow(t, stable, stableCal, textSuites...)...)
			s = append(s, borrow(t, stable, stableCal, "C13/sizes", "C14/sizes", "C16/sizes", "C10/sizes", "C01/equals", "C01/related", "C18/coordinate-digits", "C13/lists-everywhere")...)
			if t {
				s = append(s, borrow(t, stable, stableCal, objectSuites...)...)
			}
			return s
		}})
	register(&property{ID: "C08", Level: "model_checking",
		Assume: []string{"times in unknown but named zones, typed nil alarms and empty text lists are not judged"},
		Suites: func(t bool) []*suite {
			s := []*suite{
				focusSuite("one-bad", "every valid and invalid alternative of every field of every component kind, one at a time", 1, genOpts{lvl: 2, bad: true, max: 1, subs: true}, refusal),
				focusSuite("bad-pairs", "pairs of deviations, each possibly invalid, repeated fields up to 2", 2, genOpts{lvl: 0, bad: true, max: pickInt(t, 1, 2), subs: true}, refusal),
				{Name: "relations", Bound: pickInt(t, 3, 4), About: "presence of related properties, minimal alternatives", Run: func(c *Ctx) {
					f := focuses[c.Choose(len(focuses))]
					refusal(c, focused(c, f, genOpts{lvl: 0, max: 1, subs: true}))
				}},
				{Name: "bad-in-company", About: "invalid values of every property with every two other properties present", Run: func(c *Ctx) { badCompany(c, pickInt(t, 4, 8)) }},
				{Name: "related", About: "every two properties of every component with every two of the values that stand in a relation", Run: func(c *Ctx) { with(c, related(c, focuses), refusal) }},
				{Name: "across", About: "every two properties of different components with every two of such values", Run: func(c *Ctx) { with(c, across(c, focuses, pickInt(t, 3, 100)), refusal) }},
				{Name: "bad-elements", About: "an invalid element at every position among valid ones of every repeated property", Run: func(c *Ctx) { badElements(c, pickInt(t, 6, 10)) }},
				{Name: "bad-among-many", About: "an invalid element at every position of a list of 300 of every repeated property and component", Run: func(c *Ctx) { badMany(c, pickInt(t, 300, 1100)) }},
				{Name: "bad-late", About: "a control character at every position of long texts and parameters", Run: func(c *Ctx) { badLate(c, pickInt(t, 1<<12+2, 1<<14+2)) }},
				{Name: "bad-listed", About: "boundary values at every position of the lists of rules and texts", Run: func(c *Ctx) { badListed(c, pickInt(t, 8, 20)) }},
				{Name: "bad-inside", Bound: 2, About: "every property once: value and parameters deviating together, each possibly invalid", Run: func(c *Ctx) {
					c.onCal = refusal
					insideObject(c, singlePlaces, true)
				}},
				{Name: "position", Bound: 1, About: "an invalid component or alarm at every position among valid siblings", Run: badPosition},
			}
			s = append(s, borrow(t, refusalText, refusal, objectSuites...)...)
			if t {
				s = append(s, borrow(false, refusalText, refusal, textSuites...)...)
			}
			return s
		}})
	register(&property{ID: "C09", Level: "model_checking",
		Assume: []string{"components inside VALARM are not judged"},
		Suites: func(t bool) []*suite {
			return []*suite{
				{Name: "token-sequences", About: "every sequence of BEGIN/END groups up to the length", Run: func(c *Ctx) { treeSequence(c, treeTokens[:13], pickInt(t, 6, 7)) }},
				{Name: "wide-token-sequences", About: "every sequence over the full set of component tokens", Run: func(c *Ctx) { treeSequence(c, treeTokens, pickInt(t, 4, 5)) }},
				{Name: "balanced", Bound: 1, About: "every component tree up to the size with at most one mismatched, missing or extra END", Run: func(c *Ctx) { balanced(c, treeKinds[:6], pickInt(t, 5, 6), 4) }},
				{Name: "balanced-all", Bound: 2, About: "smaller trees over all component kinds with up to two faults", Run: func(c *Ctx) { balanced(c, treeKinds, pickInt(t, 4, 5), 4) }},
				sizes("sizes", "components", "unknown"),
				{Name: "names", About: "every component with something added to or missing from its name in BEGIN and END", Run: componentNames},
				{Name: "siblings", About: "two or three components of every kind which differ in one property", Run: func(c *Ctx) { with(c, siblings(c), onText) }},
				{Name: "deep", About: "nesting depth sweep of unknown components with mixed case", Run: deepNesting},
			}
		}})
	register(&property{ID: "C10", Level: "model_checking",
		Suites: func(t bool) []*suite {
			return []*suite{
				{Name: "occurrences", Bound: pickInt(t, 3, 4), About: "each property of each component kind 0 to 3 times, line orders and sub-component placement as deviations", Run: func(c *Ctx) { occurrences(c, t) }},
				{Name: "permutations", About: "all orders of the lines of each component with up to two (thorough: three) further properties", Run: func(c *Ctx) { permutations(c, pickInt(t, 2, 3)) }},
				sizes("sizes", "repeats", "components"),
				{Name: "counts", About: "every repeatable property of every component in every number", Run: countsOfLines},
				{Name: "apart", About: "repeated and mutually exclusive lines with n lines between them", Run: apart},
				{Name: "twice", About: "every property of every component twice, with every value first or second, with or without other lines between", Run: twice},
				{Name: "ruled", About: "the properties of each rule of each component with every pair of values in both orders", Run: ruled},
				{Name: "related", About: "every two properties of every component with every two of the values that stand in a relation", Run: func(c *Ctx) { with(c, related(c, focuses), onText) }},
				{Name: "across", About: "every two properties of different components with every two of such values", Run: func(c *Ctx) { with(c, across(c, focuses, pickInt(t, 3, 100)), onText) }},
				{Name: "present", About: "every set of up to four (thorough: five) properties of every component", Run: func(c *Ctx) { with(c, present(c, pickInt(t, 4, 5)), onText) }},
				{Name: "repeats", Bound: pickInt(t, 2, 3), About: "lists of repeatable properties with distinguishable elements stay in order", Run: func(c *Ctx) { repeatOrder(c, pickInt(t, 4, 5)) }},
			}
		}})
	register(&property{ID: "C11", Level: "model_checking",
		Suites: func(t bool) []*suite {
			s := []*suite{
				focusSuite("vocabulary", "every field, parameter and keyword: Encode against the reference reader and Decode against the reference writer", 1, genOpts{lvl: 2, max: 1, subs: true}, checkObject),
				{Name: "keywords", About: "every enumerated keyword and near miss on every property and parameter", Run: keywords},
				{Name: "property-in-component", About: "every property line in every component kind", Run: lineNames},
			}
			s = append(s, focusSuite("vocabulary-pairs", "pairs of fields", 2, genOpts{lvl: pickInt(t, 1, 2), max: 2, subs: true}, checkObject))
			return append(s, comboSuites(t)...)
		}})
	register(&property{ID: "C19", Level: "model_checking",
		Assume: []string{"text values, URIs, recurrence keywords and zone names are not keywords in this sense"},
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "words", Bound: pickInt(t, 2, 3), About: "lower and alternating case of up to Bound structural words in every property alternative", Run: func(c *Ctx) { caseFlips(c, 1, flipWord) }},
				{Name: "letters", Bound: pickInt(t, 1, 2), About: "every single letter of every structural word flipped", Run: func(c *Ctx) { caseFlips(c, pickInt(t, 2, 1), flipLetters) }},
				{Name: "whole", About: "whole rich calendar in lower, upper, alternating case", Run: wholeCase},
			}
			return append(s, cross(t, true, crossCase, onEmitted(crossCase))...)
		}})
	register(&property{ID: "C21", Level: "model_checking",
		Suites: func(t bool) []*suite {
			return []*suite{
				{Name: "announced", About: "every multi-typed property x every VALUE spelling x values of every type x companion parameters", Run: func(c *Ctx) { valueTypes(c, pickInt(t, 1, 1)) }},
				{Name: "related", About: "every two properties of every component with every two of the values that stand in a relation", Run: func(c *Ctx) { with(c, related(c, focuses), checkObject) }},
				{Name: "forms", About: "every subset of value forms set on every multi-typed property", Run: valueForms},
			}
		}})
	register(&property{ID: "C22", Level: "model_checking",
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "lines", Bound: pickInt(t, 1, 1), About: "every awkward unknown line at every position of calendars with one field deviation", Run: func(c *Ctx) { insertLines(c, pickInt(t, 1, 2)) }},
				sizes("sizes", "unknown"),
				{Name: "amounts", About: "unknown parameters in every number, with names and values of every size, on every property", Run: unknownAmounts},
				{Name: "names", About: "unknown properties and components with names and values of every size in every component", Run: unknownNames},
				{Name: "parameters", About: "every awkward unknown parameter at every position of every line of calendars with every property alternative", Run: func(c *Ctx) { insertParams(c, pickInt(t, 1, 2)) }},
				{Name: "foreign", About: "properties and components of other standards and programs at every place of a calendar using the whole vocabulary", Run: foreign},
				{Name: "foreign-parameters", About: "parameters of other standards and programs on every property", Run: foreignParam},
				{Name: "near-parameters", About: "every known parameter and names like it on every property", Run: nearParam},
				{Name: "near-properties", About: "names like those of every property in every component", Run: nearLine},
				{Name: "near-components", About: "names like those of every component in every component", Run: nearComponent},
			}
			return append(s, cross(t, true, crossUnknown, onEmitted(crossUnknown))...)
		}})
	register(&property{ID: "C23", Level: "model_checking",
		Assume: []string{"unknown actions are not judged"},
		Suites: func(t bool) []*suite {
			return []*suite{
				{Name: "texts", Bound: pickInt(t, 2, 3), About: "hosts x ACTION spellings x bodies x ACTION positions, further ACTION lines, missing lines and extra properties as deviations", Run: func(c *Ctx) { alarmTexts(c, 1) }},
				{Name: "objects", Bound: pickInt(t, 2, 2), About: "alarm objects of every kind with pairs of field deviations", Run: func(c *Ctx) { alarmObjects(c, pickInt(t, 2, 2)) }},
				sizes("sizes", "alarms"),
				{Name: "related", About: "every two properties of every alarm with every two of the values that stand in a relation", Run: func(c *Ctx) { with(c, related(c, alarmFocuses()), checkObject) }},
				{Name: "across", About: "every two properties of an alarm and the component holding it with every two of such values", Run: func(c *Ctx) { with(c, across(c, alarmFocuses(), 100), checkObject) }},
				{Name: "lists", About: "every list of alarms up to the length", Run: func(c *Ctx) { alarmLists(c, pickInt(t, 6, 7)) }},
			}
		}})
}
