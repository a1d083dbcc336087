package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Reference model: bytes -> logical lines -> component tree -> calendar.
//
// The verdict on a text is three-valued. accept: the format and the library's
// documented behaviour require exactly this calendar. reject: the text must be
// refused. unspec: lenient input on which implementations may differ.

type verdict uint8

const (
	accept verdict = iota
	reject
	unspec
)

func (v verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

type pval struct {
	S      string
	Quoted bool
}

type param struct {
	Name string
	Vals []pval
}

type line struct {
	Name   string
	Params []param
	Value  string
}

type node struct {
	Name  string
	Lines []line // without BEGIN/END
	Subs  []*node
	Order []int // positions for rendering: >=0 line index, <0 ^sub index
}

func isCtl(c rune) bool { return c < 0x20 && c != '\t' || c == 0x7f }

func isNameChar(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-'
}

// refLines splits a text into logical lines. complete tells whether the last
// line was terminated. ok is false when a bare CR or LF occurs in a line; lines
// up to that point are still returned, bad holds the offending rest.
func refLines(data string) (lines []string, last string, bad bool) {
	var cur []byte
	for i := 0; i < len(data); i++ {
		if data[i] == '\r' && i+1 < len(data) && data[i+1] == '\n' {
			if i+2 < len(data) && (data[i+2] == ' ' || data[i+2] == '\t') {
				i += 2
				continue
			}
			lines = append(lines, string(cur))
			cur = cur[:0]
			i++
			continue
		}
		if data[i] == '\n' && len(cur) > 0 && cur[len(cur)-1] == '\r' {
			bad = true // a fold between CR and LF
		}
		cur = append(cur, data[i])
	}
	return lines, string(cur), bad
}

// refLex parses one logical line.
func refLex(s string) (l line, ok bool) {
	i := 0
	for i < len(s) && isNameChar(s[i]) {
		i++
	}
	if i == 0 {
		return l, false
	}
	l.Name = s[:i]
	for i < len(s) && s[i] == ';' {
		i++
		b := i
		for i < len(s) && isNameChar(s[i]) {
			i++
		}
		if i == b || i >= len(s) || s[i] != '=' {
			return l, false
		}
		p := param{Name: s[b:i]}
		for {
			i++ // '=' or ','
			var v pval
			if i < len(s) && s[i] == '"' {
				i++
				b := i
				for i < len(s) && s[i] != '"' && !isCtl(rune(s[i])) {
					i++
				}
				if i >= len(s) || s[i] != '"' {
					return l, false
				}
				v = pval{s[b:i], true}
				i++
			} else {
				b := i
				for i < len(s) && !strings.ContainsRune("\";:,", rune(s[i])) && !isCtl(rune(s[i])) {
					i++
				}
				v = pval{s[b:i], false}
			}
			p.Vals = append(p.Vals, v)
			if i >= len(s) {
				return l, false
			}
			if s[i] != ',' {
				break
			}
		}
		l.Params = append(l.Params, p)
	}
	if i >= len(s) || s[i] != ':' {
		return l, false
	}
	l.Value = s[i+1:]
	for k := 0; k < len(l.Value); k++ {
		if isCtl(rune(l.Value[k])) {
			return l, false
		}
	}
	return l, true
}

type refState struct {
	rejected string
	unspecd  string
}

func (r *refState) rej(f string, a ...any) {
	if r.rejected == "" {
		r.rejected = fmt.Sprintf(f, a...)
	}
}

func (r *refState) uns(f string, a ...any) {
	if r.unspecd == "" {
		r.unspecd = fmt.Sprintf(f, a...)
	}
}

func (r *refState) add(v verdict, f string, a ...any) {
	switch v {
	case reject:
		r.rej(f, a...)
	case unspec:
		r.uns(f, a...)
	}
}

// refDecode gives the verdict on a complete text and, for accept, the calendar.
func refDecode(data string) (*ics.Calendar, verdict, string) {
	if !utf8.ValidString(data) {
		if strings.Contains(data, "\r\n ") || strings.Contains(data, "\r\n\t") {
			// folds may split characters; judge the unfolded text
			u := strings.ReplaceAll(strings.ReplaceAll(data, "\r\n ", ""), "\r\n\t", "")
			if !utf8.ValidString(u) {
				return nil, unspec, "not UTF-8"
			}
		} else {
			return nil, unspec, "not UTF-8"
		}
	}
	lines, last, bad := refLines(data)
	if bad {
		return nil, unspec, "line end divided by a fold"
	}
	complete := len(lines)
	if last != "" {
		lines = append(lines, last)
	}
	var r refState
	root, used, v, why := refTree(lines)
	if v != accept {
		return nil, v, why
	}
	if used > complete {
		// the final line has no CRLF: accepted by the library's own examples
		if strings.ContainsAny(last, "\r\n") {
			return nil, unspec, "unterminated last line"
		}
	}
	cal := new(ics.Calendar)
	refBind(&r, calSpec, root, reflect.ValueOf(cal).Elem())
	if r.rejected != "" {
		return nil, reject, r.rejected
	}
	if r.unspecd != "" {
		return nil, unspec, r.unspecd
	}
	return cal, accept, ""
}

// refTree parses lines up to the END matching the first BEGIN.
func refTree(lines []string) (*node, int, verdict, string) {
	var stack []*node
	for i, s := range lines {
		l, ok := refLex(s)
		if !ok {
			return nil, 0, reject, fmt.Sprintf("malformed content line %q", s)
		}
		up := strings.ToUpper(l.Name)
		if len(stack) == 0 && (up != "BEGIN" || !strings.EqualFold(l.Value, "VCALENDAR")) {
			return nil, 0, reject, "does not begin with VCALENDAR"
		}
		switch up {
		case "BEGIN":
			n := &node{Name: strings.ToUpper(l.Value)}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Order = append(p.Order, ^len(p.Subs))
				p.Subs = append(p.Subs, n)
			}
			stack = append(stack, n)
		case "END":
			n := stack[len(stack)-1]
			if !strings.EqualFold(l.Value, n.Name) {
				return nil, 0, reject, fmt.Sprintf("END:%s closes %s", l.Value, n.Name)
			}
			stack = stack[:len(stack)-1]
			if len(stack) == 0 {
				return n, i + 1, accept, ""
			}
		default:
			p := stack[len(stack)-1]
			p.Order = append(p.Order, len(p.Lines))
			p.Lines = append(p.Lines, l)
		}
	}
	return nil, 0, reject, "unexpected end of data"
}

func refBind(r *refState, c *compSpec, n *node, v reflect.Value) {
	seen := map[string]int{}
	for i := range n.Lines {
		l := &n.Lines[i]
		name := strings.ToUpper(l.Name)
		u := c.prop(name)
		if u == nil {
			continue
		}
		seen[name]++
		if u.Card != cardMany && seen[name] > 1 {
			r.rej("%s: %s occurs more than once", c.Name, name)
			continue
		}
		pv := refProp(r, u.Prop, l)
		if !pv.IsValid() {
			continue
		}
		f := v.FieldByName(u.Field)
		switch u.Card {
		case cardOne:
			f.Set(pv)
		case cardOpt:
			p := reflect.New(u.Prop.Type)
			p.Elem().Set(pv)
			f.Set(p)
		case cardMany:
			f.Set(reflect.Append(f, pv))
		}
	}
	for _, s := range n.Subs {
		if c.Action != "" {
			r.uns("component inside an alarm")
			continue
		}
		u := c.sub(s.Name)
		if u == nil {
			continue
		}
		seen[s.Name]++
		f := v.FieldByName(u.Field)
		if u.Name == "VALARM" {
			a := refAlarm(r, s)
			if a.IsValid() {
				f.Set(reflect.Append(f, a))
			}
			continue
		}
		e := reflect.New(u.Comp.Type).Elem()
		refBind(r, u.Comp, s, e)
		f.Set(reflect.Append(f, e))
	}
	for _, u := range c.Props {
		if u.Card == cardOne && seen[u.Name] == 0 {
			r.rej("%s: %s missing", c.Name, u.Name)
		}
	}
	refRules(c, func(n string) bool { return seen[n] > 0 }, func(why string) { r.rej("%s: %s", c.Name, why) })
}

func refRules(c *compSpec, has func(string) bool, bad func(string)) {
	for _, q := range c.Rules {
		a, b := has(q.A), has(q.B)
		switch q.Kind {
		case ruleXor:
			if a && b {
				bad(q.A + " together with " + q.B)
			}
		case ruleNeed:
			if a && !b {
				bad(q.A + " without " + q.B)
			}
		case ruleBoth:
			if a != b {
				bad("only one of " + q.A + " and " + q.B)
			}
		case ruleAny:
			if !a && !b {
				bad("neither " + q.A + " nor " + q.B)
			}
		}
	}
}

func refAlarm(r *refState, n *node) reflect.Value {
	action, count := "", 0
	for i := range n.Lines {
		if strings.EqualFold(n.Lines[i].Name, "ACTION") {
			count++
			action = strings.ToUpper(n.Lines[i].Value)
		}
	}
	if len(n.Subs) > 0 {
		r.uns("component inside an alarm")
		return reflect.Value{}
	}
	if count == 0 {
		r.rej("alarm without ACTION")
		return reflect.Value{}
	}
	if count > 1 {
		r.rej("alarm with several ACTIONs")
		return reflect.Value{}
	}
	c := comps["VALARM#"+action]
	if c == nil {
		r.uns("unknown ACTION %s", action)
		return reflect.Value{}
	}
	a := reflect.New(c.Type)
	refBind(r, c, n, a.Elem())
	return reflect.ValueOf(ics.Alarm{AlarmType: a.Interface().(ics.AlarmType)})
}

// refProp decodes one property line into its Go type.
func refProp(r *refState, ps *propSpec, l *line) reflect.Value {
	v := reflect.New(ps.Type).Elem()
	kind := ps.Kinds[0]
	vals := map[string][]pval{}
	count := map[string]int{}
	for _, p := range l.Params {
		n := strings.ToUpper(p.Name)
		count[n]++
		vals[n] = p.Vals
		if kind == vEnum {
			continue
		}
		if n == "VALUE" {
			if len(ps.Kinds) == 1 {
				if len(p.Vals) != 1 || !strings.EqualFold(p.Vals[0].S, wireType(kind)) {
					r.uns("VALUE on a property with one type")
				}
				continue
			}
			if count[n] > 1 || len(p.Vals) != 1 {
				r.rej("%s: repeated VALUE", ps.Name)
				return reflect.Value{}
			}
			found := false
			for _, k := range ps.Kinds {
				if strings.EqualFold(valueNames[k], p.Vals[0].S) {
					kind, found = k, true
				}
			}
			if !found {
				r.rej("%s: VALUE=%s", ps.Name, p.Vals[0].S)
				return reflect.Value{}
			}
			continue
		}
		q := ps.param(n)
		if q == nil {
			if (n == "TZID" || n == "ENCODING") && count[n] > 1 {
				r.uns("repeated %s", n)
			}
			continue
		}
		if count[n] > 1 {
			r.rej("%s: repeated %s", ps.Name, n)
			return reflect.Value{}
		}
		if !refParam(r, q, p.Vals, v.FieldByName(q.Field)) {
			return reflect.Value{}
		}
	}
	if kind == vEnum {
		for i, w := range ps.Words {
			if strings.EqualFold(w, l.Value) {
				v.SetUint(uint64(i))
				return v
			}
		}
		r.rej("%s: keyword %q", ps.Name, l.Value)
		return reflect.Value{}
	}
	g, vd, why := refValue(kind, vals, l.Value)
	if vd != accept {
		r.add(vd, "%s: %s: %s", ps.Name, kindGo[kind], why)
		return reflect.Value{}
	}
	setValue(ps, v, kind, g)
	return v
}

func wireType(k valKind) string {
	switch k {
	case vText, vMText:
		return "TEXT"
	case vDateTime:
		return "DATE-TIME"
	case vDate:
		return "DATE"
	case vDuration:
		return "DURATION"
	case vPeriod:
		return "PERIOD"
	case vRecur:
		return "RECUR"
	case vURI:
		return "URI"
	case vCalAddr:
		return "CAL-ADDRESS"
	case vInteger:
		return "INTEGER"
	case vTFloat:
		return "FLOAT"
	case vUTCOffset:
		return "UTC-OFFSET"
	case vBinary:
		return "BINARY"
	case vBoolean:
		return "BOOLEAN"
	}
	return "?"
}

// setValue stores a base value into a property of the given spec.
func setValue(ps *propSpec, v reflect.Value, kind valKind, g reflect.Value) {
	switch {
	case len(ps.Kinds) > 1:
		p := reflect.New(kindTypes[kind])
		p.Elem().Set(g)
		v.FieldByName(kindGo[kind]).Set(p)
	case len(ps.Params) > 0:
		v.FieldByName(kindGo[kind]).Set(g)
	default:
		v.Set(g.Convert(ps.Type))
	}
}

// getValues lists the value alternatives that are set.
func getValues(ps *propSpec, v reflect.Value) (kinds []valKind, vals []reflect.Value) {
	switch {
	case ps.Kinds[0] == vEnum:
		return []valKind{vEnum}, []reflect.Value{v}
	case len(ps.Kinds) > 1:
		for _, k := range ps.Kinds {
			if f := v.FieldByName(kindGo[k]); !f.IsNil() {
				kinds = append(kinds, k)
				vals = append(vals, f.Elem())
			}
		}
		return
	case len(ps.Params) > 0:
		return ps.Kinds, []reflect.Value{v.FieldByName(kindGo[ps.Kinds[0]])}
	default:
		return ps.Kinds, []reflect.Value{v.Convert(kindTypes[ps.Kinds[0]])}
	}
}

var (
	un6868 = strings.NewReplacer("^n", "\n", "^'", "\"", "^^", "^")
	to6868 = strings.NewReplacer("\n", "^n", "\"", "^'", "^", "^^")
)

func ref6868(s string) string { return un6868.Replace(s) }

func enc6868(s string) string { return to6868.Replace(s) }

var mediaStrict = regexp.MustCompile(`^[A-Za-z0-9!#$&.+_-]+/[A-Za-z0-9!#$&.+_-]+$`)

// refParam decodes a recognised parameter into its field.
func refParam(r *refState, q *paramSpec, vals []pval, f reflect.Value) bool {
	bad := func(why string) bool {
		r.rej("%s: %s", q.Name, why)
		return false
	}
	list := q.Kind == pQTextL || q.Kind == pQAddrL
	if !list && len(vals) != 1 {
		return bad("several values")
	}
	quoted := list || q.Kind == pQText || q.Kind == pQURI
	if quoted {
		for _, v := range vals {
			if !v.Quoted {
				return bad("not quoted")
			}
		}
	}
	set := func(g reflect.Value) {
		p := reflect.New(q.Type)
		p.Elem().Set(g.Convert(q.Type))
		f.Set(p)
	}
	switch q.Kind {
	case pText, pQText:
		set(reflect.ValueOf(ref6868(vals[0].S)))
	case pQTextL:
		for _, v := range vals {
			f.Set(reflect.Append(f, reflect.ValueOf(ref6868(v.S))))
		}
	case pQURI:
		u, err := url.Parse(ref6868(vals[0].S))
		if err != nil {
			return bad("not a URI")
		}
		set(reflect.ValueOf(ics.URI{URL: *u}))
	case pQAddrL:
		for _, v := range vals {
			u, err := url.Parse(ref6868(v.S))
			if err != nil {
				return bad("not a URI")
			}
			f.Set(reflect.Append(f, reflect.ValueOf(ics.CalendarAddress{URL: *u})))
		}
	case pEnum:
		n := 0
		for i, w := range q.Words {
			if strings.EqualFold(w, vals[0].S) {
				n = i + 1
			}
		}
		set(reflect.ValueOf(uint8(n)))
	case pOnly:
		if !strings.EqualFold(vals[0].S, q.Words[0]) {
			return bad("keyword")
		}
		f.Set(reflect.New(q.Type))
	case pBool:
		b, vd := refBool(vals[0].S)
		if vd != accept {
			r.add(vd, "%s: boolean", q.Name)
			return false
		}
		set(reflect.ValueOf(b))
	case pMedia:
		s := ref6868(vals[0].S)
		if !strings.Contains(s, "/") {
			return bad("media type")
		}
		if !mediaStrict.MatchString(s) {
			r.uns("media type %q", s)
		}
		set(reflect.ValueOf(s))
	}
	return true
}

func refBool(s string) (bool, verdict) {
	switch strings.ToUpper(s) {
	case "TRUE":
		return true, accept
	case "FALSE":
		return false, accept
	case "T", "F", "1", "0":
		return false, unspec
	}
	return false, reject
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func daysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func refDate(s string) (time.Time, verdict) {
	if len(s) != 8 || !digits(s) {
		return time.Time{}, reject
	}
	y, m, d := atoi(s[:4]), atoi(s[4:6]), atoi(s[6:])
	if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
		return time.Time{}, reject
	}
	return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC), accept
}

var locCache = map[string]*time.Location{}

// ambiguous reports a wall time that does not name exactly one instant.
func ambiguous(t time.Time) bool {
	if t.Location() == time.UTC {
		return false
	}
	w := t.Format("20060102T150405")
	for _, d := range []time.Duration{-2 * time.Hour, -time.Hour, -30 * time.Minute, 30 * time.Minute, time.Hour, 2 * time.Hour} {
		if t.Add(d).Format("20060102T150405") == w {
			return true
		}
	}
	return false
}

func refDateTime(vals map[string][]pval, s string) (time.Time, verdict, string) {
	loc := time.Local
	zoned := false
	if tz, ok := vals["TZID"]; ok {
		zoned = true
		if len(tz) != 1 || tz[0].S == "" || tz[0].S == "Local" || strings.Contains(tz[0].S, "^") {
			return time.Time{}, unspec, "odd TZID"
		}
		l, err := time.LoadLocation(tz[0].S)
		if err != nil {
			return time.Time{}, reject, "unknown zone"
		}
		loc = l
	}
	if len(s) < 15 || s[8] != 'T' || !digits(s[9:15]) {
		return time.Time{}, reject, "shape"
	}
	d, v := refDate(s[:8])
	if v != accept {
		return time.Time{}, v, "date"
	}
	h, m, sec := atoi(s[9:11]), atoi(s[11:13]), atoi(s[13:15])
	if h > 23 || m > 59 || sec > 60 {
		return time.Time{}, reject, "time of day"
	}
	rest := s[15:]
	if rest == "Z" {
		if zoned {
			return time.Time{}, reject, "UTC with TZID"
		}
		loc = time.UTC
		rest = ""
	}
	if rest != "" {
		if rest[0] == '.' || rest[0] == ',' {
			return time.Time{}, unspec, "fraction"
		}
		return time.Time{}, reject, "shape"
	}
	if sec == 60 {
		return time.Time{}, unspec, "leap second"
	}
	t := time.Date(d.Year(), d.Month(), d.Day(), h, m, sec, 0, loc)
	if t.Hour() != h || t.Minute() != m || t.Second() != sec || t.Day() != d.Day() || ambiguous(t) {
		return time.Time{}, unspec, "local time skipped or repeated"
	}
	return t, accept, ""
}

var (
	durWeek   = regexp.MustCompile(`^([+-]?)P([0-9]+)W$`)
	durStrict = regexp.MustCompile(`^([+-]?)P(?:([0-9]+)D)?(T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)S)?)?$`)
)

func refDuration(s string) (d ics.Duration, v verdict) {
	num := func(s string) uint {
		if s == "" {
			return 0
		}
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil || n > 1<<63 {
			v = unspec
		}
		return uint(n)
	}
	if m := durWeek.FindStringSubmatch(s); m != nil {
		d.Negative = m[1] == "-"
		d.Weeks = num(m[2])
		return
	}
	if m := durStrict.FindStringSubmatch(s); m != nil && m[3] != "T" && (m[2] != "" || m[3] != "") {
		d.Negative = m[1] == "-"
		d.Days, d.Hours, d.Minutes, d.Seconds = num(m[2]), num(m[4]), num(m[5]), num(m[6])
		if m[4] != "" && m[5] == "" && m[6] != "" {
			v = unspec // hours directly followed by seconds
		}
		return
	}
	return d, reject
}

func refPeriod(vals map[string][]pval, s string) (p ics.Period, v verdict, why string) {
	i := strings.IndexByte(s, '/')
	if i < 0 || i+1 == len(s) {
		return p, reject, "shape"
	}
	t, v, why := refDateTime(vals, s[:i])
	if v != accept {
		// a bad other half makes it a certain rejection
		return p, v, why
	}
	p.Start.Time = t
	if e := s[i+1:]; e[0] == 'P' || e[0] == '+' || e[0] == '-' {
		if e[0] == '-' {
			return p, reject, "negative duration"
		}
		d, v := refDuration(e)
		if v != accept {
			return p, v, "duration"
		}
		p.Duration = d
	} else {
		t, v, why := refDateTime(vals, e)
		if v != accept {
			return p, v, why
		}
		p.End.Time = t
		if !t.After(p.Start.Time) || (t.Location() == time.UTC) != (p.Start.Location() == time.UTC) {
			return p, unspec, "end not after start, or mixed forms"
		}
	}
	return p, accept, ""
}

var weekDays = []string{"", "SU", "MO", "TU", "WE", "TH", "FR", "SA"}
var freqs = []string{"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}

var byDayRe = regexp.MustCompile(`^([+-]?[0-9]{1,2})?(SU|MO|TU|WE|TH|FR|SA)$`)

func refRecur(vals map[string][]pval, s string) (r ics.Recur, v verdict, why string) {
	seen := map[string]bool{}
	var unsp string
	num := func(s string, lo, hi int, signed bool) (int, bool) {
		t := s
		if signed && len(t) > 0 && (t[0] == '-' || t[0] == '+') {
			t = t[1:]
		}
		if !digits(t) {
			return 0, false
		}
		if len(t) > 3 {
			// leading zeros or far out of range
			t = strings.TrimLeft(t, "0")
			if len(t) > 3 {
				return 0, false
			}
			unsp = "leading zeros"
		}
		n := atoi(t)
		if s[0] == '-' {
			n = -n
		}
		return n, n >= lo && n <= hi
	}
	var rej string
	for _, part := range strings.Split(s, ";") {
		kv := strings.SplitN(part, "=", 2)
		if len(kv) != 2 {
			return r, reject, "part without value"
		}
		k, val := kv[0], kv[1]
		if seen[k] {
			if unsp == "" {
				rej = "repeated " + k
			}
		}
		seen[k] = true
		list := func(lo, hi int, zero, signed bool, put func(int)) {
			for _, e := range strings.Split(val, ",") {
				n, ok := num(e, lo, hi, signed)
				if !ok || n == 0 && !zero {
					rej = k + " element " + e
					return
				}
				put(n)
			}
		}
		switch k {
		case "FREQ":
			f := -1
			for i, w := range freqs {
				if w == val {
					f = i
				}
			}
			if f < 0 {
				rej = "frequency"
				for _, w := range freqs {
					if strings.EqualFold(w, val) {
						unsp, rej = "frequency case", ""
					}
				}
			}
			r.Frequency = ics.Frequency(f)
		case "UNTIL":
			if len(val) == 8 {
				t, v := refDate(val)
				if v != accept {
					rej = "until"
				}
				r.Until = t
			} else {
				t, v, _ := refDateTime(vals, val)
				if v == reject {
					rej = "until"
				} else if v == unspec {
					unsp = "until"
				}
				r.Until, r.UntilTime = t, true
			}
			if rej == "" && r.Until.IsZero() {
				unsp = "zero UNTIL"
			}
		case "COUNT", "INTERVAL":
			if !digits(val) {
				rej = k
				break
			}
			n, err := strconv.ParseUint(val, 10, 64)
			if err != nil {
				rej = k
			}
			if n == 0 {
				unsp = "zero " + k
			}
			if k == "COUNT" {
				r.Count = n
			} else {
				r.Interval = n
			}
		case "BYSECOND":
			list(0, 60, true, false, func(n int) { r.BySecond = append(r.BySecond, uint8(n)) })
		case "BYMINUTE":
			list(0, 59, true, false, func(n int) { r.ByMinute = append(r.ByMinute, uint8(n)) })
		case "BYHOUR":
			list(0, 23, true, false, func(n int) { r.ByHour = append(r.ByHour, uint8(n)) })
		case "BYDAY":
			for _, e := range strings.Split(val, ",") {
				m := byDayRe.FindStringSubmatch(e)
				if m == nil {
					rej = "BYDAY"
					if byDayRe.MatchString(strings.ToUpper(e)) {
						unsp, rej = "BYDAY case", ""
					}
					if strings.HasPrefix(e, "+") && byDayRe.MatchString(e[1:]) && !digits(e[1:2]) {
						unsp, rej = "BYDAY plus without number", ""
					}
					break
				}
				o := 0
				if m[1] != "" {
					o, _ = strconv.Atoi(m[1])
					if o == 0 || o > 53 || o < -53 {
						rej = "BYDAY"
						break
					}
				}
				for i, w := range weekDays {
					if w == m[2] {
						r.ByDay = append(r.ByDay, ics.DayRecur{Day: ics.WeekDay(i), Occurrence: int8(o)})
					}
				}
			}
		case "BYMONTHDAY":
			list(-31, 31, false, true, func(n int) { r.ByMonthDay = append(r.ByMonthDay, int8(n)) })
		case "BYYEARDAY":
			list(-366, 366, false, true, func(n int) { r.ByYearDay = append(r.ByYearDay, int16(n)) })
		case "BYWEEKNO":
			list(-53, 53, false, true, func(n int) { r.ByWeekNum = append(r.ByWeekNum, int8(n)) })
		case "BYMONTH":
			list(1, 12, false, false, func(n int) { r.ByMonth = append(r.ByMonth, ics.Month(n)) })
		case "BYSETPOS":
			list(-366, 366, false, true, func(n int) { r.BySetPos = append(r.BySetPos, int16(n)) })
		case "WKST":
			w := 0
			for i := 1; i < len(weekDays); i++ {
				if weekDays[i] == val {
					w = i
				}
			}
			if w == 0 {
				rej = "WKST"
				for i := 1; i < len(weekDays); i++ {
					if strings.EqualFold(weekDays[i], val) {
						unsp, rej = "WKST case", ""
					}
				}
			}
			r.WeekStart = ics.WeekDay(w)
		default:
			rej = "unknown part " + k
			switch strings.ToUpper(k) {
			case "FREQ", "UNTIL", "COUNT", "INTERVAL", "BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS", "WKST":
				unsp, rej = "part name case", ""
			}
		}
		if rej != "" {
			return r, reject, rej
		}
	}
	if unsp != "" {
		return r, unspec, unsp
	}
	if !seen["FREQ"] {
		return r, reject, "no FREQ"
	}
	if seen["UNTIL"] && seen["COUNT"] {
		return r, reject, "UNTIL and COUNT"
	}
	return r, accept, ""
}

func refText(s string, multi bool) (out []ics.Text, v verdict) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\':
			i++
			if i == len(s) {
				return nil, unspec
			}
			switch s[i] {
			case '\\', ';', ',':
				b = append(b, s[i])
			case 'n', 'N':
				b = append(b, '\n')
			default:
				return nil, unspecUnless(s[i:], multi)
			}
		case ';':
			return nil, reject
		case ',':
			if !multi {
				return nil, reject
			}
			out = append(out, ics.Text(b))
			b = nil
		default:
			b = append(b, c)
		}
	}
	return append(out, ics.Text(b)), accept
}

// unspecUnless: the rest of a text after an unknown escape decides between
// unspecified and a certain rejection.
func unspecUnless(rest string, multi bool) verdict {
	if _, size := utf8.DecodeRuneInString(rest); size <= len(rest) {
		if _, v := refText(rest[size:], multi); v == reject {
			return reject
		}
	}
	return unspec
}

var floatStrict = regexp.MustCompile(`^[+-]?[0-9]+(\.[0-9]+)?$`)

func refTFloat(s string) (f ics.TFloat, v verdict) {
	p := strings.Split(s, ";")
	if len(p) != 2 {
		return f, reject
	}
	for i := range p {
		n, err := strconv.ParseFloat(p[i], 64)
		if !floatStrict.MatchString(p[i]) {
			if err == nil {
				v = unspec
				continue
			}
			return f, reject
		}
		if err != nil || math.Abs(n) > 180 || i == 0 && math.Abs(n) > 90 {
			if v == accept {
				v = unspec
			}
			continue
		}
		f[i] = n
	}
	return
}

var offRe = regexp.MustCompile(`^([+-]?)([0-9]{2})([0-9]{2})([0-9]{2})?$`)

func refOffset(s string) (ics.UTCOffset, verdict) {
	m := offRe.FindStringSubmatch(s)
	if m == nil {
		return 0, reject
	}
	h, mi, sec := atoi(m[2]), atoi(m[3]), 0
	if m[4] != "" {
		sec = atoi(m[4])
	}
	if mi > 59 || sec > 59 {
		return 0, reject
	}
	n := h*3600 + mi*60 + sec
	if m[1] == "-" {
		if n == 0 {
			return 0, reject
		}
		n = -n
	}
	if h > 23 {
		return ics.UTCOffset(n), unspec
	}
	return ics.UTCOffset(n), accept
}

var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

func refInteger(s string) (ics.Integer, verdict) {
	if !intRe.MatchString(s) {
		return 0, reject
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || n < math.MinInt32 || n > math.MaxInt32 {
		return 0, reject
	}
	return ics.Integer(n), accept
}

func refBinary(vals map[string][]pval, s string) (ics.Binary, verdict, string) {
	e, ok := vals["ENCODING"]
	if !ok || len(e) != 1 || !strings.EqualFold(e[0].S, "BASE64") {
		return nil, reject, "encoding"
	}
	b, err := base64.StdEncoding.Strict().DecodeString(s)
	if err != nil {
		if _, err := base64.StdEncoding.DecodeString(s); err == nil {
			return nil, unspec, "trailing bits"
		}
		return nil, reject, "base64"
	}
	return b, accept, ""
}

func refValue(kind valKind, vals map[string][]pval, s string) (reflect.Value, verdict, string) {
	rv := func(x any) reflect.Value { return reflect.ValueOf(x) }
	switch kind {
	case vText:
		t, v := refText(s, false)
		if v != accept {
			return reflect.Value{}, v, "text"
		}
		return rv(t[0]), accept, ""
	case vMText:
		t, v := refText(s, true)
		return rv(ics.MText(t)), v, "text list"
	case vDateTime:
		t, v, why := refDateTime(vals, s)
		return rv(ics.DateTime{Time: t}), v, why
	case vDate:
		t, v := refDate(s)
		return rv(ics.Date{Time: t}), v, "date"
	case vDuration:
		d, v := refDuration(s)
		return rv(d), v, "duration"
	case vPeriod:
		p, v, why := refPeriod(vals, s)
		return rv(p), v, why
	case vRecur:
		r, v, why := refRecur(vals, s)
		return rv(r), v, why
	case vURI, vCalAddr:
		u, err := url.Parse(s)
		if err != nil {
			return reflect.Value{}, reject, "uri"
		}
		if kind == vURI {
			return rv(ics.URI{URL: *u}), accept, ""
		}
		return rv(ics.CalendarAddress{URL: *u}), accept, ""
	case vInteger:
		i, v := refInteger(s)
		return rv(i), v, "integer"
	case vTFloat:
		f, v := refTFloat(s)
		return rv(f), v, "coordinates"
	case vUTCOffset:
		o, v := refOffset(s)
		return rv(o), v, "offset"
	case vBinary:
		b, v, why := refBinary(vals, s)
		return rv(b), v, why
	case vBoolean:
		b, v := refBool(s)
		return rv(ics.Boolean(b)), v, "boolean"
	}
	panic("kind")
}
