package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Controlled scheduling. The package is instrumented with a point before every
// statement; threads run one at a time and are switched only at points.

var (
	setPoint    func(func(level, id int))
	pointWhere  []string
	pointAccess [][]string
	spawns      bool // the package starts goroutines, which are left alone
)

type thread struct {
	run     func() string
	res     string
	wake    chan struct{}
	n, stop int // points passed, point to stop at
	at      int // point stopped at, -1 while running
	done    bool
	started bool
	id      atomic.Int64 // of its goroutine, if the package starts others
}

type sched struct {
	threads  []*thread
	cur      *thread
	ev       chan *thread
	level    int
	free     atomic.Bool
	conflict string
}

var (
	active    atomic.Pointer[sched]
	stalls    int
	maxStalls = 3000
)

func hook(level, id int) {
	s := active.Load()
	if s == nil || s.free.Load() {
		return
	}
	t := s.cur
	acc := pointAccess[id]
	if spawns && (t == nil || (acc == nil && level < s.level) || goid() != t.id.Load()) {
		return
	}
	if acc != nil && s.conflict == "" {
		for _, o := range s.threads {
			if o != t && o.started && !o.done && o.at >= 0 {
				if v := conflicting(acc, pointAccess[o.at]); v != "" {
					s.conflict = fmt.Sprintf("%s at %s and %s", v, pointWhere[id], pointWhere[o.at])
				}
			}
		}
	}
	if level < s.level {
		return
	}
	t.n++
	if t.n == t.stop {
		t.at = id
		s.ev <- t
		<-t.wake
		t.at = -1
	}
}

// conflicting: both statements are next to run, touch the same variable, and
// one of them writes it.
func conflicting(a, b []string) string {
	for _, x := range a {
		for _, y := range b {
			if x[2:] == y[2:] && (x[0] == 'w' || y[0] == 'w') {
				return x[2:]
			}
		}
	}
	return ""
}

func newSched(level int, runs ...func() string) *sched {
	s := &sched{level: level, ev: make(chan *thread, 4*len(runs))}
	for _, r := range runs {
		s.threads = append(s.threads, &thread{run: r, wake: make(chan struct{}), at: -1})
	}
	return s
}

func (s *sched) start(t *thread) {
	t.started = true
	go func() {
		if spawns {
			t.id.Store(goid())
		}
		defer func() {
			if p := recover(); p != nil {
				t.res = fmt.Sprintf("panic: %v", p)
			}
			t.done = true
			s.ev <- t
		}()
		t.res = t.run()
	}()
}

// resume lets thread i run to its point until, or to its end when until is 0.
// It tells whether all went as planned; otherwise every thread was let go.
func (s *sched) resume(i, until int) bool {
	t := s.threads[i]
	if s.free.Load() || t.done {
		return !s.free.Load()
	}
	t.stop = until
	s.cur = t
	if !t.started {
		s.start(t)
	} else {
		t.wake <- struct{}{}
	}
	limit := 300 * time.Millisecond
	if stalls > 30 {
		limit = 3 * time.Millisecond
	}
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case <-s.ev:
		return true
	case <-tm.C:
		stalls++
		s.release()
		return false
	}
}

// release ends scheduling: a thread waits for something another one holds.
func (s *sched) release() {
	s.free.Store(true)
	for _, t := range s.threads {
		close(t.wake)
		if !t.started {
			s.start(t)
		}
	}
}

// finish waits for all threads.
func (s *sched) finish() bool {
	if !s.free.Load() {
		for i := range s.threads {
			if !s.resume(i, 0) {
				break
			}
		}
	}
	if s.free.Load() {
		tm := time.NewTimer(20 * time.Second)
		defer tm.Stop()
		for {
			n := 0
			for _, t := range s.threads {
				if t.done {
					n++
				}
			}
			if n == len(s.threads) {
				return true
			}
			select {
			case <-s.ev:
			case <-tm.C:
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Operations

type op struct {
	name   string
	run    func() string
	want   string
	points [2]int // per level
}

var (
	ops       []*op
	sharedCal *ics.Calendar
	sharedWas *ics.Calendar // deep copy for comparison
)

func decOp(name, text string) *op {
	return &op{name: name, run: func() string {
		cal, err := ics.Decode(strings.NewReader(text))
		if err != nil {
			return "error: " + err.Error()
		}
		return dump(cal)
	}}
}

func encOp(name string, cal *ics.Calendar) *op {
	return &op{name: name, run: func() string {
		var b bytes.Buffer
		if err := ics.Encode(&b, cal); err != nil {
			return fmt.Sprintf("error: %v after %q", err, b.String())
		}
		return b.String()
	}}
}

func fillOps() {
	mk := func(body string) string {
		return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + body + "END:VCALENDAR\r\n"
	}
	ev := func(body string) string {
		return mk("BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:19970714T170000Z\r\n" + body + "END:VEVENT\r\n")
	}
	sharedCal = deepCopy(reflect.ValueOf(placeMap["VEVENT.ATTENDEE"].object(propDefault(placeMap["VEVENT.ATTENDEE"].U.Prop)))).Interface().(*ics.Calendar)
	e := &sharedCal.Event[0]
	e.Categories = append(e.Categories, ics.PropCategories{MText: ics.MText{"b", "a,b"}})
	cn := ics.ParamCommonName("q\"^\nz")
	e.Attendee[0].CommonName = &cn
	e.Comment = append(e.Comment, ics.PropComment{Text: ics.Text(strings.Repeat("é;", 40))})
	e.RecurrenceRule = &ics.PropRecurrenceRule{Frequency: ics.Weekly, ByDay: []ics.DayRecur{{Day: ics.Monday}, {Day: ics.Sunday, Occurrence: -1}}, ByMonth: []ics.Month{12, 1}}
	e.DateTimeStart = &ics.PropDateTimeStart{DateTime: &ics.DateTime{Time: dt(1998, 1, 19, 2, 0, 1, ny)}}
	sharedWas = deepCopy(reflect.ValueOf(sharedCal)).Interface().(*ics.Calendar)
	other := deepCopy(reflect.ValueOf(focused(nil, focusOf("VTODO"), genOpts{noDev: true}))).Interface().(*ics.Calendar)
	other.Todo[0].Description = &ics.PropDescription{Text: ics.Text(strings.Repeat("x\\,", 50))}
	other.Todo[0].Geo = &ics.PropGeo{37.5, -0.1}
	bad := deepCopy(reflect.ValueOf(sharedCal)).Interface().(*ics.Calendar)
	bad.Event[0].Comment[0].Text = "bad\x00"
	alarm := deepCopy(reflect.ValueOf(focused(nil, focusOf("VEVENT/DISPLAY"), genOpts{noDev: true}))).Interface().(*ics.Calendar)
	ops = []*op{
		decOp("decode plain", ev("SUMMARY:one\\, two\r\n")),
		decOp("decode params", ev("ATTENDEE;CN=\"A^'B\";MEMBER=\"m:1\",\"m:2\":mailto:a@b\r\nCATEGORIES:a,b,c\r\nDTSTART;TZID=America/New_York:19980119T020001\r\nRRULE:FREQ=WEEKLY;BYDAY=MO,-1SU;BYMONTH=12,1\r\n")),
		decOp("decode folded", ev("ATTENDEE;CN=C:mailto:c@d\r\nSUMMARY:three\r\n  fo\r\n\tur\r\nDTSTART;TZID=Asia/Kathmandu:20200101T000000\r\nATTACH;ENCODING=BASE64;VALUE=BINARY:AAEC\r\n")),
		decOp("decode alarm", ev("BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER:-PT15M\r\nDESCRIPTION:d\r\nEND:VALARM\r\n")),
		decOp("decode timezone", mk("BEGIN:VTIMEZONE\r\nTZID:z\r\nBEGIN:STANDARD\r\nDTSTART:19971026T020000\r\nTZOFFSETTO:-0500\r\nTZOFFSETFROM:-0400\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n")),
		decOp("decode bad value", ev("DURATION:P1X\r\n")),
		decOp("decode truncated", ev("")[:60]),
		encOp("encode shared", sharedCal),
		encOp("encode other", other),
		encOp("encode alarm", alarm),
		encOp("encode invalid", bad),
		{name: "encode to failing writer", run: func() string {
			w := &faultWriter{at: 9, n: 1, err: io.ErrClosedPipe}
			err := ics.Encode(w, sharedCal)
			return fmt.Sprintf("%v %q %d", err, w.got.String(), w.after)
		}},
	}
}

// measureOps runs every operation by itself, for the results expected of it
// and the scheduling points it passes.
func measureOps() {
	for _, o := range ops {
		o.want = o.run()
	}
	if setPoint == nil {
		return
	}
	setPoint(hook)
	for _, o := range ops {
		for l := range o.points {
			s := newSched(l, o.run)
			active.Store(s)
			s.finish()
			active.Store(nil)
			o.points[l] = s.threads[0].n
		}
	}
}

// sharedDiff tells how the shared calendar differs from its copy.
func sharedDiff() string {
	if reflect.DeepEqual(sharedCal, sharedWas) {
		return ""
	}
	return diffLine(fingerprint(reflect.ValueOf(sharedWas)), fingerprint(reflect.ValueOf(sharedCal))) + " "
}

func focusOf(path string) focus {
	for _, f := range focuses {
		if f.Path == path {
			return f
		}
	}
	panic("harness: no focus " + path)
}

func pickOp(c *Ctx) *op { return ops[c.Choose(len(ops))] }

// interleave runs the operations with the given switches: each step names a
// thread and the point it runs to.
func interleave(c *Ctx, level int, sel []*op, steps [][2]int) {
	if stalls > maxStalls {
		c.Skip()
	}
	var runs []func() string
	for _, o := range sel {
		runs = append(runs, o.run)
	}
	s := newSched(level, runs...)
	active.Store(s)
	where := ""
	for _, st := range steps {
		if !s.resume(st[0], st[1]) {
			break
		}
		if t := s.threads[st[0]]; t.at >= 0 {
			if c.want {
				where += fmt.Sprintf(" [%s stopped at %s]", sel[st[0]].name, pointWhere[t.at])
			}
			if d := sharedDiff(); d != "" {
				c.Fail("shared calendar changed during Encode", "%s stopped at %s\n%s", sel[st[0]].name, pointWhere[t.at], d)
			}
		}
	}
	ok := s.finish()
	active.Store(nil)
	c.traces += len(sel)
	if !ok {
		c.Fail("calls block each other", "%v", steps)
		return
	}
	if s.conflict != "" {
		c.Fail("unsynchronised access to "+strings.SplitN(s.conflict, " ", 2)[0], "%s%s", s.conflict, where)
		return
	}
	for i, o := range sel {
		if got := s.threads[i].res; got != o.want {
			c.Fail("result differs when interleaved: "+o.name, "schedule %v%s\nalone:\n%s\ninterleaved:\n%s", steps, where, o.want, got)
			return
		}
	}
	if d := sharedDiff(); d != "" {
		c.Fail("shared calendar changed", "%s", d)
	}
	c.Outcome(fmt.Sprint(steps))
	var names []string
	for _, o := range sel {
		names = append(names, o.name)
	}
	c.Note("%s: steps %v%s", strings.Join(names, " | "), steps, where)
}

func pairs(c *Ctx, level int) {
	a, b := pickOp(c), pickOp(c)
	k := 1 + c.Choose(a.points[level])
	interleave(c, level, []*op{a, b}, [][2]int{{0, k}, {1, 0}, {0, 0}})
}

func pairs2(c *Ctx, sel []*op, level int) {
	a, b := sel[c.Choose(len(sel))], sel[c.Choose(len(sel))]
	k := 1 + c.Choose(a.points[level])
	j := 1 + c.Choose(b.points[level])
	interleave(c, level, []*op{a, b}, [][2]int{{0, k}, {1, j}, {0, 0}, {1, 0}})
}

func triples(c *Ctx, sel []*op, level int) {
	a, b, d := sel[c.Choose(len(sel))], sel[c.Choose(len(sel))], sel[c.Choose(len(sel))]
	k := 1 + c.Choose(a.points[level])
	j := 1 + c.Choose(b.points[level])
	interleave(c, level, []*op{a, b, d}, [][2]int{{0, k}, {1, j}, {2, 0}, {0, 0}, {1, 0}})
}

// pairs3: three switches, the third back in the first thread.
func pairs3(c *Ctx, sel []*op, level int) {
	a, b := sel[c.Choose(len(sel))], sel[c.Choose(len(sel))]
	k := 1 + c.Choose(a.points[level])
	j := 1 + c.Choose(b.points[level])
	if k == a.points[level] {
		c.Skip()
	}
	m := k + 1 + c.Choose(a.points[level]-k)
	interleave(c, level, []*op{a, b}, [][2]int{{0, k}, {1, j}, {0, m}, {1, 0}, {0, 0}})
}

// ---------------------------------------------------------------------------
// Sequences, purity, independence

func histories(c *Ctx, max int) {
	n := 1 + c.Choose(max)
	var names []string
	for i := 0; i < n; i++ {
		o := pickOp(c)
		names = append(names, o.name)
		c.traces++
		if got := o.run(); got != o.want {
			c.Fail("result depends on earlier calls: "+o.name, "history %v\nfirst:\n%s\nnow:\n%s", names, o.want, got)
			return
		}
		if d := sharedDiff(); d != "" {
			c.Fail("shared calendar changed", "history %v\n%s", names, d)
			return
		}
	}
	c.Outcome(names...)
	c.Note("%v", names)
}

// pure: Encode leaves every reachable byte of its argument alone, including
// spare slice capacity, and says the same twice.
func pure(c *Ctx, cal *ics.Calendar) {
	cp := deepCopy(reflect.ValueOf(cal)).Interface().(*ics.Calendar)
	before := fingerprint(reflect.ValueOf(cp))
	out, err, p := c.encode(cp)
	if p {
		return
	}
	if after := fingerprint(reflect.ValueOf(cp)); after != before {
		c.Fail("Encode changed its argument", "%s", diffLine(before, after))
		return
	}
	out2, err2, p := c.encode(cp)
	if p {
		return
	}
	if out != out2 || fmt.Sprint(err) != fmt.Sprint(err2) {
		c.Fail("second Encode differs", "%q %v\n%q %v", out, err, out2, err2)
	}
	c.Outcome(out)
	c.Note("%q %v", out, err)
}

// independent: results share nothing with each other, with the input buffer or
// with later calls.
func independent(c *Ctx, text string) {
	src := []byte(text)
	a, err, p := c.decodeFrom(bytes.NewReader(src))
	if p || err != nil {
		return
	}
	for i := range src {
		src[i] = 'Z'
	}
	b, err, p := c.decode(text)
	if p {
		return
	}
	if err != nil {
		c.Fail("second Decode fails", "%q: %v", text, err)
		return
	}
	fa, fb := fingerprint(reflect.ValueOf(a)), fingerprint(reflect.ValueOf(b))
	if dump(a) != dump(b) {
		c.Fail("second Decode differs", "%q\n%s", text, diffLine(fa, fb))
		return
	}
	mutate(reflect.ValueOf(a), 0)
	if f := fingerprint(reflect.ValueOf(b)); f != fb {
		c.Fail("results share memory", "%q\n%s", text, diffLine(fb, f))
		return
	}
	d, err, p := c.decode(text)
	if p {
		return
	}
	if err != nil {
		c.Fail("third Decode fails", "%q: %v", text, err)
		return
	}
	if f := dump(d); f != dump(b) {
		c.Fail("result shares memory with later results", "%q\n%s", text, diffLine(dump(b), f))
		return
	}
	c.Outcome(fb)
	c.Note("%q", text)
}

// selfShared: changing one element of a result changes nothing else of it.
func selfShared(c *Ctx) {
	p := places[c.Choose(len(places))]
	if p.U.Card != cardMany {
		c.Skip()
	}
	alts := propAlts(p.U.Prop, 1)
	l := emitProp(p.U, alts[c.Choose(len(alts))])
	s := l.String()
	text := p.text(s + "\r\n" + s + "\r\n" + s)
	if _, v, _ := refDecode(text); v != accept {
		c.Skip()
	}
	cal, err, pn := c.decode(text)
	if pn || err != nil {
		return
	}
	f := locate(cal, p.F).FieldByName(p.U.Field)
	if f.Len() < 3 {
		return
	}
	i := c.Choose(3)
	var before [3]string
	for k := range before {
		before[k] = fingerprint(f.Index(f.Len() - 3 + k))
	}
	mutate(f.Index(f.Len()-3+i), 0)
	for k := range before {
		if k != i && fingerprint(f.Index(f.Len()-3+k)) != before[k] {
			c.Fail("elements of one result share memory", "%q", text)
			return
		}
	}
	c.Outcome(text)
	c.Note("%q", text)
}

// ---------------------------------------------------------------------------
// Walking values

var (
	timeType = reflect.TypeOf(time.Time{})
	locType  = reflect.TypeOf((*time.Location)(nil))
)

// deepCopy copies everything reachable; slices get spare capacity.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type() == locType {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+2)
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		if v.Type() == timeType {
			return n
		}
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// fingerprint renders everything reachable, with nil-ness and spare capacity.
func fingerprint(v reflect.Value) string {
	var b strings.Builder
	fingerprintTo(&b, v)
	return b.String()
}

func fingerprintTo(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type() == locType {
			return
		}
		b.WriteByte('*')
		fingerprintTo(b, v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "[%d/%d", v.Len(), v.Cap())
		n := v.Cap()
		if n > v.Len()+2 {
			n = v.Len() + 2
		}
		for f, i := v.Slice(0, n), 0; i < n; i++ {
			b.WriteByte(' ')
			fingerprintTo(b, f.Index(i))
		}
		b.WriteByte(']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b.WriteByte(' ')
			fingerprintTo(b, v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == timeType && v.CanInterface() {
			t := v.Interface().(time.Time)
			b.WriteString(t.Format(time.RFC3339Nano) + " " + t.Location().String())
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				b.WriteString("\n" + v.Type().Field(i).Name + ":")
				fingerprintTo(b, v.Field(i))
			}
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float64, reflect.Float32:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}

// mutate overwrites everything reachable, spare capacity included.
func mutate(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type() != locType {
			mutate(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer {
			mutate(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		for f, i := v.Slice(0, v.Cap()), 0; i < v.Cap(); i++ {
			mutate(f.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			mutate(v.Index(i), depth+1)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(dt(2222, 2, 2, 2, 2, 2, lon)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			mutate(v.Field(i), depth+1)
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString("MUTATED")
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(^v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(v.Uint() ^ 1)
		case reflect.Float64, reflect.Float32:
			v.SetFloat(v.Float() + 1)
		}
	}
}

func init() {
	lateSetups = append(lateSetups, fillOps, fillDeeds)
	register(&property{ID: "C20", Level: "model_checking",
		Assume: []string{
			"interleavings are explored at statement granularity in a sequentially consistent world; conflicting unsynchronised accesses to package-level variables are reported as such",
			"when a call waits for a lock held by a stopped call, the threads are let run freely from there on",
		},
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "successive", Serial: true, About: "every property with every value, with every other one, and with the first again", Run: successive},
				{Name: "histories", Serial: true, About: "every sequence of calls, each compared with its first result", Run: func(c *Ctx) { histories(c, pickInt(t, 4, 5)) }},
				{Name: "aftermath", Serial: true, About: "every call after each sequence of unusual calls", Run: func(c *Ctx) { aftermath(c, pickInt(t, 1, 2)) }},
				focusSuite("pure", "Encode leaves its argument alone, for every field alternative", pickInt(t, 1, 2), genOpts{lvl: pickInt(t, 2, 1), max: 2, subs: true, bad: !t}, pure),
				{Name: "independent", About: "results of decoding every property alternative are independent", Run: func(c *Ctx) {
					p := places[c.Choose(len(places))]
					alts := propAlts(p.U.Prop, 2)
					l := emitProp(p.U, alts[c.Choose(len(alts))])
					independent(c, p.text(l.String()))
				}},
				{Name: "independent-rich", About: "results of decoding complete calendars are independent", Run: func(c *Ctx) {
					switch n := c.Choose(len(focuses) + 1); n {
					case len(focuses):
						independent(c, emit(rich()).text())
					default:
						cal := focused(nil, focuses[n], genOpts{noDev: true})
						fullComp(focuses[n].Spec, locate(cal, focuses[n]), c.Choose(3))
						independent(c, emit(cal).text())
					}
				}},
				{Name: "elements", About: "elements of one result are independent", Run: selfShared},
			}
			rest := append(cross(t, true, crossIndependent, nil), cross(t, true, nil, pure)...)
			if setPoint == nil {
				return append(s, rest...)
			}
			two := ops
			if !t {
				two = []*op{ops[1], ops[2], ops[7], ops[8]}
			}
			s = append(s,
				&suite{Name: "switch-once", Serial: true, About: "every pair of calls, one stopped before each of its statements while the other runs", Run: func(c *Ctx) { pairs(c, 0) }},
				&suite{Name: "switch-twice", Serial: true, About: "every pair of calls, switched at every pair of function entries", Run: func(c *Ctx) { pairs2(c, two, 1) }},
			)
			if t {
				few := []*op{ops[1], ops[2], ops[7], ops[8]}
				s = append(s,
					&suite{Name: "three-calls", Serial: true, About: "three calls, two of them stopped at every pair of function entries", Run: func(c *Ctx) { triples(c, few, 1) }},
					&suite{Name: "switch-thrice", Serial: true, About: "pairs switched three times at function entries", Run: func(c *Ctx) { pairs3(c, []*op{ops[0], ops[7]}, 1) }},
				)
			}
			return append(s, rest...)
		}})
}
