package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode/utf8"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Readers

// schedReader delivers data in given chunks.
type schedReader struct {
	data  []byte
	next  func(left int) int // size of the next chunk, 0 for an empty read
	atEOF bool               // deliver io.EOF together with the last data
	dirty bool               // use the rest of the buffer as scratch space
	fail  int                // offset at which err is returned, -1 for never
	err   error
	with  bool // deliver err together with the data before it
	once  bool // go on delivering data after the error
	pos   int
}

func (r *schedReader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.pos == r.fail && !r.with {
		if r.once {
			r.fail = -1
		}
		return 0, r.err
	}
	left := len(r.data) - r.pos
	if r.fail >= 0 {
		left = r.fail - r.pos
	}
	if left == 0 && r.fail < 0 {
		return 0, io.EOF
	}
	n := left
	if r.next != nil {
		n = r.next(left)
	}
	n = min(n, left, len(p))
	copy(p, r.data[r.pos:r.pos+n])
	if r.dirty {
		for i := n; i < len(p); i++ {
			p[i] = "\r\n X:"[i%5]
		}
	}
	r.pos += n
	if r.fail >= 0 && r.pos == r.fail && r.with {
		if r.once {
			r.fail = -1
		}
		return n, r.err
	}
	if r.atEOF && r.fail < 0 && r.pos == len(r.data) && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

type result struct {
	cal  *ics.Calendar
	err  error
	dump string
}

func (c *Ctx) result(r io.Reader) (result, bool) {
	cal, err, p := c.decodeFrom(r)
	if p {
		return result{}, false
	}
	if (cal == nil) == (err == nil) {
		c.Fail("neither or both results", "cal %v err %v", cal != nil, err)
		return result{}, false
	}
	res := result{cal: cal, err: err}
	if cal != nil {
		res.dump = dump(cal)
	}
	return res, true
}

func (a result) same(b result) bool { return (a.err == nil) == (b.err == nil) && a.dump == b.dump }

func (a result) String() string {
	if a.err != nil {
		return "error " + a.err.Error()
	}
	return a.dump
}

// chunked compares a schedule with the undivided data.
func chunked(c *Ctx, text string, r *schedReader, how string) {
	if r.err == nil {
		r.fail = -1
	}
	r.data = []byte(text)
	want, ok := c.result(strings.NewReader(text))
	if !ok {
		return
	}
	got, ok := c.result(r)
	if !ok {
		return
	}
	c.Note("%s %q", how, clip(text, 300))
	c.Outcome(got.dump, how)
	if !want.same(got) {
		c.Fail("result depends on chunking", "%s\ntext: %q\nwhole:\n%s\nchunked:\n%s", how, clip(text, 1500), want, got)
	}
}

const smallCal = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:1\r\n 2\r\n\t3\r\nDTSTAMP:19970714T170000Z\r\nSUMMARY;LANGUAGE=\"e\r\n n\":h\xc3\r\n \xa9\r\n  \r\n x\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"

// ioTexts: texts with folds everywhere, accepted and rejected ones.
func ioTexts() []string {
	base := "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nEND:VCALENDAR\r\n"
	return []string{
		smallCal,
		base,
		refFold(base, 1),
		refFold(base, 7),
		strings.ReplaceAll(refFold(base, 2), "\r\n ", "\r\n\t"),
		strings.Replace(base, "x\r\n", "x\r\n \r\n \r\n\t\r\n y\r\n", 1),
		strings.Replace(base, "x\r\n", "x\n y\r\n", 1),
		strings.Replace(base, "x\r\n", "x\r y\r\n", 1),
		strings.Replace(base, "x\r\n", "x\r\r\n y\r\n", 1),
		strings.Replace(base, "x\r\n", "x\r\n\r\n y\r\n", 1),
		strings.Replace(base, "x\r\n", "\r\n\r\n", 1),
		strings.Replace(base, "x\r\n", "x\r\n\t\t y \r\n", 1),
		base[:len(base)-2],
		base[:len(base)-1],
		base + " ",
		base + "\t",
		base + "BEGIN:VCALENDAR\r\n junk",
		base[:len(base)-4] + "\r\n AR\r\n",
		base[:len(base)-2] + "\r\n \r\n",
		"", "\r", "\r\n", "\r\n ", " ", "\r\n \r\n ", "B\r\n ", base[:20],
	}
}

// splits: split points as deviations at every offset of the text.
func splits(c *Ctx, text string) {
	var cut []int
	for i := 1; i < len(text); i++ {
		if c.Dev(2) == 1 {
			cut = append(cut, i)
		}
	}
	pos := 0
	mode := c.Choose(4)
	r := &schedReader{atEOF: mode&1 == 1, dirty: mode&2 == 2}
	r.next = func(left int) int {
		pos = len(text) - left
		for _, k := range cut {
			if k > pos {
				return k - pos
			}
		}
		return left
	}
	chunked(c, text, r, fmt.Sprintf("splits at %v mode %d", cut, mode))
}

// window: every way of splitting a window of the text.
func window(c *Ctx, text string, from, width int) {
	set := map[int]bool{}
	for i := 0; i < width && from+i < len(text); i++ {
		if c.Bool() {
			set[from+i] = true
		}
	}
	r := &schedReader{atEOF: c.Bool()}
	r.next = func(left int) int {
		pos := len(text) - left
		for k := pos + 1; k < len(text); k++ {
			if set[k] {
				return k - pos
			}
		}
		return left
	}
	chunked(c, text, r, fmt.Sprintf("window %d: %v", from, set))
}

// constant chunk sizes with empty reads interspersed.
func constant(c *Ctx, texts []string, sizes int) {
	text := texts[c.Choose(len(texts))]
	n := 1 + c.Choose(sizes)
	empty := c.Choose(4)
	mode := c.Choose(4)
	k := 0
	r := &schedReader{atEOF: mode&1 == 1, dirty: mode&2 == 2}
	r.next = func(left int) int {
		k++
		if empty > 0 && k%(empty+1) != 0 {
			return 0
		}
		return n
	}
	chunked(c, text, r, fmt.Sprintf("chunks of %d, empty %d, mode %d", n, empty, mode))
}

// padded: the text is moved so that a region falls on each offset around the
// internal buffer sizes, with several chunk sizes.
func padded(c *Ctx, regions []string, span int) {
	bufs := []int{4096, 8192, 512, 1024, 16384}
	b := bufs[c.Choose(len(bufs))]
	reg := regions[c.Choose(len(regions))]
	off := b - span + c.Choose(2*span)
	pre := "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:19970714T170000Z\r\nSUMMARY:"
	if off < len(pre)+1 {
		c.Skip()
	}
	style := c.Choose(3)
	fill := strings.Repeat("a", off-len(pre))
	if style == 1 { // many short folds before
		fill = ""
		for len(fill)+4 <= off-len(pre) {
			fill += "b\r\n "
		}
		fill += strings.Repeat("c", off-len(pre)-len(fill))
	} else if style == 2 { // unknown lines before
		fill = ""
		l := strings.Repeat("d", 58) + "\r\nX-A:"
		for len(fill)+len(l) <= off-len(pre) {
			fill += l
		}
		fill += strings.Repeat("e", off-len(pre)-len(fill))
	}
	text := pre + fill + reg + "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"
	sizes := []int{1 << 30, b, b - 1, b + 1, b / 2, 1, 3, 4095, 4097}
	n := sizes[c.Choose(len(sizes))]
	r := &schedReader{next: func(int) int { return n }, atEOF: c.Bool()}
	// the whole text is judged too: internal buffers apply to it as well
	c.judge("padded", text)
	if c.fail == nil {
		chunked(c, text, r, fmt.Sprintf("pad %d/%d style %d chunk %d", off, b, style, n))
	}
}

var padRegions = []string{"x\r\n y", "x\r\n\ty", "\r\n \r\n \r\n z", "h\xc3\r\n \xa9", "日本語", "x\r\nCOMMENT:y", "x\r\n  y", "\\\r\n n", "x\r\n \r\nCOMMENT:y", "\\nx", "a\rb", "a\nb"}

// ---------------------------------------------------------------------------
// C05

func foldCheck(c *Ctx, cal *ics.Calendar) {
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	want := dump(cal)
	out, err, p := c.encode(cal)
	if p {
		return
	}
	c.Note("%q", out)
	c.Outcome(out)
	if err != nil {
		c.Fail("valid calendar refused", "%s: %v", want, err)
		return
	}
	foldLegal(c, out)
	if c.fail != nil {
		return
	}
	rc, rv, why := refDecode(out)
	if rv == reject {
		c.Fail("folded output broken", "%q %s", out, why)
		return
	}
	if rv == accept {
		if d := dump(rc); d != want {
			c.Fail("folds change content", "%q\n%s", out, diffLine(want, d))
			return
		}
	}
	c.expectDecode("own output", out, want)
}

func foldLegal(c *Ctx, out string) {
	if !strings.HasSuffix(out, "\r\n") {
		c.Fail("output not ended by CRLF", "%q", out)
		return
	}
	for _, l := range strings.Split(out[:len(out)-2], "\r\n") {
		switch {
		case len(l) > 75:
			c.Fail("line longer than 75 octets", "%d octets: %q", len(l), l)
		case !utf8.ValidString(l):
			c.Fail("fold splits a character", "%q", l)
		case strings.ContainsAny(l, "\r\n"):
			c.Fail("bare CR or LF", "%q", l)
		}
	}
}

var widths = []string{"a", "é", "日", "\U0001d11e"}

// boundary: a run of ASCII up to somewhere near a fold, then every sequence of
// character widths.
func foldBoundary(c *Ctx, froms []int, span, seq int) {
	n := froms[c.Choose(len(froms))] + c.Choose(span)
	var b strings.Builder
	b.WriteString(strings.Repeat("x", n))
	for i := 0; i < seq; i++ {
		b.WriteString(widths[c.Choose(4)])
	}
	b.WriteString("zz")
	foldPlace(c, b.String())
}

func foldPlace(c *Ctx, s string) {
	switch c.Choose(3) {
	case 0:
		p := placeMap["VEVENT.SUMMARY"]
		foldCheck(c, p.object(p.valued(vText, reflect.ValueOf(ics.Text(s)))))
	case 1:
		p := placeMap["VEVENT.ATTENDEE"]
		v := clone(propDefault(p.U.Prop))
		setParamText(v, p.U.Prop.param("MEMBER"), s, "b")
		foldCheck(c, p.object(v))
	case 2:
		p := placeMap["VEVENT.CATEGORIES"]
		foldCheck(c, p.object(p.valued(vMText, reflect.ValueOf(ics.MText{"q", ics.Text(s), "r"}))))
	}
}

// foldRuns: runs of each width at every offset.
func foldRuns(c *Ctx, max int) {
	n := c.Choose(max)
	w := []string{"é", "日", "\U0001d11e", "aé日\U0001d11e", "a", ",", "\n", ";", "é,", "日\n"}[c.Choose(10)]
	m := []int{0, 1, 2, 10, 40, 100}[c.Choose(6)]
	foldPlace(c, strings.Repeat("x", n)+strings.Repeat(w, m))
}

func foldAll(c *Ctx) {
	p := places[c.Choose(len(places))]
	alts := propAlts(p.U.Prop, 2)
	foldCheck(c, p.object(alts[c.Choose(len(alts))]))
}

// inputFolds: folds inserted at up to Bound positions of a text.
func inputFolds(c *Ctx, text string, ws []string) {
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		if k := c.Dev(len(ws) + 1); k > 0 {
			b.WriteString(ws[k-1])
		}
		b.WriteByte(text[i])
	}
	c.judge("fold in input", b.String())
}

var foldWs = []string{"\r\n ", "\r\n\t", "\r\n \r\n ", "\r\n\t\r\n ", "\r\n", "\n ", "\r ", "\r\n  ", "\r\n\r\n "}

func inputFoldsIn(c *Ctx) {
	p := places[c.Choose(len(places))]
	alts := propAlts(p.U.Prop, 1)
	l := emitProp(p.U, alts[c.Choose(len(alts))])
	s := l.String()
	i := c.Choose(len(s) + 1)
	w := foldWs[c.Choose(len(foldWs))]
	c.judge("fold in input", p.text(s[:i]+w+s[i:]))
}

// ---------------------------------------------------------------------------
// C06

var errRead = errors.New("reader failed")

// completeAt is the offset after the line ending the calendar, -1 if none.
func completeAt(text string) int {
	// grow line by line; the first accepted prefix ends the calendar
	for i := 0; i < len(text); i++ {
		if text[i] != '\n' {
			continue
		}
		if i+1 < len(text) && (text[i+1] == ' ' || text[i+1] == '\t') {
			continue
		}
		if _, v, _ := refDecode(text[:i+1]); v == accept {
			return i + 1
		}
	}
	return -1
}

var cutTexts []string
var cutEnds []int

func fillCuts() {
	cutTexts = append(cutTexts, smallCal, smallCal+"BEGIN:VCALENDAR\r\nVERSION:2.0\r\n", refFold(smallCal[:40]+"END:VCALENDAR\r\n", 3))
	for _, f := range focuses {
		root, at := minimal(f)
		_ = at
		cutTexts = append(cutTexts, root.text())
	}
	full := emit(fullEach("VEVENT")).text()
	cutTexts = append(cutTexts, full)
	for _, t := range cutTexts {
		cutEnds = append(cutEnds, completeAt(t))
	}
}

func fullEach(name string) *ics.Calendar {
	f := focus{name, comps[name]}
	cal := focused(nil, f, genOpts{noDev: true})
	fullComp(f.Spec, locate(cal, f), 1)
	return cal
}

// cutOff: the data ends, or the reader fails, at every offset.
func cutOff(c *Ctx, texts []int) {
	ti := texts[c.Choose(len(texts))]
	text, end := cutTexts[ti], cutEnds[ti]
	if end < 0 {
		panic("harness: cut text " + text)
	}
	k := c.Choose(len(text) + 1)
	mode := c.Choose(8)
	chunk := []int{1 << 30, 1, 7}[c.Choose(3)]
	r := &schedReader{data: []byte(text), next: func(int) int { return chunk }, fail: -1}
	how := ""
	switch mode {
	case 0:
		r.data = r.data[:k]
		how = "ends"
	case 1:
		r.data = r.data[:k]
		r.atEOF = true
		how = "ends with its last data"
	default:
		r.fail, r.err = k, errRead
		r.with = mode&1 == 1 && k > 0
		how = "fails"
		switch {
		case mode >= 6:
			r.err = io.ErrUnexpectedEOF
		case mode >= 4:
			r.once = true
			how = "fails once"
		}
	}
	res, ok := c.result(r)
	if !ok {
		return
	}
	c.Outcome(fmt.Sprint(res.err))
	c.Note("%s at %d of %q: %v", how, k, clip(text, 300), res.err)
	switch {
	case k == end && mode >= 2:
		// whether the line is continued is not known yet
	case k < end:
		// the last line without its line end is complete content; without the
		// line end its status is only pinned down for failing readers
		if res.err == nil && !(mode < 2 && k >= end-2) {
			c.Fail("calendar from incomplete data", "reader %s at %d of %d\ntext: %q\n%s", how, k, end, clip(text[:k], 2000), res.dump)
		}
	case mode >= 2 && res.err != nil:
		// what lies after the calendar may be read or not
	default:
		want, ok := c.result(strings.NewReader(text))
		if ok && !want.same(res) {
			c.Fail("complete data not read", "reader %s at %d, complete at %d\ntext: %q\ngot %s", how, k, end, clip(text, 2000), res)
		}
	}
}

// ---------------------------------------------------------------------------
// C07

var errWrite = errors.New("writer failed")

// faultWriter fails at one call after taking part of the data.
type faultWriter struct {
	got   bytes.Buffer
	calls int
	at    int
	n     int
	err   error
	after int // calls after the failure
	sizes []int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.calls > w.at {
		w.after++
		w.calls++
		w.got.Write(p)
		return len(p), nil
	}
	if w.at == w.calls {
		w.calls++
		n := min(w.n, len(p))
		w.got.Write(p[:n])
		return n, w.err
	}
	w.calls++
	w.sizes = append(w.sizes, len(p))
	w.got.Write(p)
	return len(p), nil
}

// stringFaultWriter also offers WriteString and WriteByte.
type stringFaultWriter struct{ faultWriter }

func (w *stringFaultWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *stringFaultWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

var faultCals []func() *ics.Calendar

func fillFaults() {
	for _, f := range focuses {
		f := f
		faultCals = append(faultCals, func() *ics.Calendar { return focused(nil, f, genOpts{noDev: true}) })
	}
	faultCals = append(faultCals, func() *ics.Calendar {
		p := placeMap["VEVENT.SUMMARY"]
		cal := p.object(p.valued(vText, reflect.ValueOf(ics.Text(strings.Repeat("日a,\n", 50)))))
		cal.Event[0].RecurrenceRule = &ics.PropRecurrenceRule{Frequency: ics.Daily, ByMonth: []ics.Month{1, 2}}
		return cal
	})
	for _, f := range focuses {
		f := f
		if len(f.Spec.Props) == 0 {
			continue
		}
		faultCals = append(faultCals, func() *ics.Calendar {
			cal := focused(nil, f, genOpts{noDev: true})
			fullComp(f.Spec, locate(cal, f), 0)
			return cal
		})
	}
}

type faultBase struct {
	out   string
	sizes []int
}

func writeFaults(c *Ctx, kinds int) {
	ci := c.Choose(len(faultCals))
	cal := faultCals[ci]()
	str := c.Bool()
	mk := func(at, n int, err error) (io.Writer, *faultWriter) {
		if str {
			w := &stringFaultWriter{faultWriter{at: at, n: n, err: err}}
			return w, &w.faultWriter
		}
		w := &faultWriter{at: at, n: n, err: err}
		return w, w
	}
	w, base := mk(1<<30, 0, nil)
	err, p := c.encodeTo(w, cal)
	if p {
		return
	}
	if err != nil {
		c.Fail("valid calendar refused", "%s: %v", dump(cal), err)
		return
	}
	full := base.got.String()
	errs := []error{errWrite, io.EOF, io.ErrShortWrite}
	e := errs[c.Choose(kinds)]
	// one execution covers every call; the partial length is enumerated by
	// offset so that each byte position is hit once per error
	for at, size := range base.sizes {
		for n := 0; n <= size; n++ {
			w, f := mk(at, n, e)
			err, p := c.encodeTo(w, cal)
			if p {
				return
			}
			got := f.got.String()
			switch {
			case err != e:
				c.Fail("writer's error not returned", "call %d, %d of %d bytes taken: returned %v, want %v\n%s", at, n, size, err, e, dump(cal))
			case f.after > 0:
				c.Fail("written to after failing", "call %d, %d of %d bytes taken: %d more calls\n%s", at, n, size, f.after, dump(cal))
			case !strings.HasPrefix(full, got):
				c.Fail("accepted bytes are not a prefix", "call %d: %q\nof %q", at, got, full)
			}
			if c.fail != nil {
				return
			}
		}
	}
	c.Outcome(full)
	c.Note("%d calls, %d bytes: %q", len(base.sizes), len(full), clip(full, 300))
}

type plainWriter struct{ b []byte }

func (w *plainWriter) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	for i := range p {
		_ = i
	}
	return len(p), nil
}

func writers(c *Ctx, cal *ics.Calendar) {
	if v, _ := refValid(cal); v != accept {
		c.Skip()
	}
	want, err, p := c.encode(cal)
	if p || err != nil {
		return
	}
	var outs [5]string
	var pw plainWriter
	var bb bytes.Buffer
	var sb strings.Builder
	var bw bytes.Buffer
	b := bufio.NewWriterSize(&bw, 16)
	sf := &stringFaultWriter{faultWriter{at: 1 << 30}}
	for i, w := range []io.Writer{&pw, &bb, &sb, b, sf} {
		if err, p := c.encodeTo(w, cal); p {
			return
		} else if err != nil {
			c.Fail("error without a failing writer", "writer %d: %v", i, err)
			return
		}
	}
	b.Flush()
	outs = [5]string{string(pw.b), bb.String(), sb.String(), bw.String(), sf.got.String()}
	for i, o := range outs {
		if o != want {
			c.Fail("output depends on the writer", "writer %d: %q\nwant %q", i, o, want)
		}
	}
	c.Outcome(want)
	c.Note("%q", want)
}

// ---------------------------------------------------------------------------
// C03

var byteAlpha = []string{"B", ":", ";", "=", "\"", "\r", "\n", " ", ",", "\\", "\x00", "\xff", "é"}
var docTokens = []string{
	"BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "VERSION:2.0\r\n", "PRODID:x\r\n", "BEGIN:VEVENT\r\n", "END:VEVENT\r\n", "UID:1\r\n", "DTSTAMP:19970714T170000Z\r\n",
	"BEGIN:VALARM\r\n", "ACTION:AUDIO\r\n", "END:VALARM\r\n", "TRIGGER:PT1H\r\n", "BEGIN:VTIMEZONE\r\n", "X:y\r\n", " ", "\r\n", ":", "BEGIN", "END:",
}

func docs(c *Ctx, tokens []string, max int, prefix string) {
	c.judge("document", prefix+c.str(tokens, max))
}

var editBytes = []string{"", "\r", "\n", "\r\n", "\r\n ", ":", ";", "=", "\"", ",", "\\", "^", "0", "9", "A", "T", "Z", "-", "+", "/", " ", "\t", "\x00", "\x7f", "\xc3", "\xff", "é", ".", "%", "1111111111111111111111", "P", "M"}

// edits: every single edit of a property line.
func edits(c *Ctx, lvl int, n int) {
	p := places[c.Choose(len(places))]
	alts := propAlts(p.U.Prop, lvl)
	l := emitProp(p.U, alts[c.Choose(len(alts))])
	s := l.String()
	for k := 0; k < n; k++ {
		i := c.Choose(len(s) + 1)
		e := editBytes[c.Choose(len(editBytes))]
		switch c.Choose(4) {
		case 0: // insert
			s = s[:i] + e + s[i:]
		case 1: // replace
			if i == len(s) {
				c.Skip()
			}
			s = s[:i] + e + s[i+1:]
		case 2: // cut the rest
			s = s[:i] + e
		case 3: // double the rest
			s = s[:i] + e + s
		}
	}
	c.judge("edited line", p.text(s))
}

// docEdits: every single edit of a whole calendar.
func docEdits(c *Ctx, texts []string) {
	s := texts[c.Choose(len(texts))]
	i := c.Choose(len(s) + 1)
	e := editBytes[c.Choose(len(editBytes))]
	switch c.Choose(3) {
	case 0:
		s = s[:i] + e + s[i:]
	case 1:
		if i == len(s) {
			c.Skip()
		}
		s = s[:i] + e + s[i+1:]
	case 2:
		s = s[:i] + e
	}
	c.judge("edited calendar", s)
}

// lineOps: every line of a calendar removed, doubled, moved or swapped.
func lineOps(c *Ctx) {
	names := []string{"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE"}
	cal := fullEach(names[c.Choose(len(names))])
	ls := emit(cal).logical(nil)
	i, j := c.Choose(len(ls)), c.Choose(len(ls))
	var out []string
	switch c.Choose(4) {
	case 0: // drop i..j
		if j < i {
			c.Skip()
		}
		out = append(append(out, ls[:i]...), ls[j+1:]...)
	case 1: // copy i to j
		out = append(append(append(out, ls[:j]...), ls[i]), ls[j:]...)
	case 2: // swap
		out = append(out, ls...)
		out[i], out[j] = out[j], out[i]
	case 3: // join without line end, or cut there
		out = append(out, ls...)
		out[i] += out[j]
	}
	c.judge("edited lines", joinLines(out))
}

// huge inputs: sizes far beyond any internal buffer.
func huge(c *Ctx) {
	n := []int{1000, 70000, 1000000}[c.Choose(3)]
	pre, post := placeMap["VEVENT"].Pre, placeMap["VEVENT"].Post
	rep := func(s string) string { return strings.Repeat(s, n) }
	kinds := []func() string{
		func() string { return pre + rep("BEGIN:X\r\n") + rep("END:X\r\n") + post },
		func() string { return pre + rep("BEGIN:X\r\n") },
		func() string { return pre + rep("BEGIN:VEVENT\r\n") },
		func() string { return rep("BEGIN:VCALENDAR\r\n") },
		func() string { return pre + "COMMENT:" + rep("x") + "\r\n" + post },
		func() string { return pre + "COMMENT:" + rep("\r\n x") + "\r\n" + post },
		func() string { return pre + "COMMENT:" + rep("\r\n ") + "\r\n" + post },
		func() string { return pre + "COMMENT:" + rep("\\n") + "\r\n" + post },
		func() string { return pre + "COMMENT;X=" + rep("a,") + ":x\r\n" + post },
		func() string { return pre + "COMMENT" + rep(";X=a") + ":x\r\n" + post },
		func() string { return pre + "ATTENDEE;MEMBER=" + rep("\"a\",") + "\"b\":mailto:x\r\n" + post },
		func() string { return pre + "CATEGORIES:" + rep("a,") + "\r\n" + post },
		func() string { return pre + "COMMENT;LANGUAGE=\"" + rep("^n") + "\":x\r\n" + post },
		func() string { return pre + "RRULE:FREQ=DAILY;BYMONTH=1" + rep(",1") + "\r\n" + post },
		func() string { return pre + "RRULE:FREQ=DAILY" + rep(";X=1") + "\r\n" + post },
		func() string { return pre + "DURATION:P" + rep("1") + "D\r\n" + post },
		func() string { return pre + "PRIORITY:" + rep("0") + "\r\n" + post },
		func() string { return pre + "GEO:" + rep("0") + "1;1\r\n" + post },
		func() string { return pre + "URL:" + rep("%41") + "\r\n" + post },
		func() string { return pre + "ATTACH;VALUE=BINARY;ENCODING=BASE64:" + rep("AAAA") + "\r\n" + post },
		func() string { return pre + rep("COMMENT:x\r\n") + post },
		func() string {
			return pre + "BEGIN:VALARM\r\nACTION:NONE\r\n" + rep("X:y\r\n") + "END:VALARM\r\n" + post
		},
		func() string { return rep("A") },
		func() string { return rep("\r\n ") },
		func() string { return rep("\r") },
		func() string { return rep("A;B=\"") },
		func() string { return pre + rep("A") + ":x\r\n" + post },
	}
	t := kinds[c.Choose(len(kinds))]()
	cal, err, p := c.decode(t)
	if !p && (cal == nil) == (err == nil) {
		c.Fail("neither or both results", "%q...", clip(t, 200))
	}
	if err != nil {
		c.Outcome(err.Error())
	} else {
		c.Outcome("accepted")
	}
}

func init() {
	lateSetups = append(lateSetups, fillCuts, fillFaults)
	register(&property{ID: "C03", Level: "model_checking",
		Assume: []string{"nontermination is judged by a 40 s limit on one execution, unbounded memory by 10 GiB"},
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "bytes", About: "every byte string over the structural alphabet as whole input", Run: func(c *Ctx) { docs(c, byteAlpha, pickInt(t, 5, 6), "") }},
				{Name: "bytes-inside", About: "every byte string over the structural alphabet inside an event", Run: func(c *Ctx) {
					docs(c, byteAlpha, pickInt(t, 4, 5), placeMap["VEVENT"].Pre+"CO")
				}},
				{Name: "documents", About: "every sequence of document pieces", Run: func(c *Ctx) { docs(c, docTokens, pickInt(t, 4, 5), "") }},
				{Name: "documents-inside", About: "every sequence of document pieces after an event has begun", Run: func(c *Ctx) { docs(c, docTokens, pickInt(t, 4, 5), placeMap["VEVENT"].Pre) }},
				{Name: "documents-in-alarm", About: "every sequence of document pieces in an alarm", Run: func(c *Ctx) {
					docs(c, docTokens, pickInt(t, 4, 5), placeMap["VEVENT"].Pre+"BEGIN:VALARM\r\n")
				}},
				{Name: "line-edits", About: "every single edit of every property line", Run: func(c *Ctx) { edits(c, pickInt(t, 0, 1), 1) }},
				{Name: "calendar-edits", About: "every single edit of complete small calendars", Run: func(c *Ctx) { docEdits(c, cutTexts[:len(cutTexts)-pickInt(t, 1, 0)]) }},
				{Name: "line-operations", About: "lines dropped, doubled, swapped and joined", Run: lineOps},
				{Name: "huge", About: "repetition of each construct up to a million times", Run: huge},
			}
			s = append(s, borrow(t, decodeOnly, noCal, textSuites...)...)
			if t {
				s = append(s, &suite{Name: "double-edits", About: "every pair of edits of the plain property lines", Run: func(c *Ctx) {
					p := places[c.Choose(len(places))]
					if p.F.Path != "VEVENT" && p.F.Path != "VEVENT/AUDIO" && p.F.Path != "STANDARD" {
						c.Skip()
					}
					l := emitProp(p.U, propDefault(p.U.Prop))
					s := l.String()
					for k := 0; k < 2; k++ {
						i := c.Choose(len(s) + 1)
						e := editBytes[c.Choose(len(editBytes))]
						s = s[:i] + e + s[min(i+c.Choose(2), len(s)):]
					}
					c.judge("edited line", p.text(s))
				}})
			}
			return s
		}})
	register(&property{ID: "C04", Level: "model_checking",
		Suites: func(t bool) []*suite {
			tx := ioTexts()
			s := []*suite{
				{Name: "splits", Bound: pickInt(t, 2, 3), About: "up to Bound split points anywhere in a calendar full of folds", Run: func(c *Ctx) { splits(c, smallCal) }},
				{Name: "splits-all", Bound: pickInt(t, 2, 3), About: "up to Bound split points in every text", Run: func(c *Ctx) { splits(c, tx[c.Choose(len(tx))]) }},
				{Name: "windows", About: "every way of splitting each window of a calendar full of folds", Run: func(c *Ctx) {
					w := pickInt(t, 8, 11)
					window(c, smallCal, c.Choose(len(smallCal)), w)
				}},
				{Name: "constant", About: "constant chunk sizes with empty reads, data with EOF, scratch use", Run: func(c *Ctx) { constant(c, tx, pickInt(t, 64, 256)) }},
				{Name: "padded", About: "folds, characters and line ends at every offset around buffer sizes", Run: func(c *Ctx) { padded(c, padRegions, pickInt(t, 8, 16)) }},
				{Name: "readers", About: "every text through every kind of reader", Run: func(c *Ctx) { readers(c, readerTexts()) }},
				{Name: "rich", About: "a rich calendar folded at each width, in chunks", Run: func(c *Ctx) {
					text := refFold(emit(fullEach([]string{"VEVENT", "VTODO", "VTIMEZONE"}[c.Choose(3)])).text(), 1+c.Choose(pickInt(t, 40, 80)))
					n := 1 + c.Choose(pickInt(t, 20, 80))
					chunked(c, text, &schedReader{next: func(int) int { return n }}, fmt.Sprintf("chunks of %d", n))
				}},
			}
			return append(s, cross(t, t, crossChunks, onEmitted(crossChunks))...)
		}})
	register(&property{ID: "C05", Level: "model_checking",
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "code-points", About: "runs of every code point across a fold in every alignment", Run: foldRune},
				{Name: "boundary", About: "every sequence of character widths around the first folds", Run: func(c *Ctx) {
					foldBoundary(c, []int{50, 125, 200}, 20, pickInt(t, 5, 7))
				}},
				{Name: "runs", About: "runs of each width after every offset", Run: func(c *Ctx) { foldRuns(c, pickInt(t, 320, 1000)) }},
				{Name: "everywhere", About: "every alternative of every property", Run: foldAll},
				{Name: "input", Bound: pickInt(t, 2, 3), About: "up to Bound folds or line breaks anywhere in a calendar", Run: func(c *Ctx) {
					t := []string{"BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID;X=\"a\":hé\\n\r\nEND:VCALENDAR\r\n"}
					inputFolds(c, t[0], foldWs)
				}},
				{Name: "input-small", Bound: pickInt(t, 1, 2), About: "folds in a calendar that is already folded", Run: func(c *Ctx) { inputFolds(c, smallCal, foldWs) }},
				{Name: "input-everywhere", About: "a fold or line break at every position of every property line", Run: inputFoldsIn},
				{Name: "input-widths", About: "a rich calendar folded at every width", Run: func(c *Ctx) {
					cal := rich()
					txt := refFold(emit(cal).text(), 1+c.Choose(120))
					if c.Bool() {
						txt = strings.ReplaceAll(txt, "\r\n ", "\r\n\t")
					}
					c.expectDecode("folded", txt, dump(cal))
				}},
			}
			s = append(s, cross(t, true, crossFolds, nil)...)
			return append(s, cross(t, true, nil, foldCheck)...)
		}})
	register(&property{ID: "C06", Level: "model_checking",
		Assume: []string{"data ending inside the line end of the last line is not judged unless the reader fails there", "a reader failing after the last line may yield the calendar or its failure"},
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "cut", About: "every offset x kind of ending x chunking of small calendars", Run: func(c *Ctx) {
					all := make([]int, len(cutTexts)-1)
					for i := range all {
						all[i] = i
					}
					cutOff(c, all)
				}},
				{Name: "error-kinds", About: "every kind of error at every offset, once or for good, alone or with data", Run: readErrors},
				{Name: "cut-full", About: "every offset of an event with all properties", Run: func(c *Ctx) { cutOff(c, []int{len(cutTexts) - 1}) }},
			}
			return append(s, cross(t, t, crossCuts, onEmitted(crossCuts))...)
		}})
	register(&property{ID: "C07", Level: "model_checking",
		Suites: func(t bool) []*suite {
			s := []*suite{
				{Name: "faults", About: "every write call x every partial length x kind of error x kind of writer", Run: func(c *Ctx) { writeFaults(c, pickInt(t, 2, 3)) }},
				{Name: "error-kinds", About: "every kind of error at every write call of every component kind", Run: writeErrors},
				focusSuite("writers", "every field alternative written to different writers", 1, genOpts{lvl: pickInt(t, 1, 2), max: 1, subs: true}, writers),
			}
			return append(s, cross(t, t, nil, crossFaults)...)
		}})
}
