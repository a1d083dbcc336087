package main

import (
	"reflect"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// C22: names that resemble known ones

var nearForms = []func(string) string{
	func(s string) string { return s },
	func(s string) string { return "X-" + s },
	func(s string) string { return s + "-X" },
	func(s string) string { return "X" + s },
	func(s string) string { return s + "X" },
	func(s string) string { return "-" + s },
	func(s string) string { return s + "-" },
	func(s string) string { return s + "1" },
	func(s string) string { return s[1:] },
	func(s string) string { return s[:len(s)-1] },
	func(s string) string { return s + s },
	func(s string) string { return s + "S" },
	func(s string) string { return strings.TrimSuffix(s, "S") },
	func(s string) string { return strings.ReplaceAll(s, "-", "") },
	func(s string) string { return s + "-" + s },
	func(s string) string { i := strings.IndexByte(s, '-'); return s[i+1:] },
	func(s string) string { s, _, _ = strings.Cut(s, "-"); return s },
	func(s string) string { return "X-" + s + "-X" },
	func(s string) string { return "IANA-" + s },
	func(s string) string { return s[:len(s)/2] + s[len(s)/2+1:] },
	func(s string) string { return s[:len(s)/2] + "-" + s[len(s)/2:] },
}

var nearParams []param

func fillNear() {
	for n, q := range params {
		v := "a"
		switch q.Kind {
		case pEnum, pOnly:
			if len(q.Words) > 0 {
				v = q.Words[len(q.Words)-1]
			}
		case pBool:
			v = "TRUE"
		case pMedia:
			v = "text/plain"
		case pQURI, pQAddrL, pQTextL, pQText:
			nearParams = append(nearParams, param{Name: n, Vals: []pval{{S: "mailto:x@y", Quoted: true}}})
			continue
		}
		nearParams = append(nearParams, param{Name: n, Vals: []pval{{S: v}}})
	}
	for n, v := range map[string]string{"VALUE": "DATE", "ENCODING": "BASE64", "TZID": "America/New_York"} {
		if params[n] == nil {
			nearParams = append(nearParams, param{Name: n, Vals: []pval{{S: v}}})
		}
	}
	sort.Slice(nearParams, func(i, j int) bool { return nearParams[i].Name < nearParams[j].Name })
}

func init() { lateSetups = append(lateSetups, fillNear) }

func nearParam(c *Ctx) {
	p := places[c.Choose(len(places))]
	q := nearParams[c.Choose(len(nearParams))]
	q.Name = nearForms[c.Choose(len(nearForms))](q.Name)
	if q.Name == "" {
		c.Skip()
	}
	l := emitProp(p.U, propDefault(p.U.Prop))
	if c.Bool() {
		l.Params = append([]param{q}, l.Params...)
	} else {
		l.Params = append(l.Params[:len(l.Params):len(l.Params)], q)
	}
	c.judge("near parameter", p.text(l.String()))
}

func nearLine(c *Ctx) {
	f := focuses[c.Choose(len(focuses))]
	p := places[c.Choose(len(places))]
	l := emitProp(p.U, propDefault(p.U.Prop))
	if n := c.Choose(3); n == 1 {
		l.Value = ""
	} else if n == 2 {
		l.Value = "BEGIN:VALARM"
	}
	l.Name = nearForms[1+c.Choose(len(nearForms)-1)](l.Name)
	if l.Name == "" {
		c.Skip()
	}
	c.judge("near property", placeMap[f.Path].text(l.String()))
}

func nearComponent(c *Ctx) {
	f := focuses[c.Choose(len(focuses))]
	if f.Spec.Action != "" {
		c.Skip() // components in alarms are not judged
	}
	g := focuses[c.Choose(len(focuses))]
	n := emitComp(g.Spec, reflect.ValueOf(focusedComp(g)))
	n.Name = nearForms[1+c.Choose(len(nearForms)-1)](g.Spec.Name)
	for k := range comps {
		if strings.HasPrefix(k, n.Name) {
			if n.Name == k || n.Name == "VALARM" {
				c.Skip()
			}
		}
	}
	c.judge("near component", placeMap[f.Path].text(strings.Join(n.logical(nil), "\r\n")))
}

func focusedComp(f focus) any {
	return locate(focused(nil, f, genOpts{noDev: true}), f).Interface()
}

// ---------------------------------------------------------------------------
// C10: pairs of values

// twice: a property given twice, one of the values being any alternative.
func twice(c *Ctx) {
	p := places[c.Choose(len(places))]
	alts := propAlts(p.U.Prop, 2)
	a := lineText(emitProp(p.U, alts[c.Choose(len(alts))]))
	b := lineText(emitProp(p.U, propDefault(p.U.Prop)))
	switch c.Choose(3) {
	case 0:
		b = a
	case 1:
		a, b = b, a
	}
	if n := c.Choose(3); n == 1 {
		b = "X-A:b\r\n" + b
	} else if n == 2 {
		// the remaining properties of the component between
		var ls []string
		for i := range p.F.Spec.Props {
			u := &p.F.Spec.Props[i]
			if u.Card == cardMany && u.Name != p.U.Name {
				ls = append(ls, lineText(emitProp(u, propDefault(u.Prop))))
			}
		}
		if ls == nil {
			c.Skip()
		}
		b = strings.Join(ls, "\r\n") + "\r\n" + b
	}
	c.judge("twice", p.text(a+"\r\n"+b))
}

// ruled: the two properties of a rule, each with any alternative.
func ruled(c *Ctx) {
	f := focuses[c.Choose(len(focuses))]
	if len(f.Spec.Rules) == 0 {
		c.Skip()
	}
	r := f.Spec.Rules[c.Choose(len(f.Spec.Rules))]
	if r.Kind == ruleAny {
		c.Skip()
	}
	root, at := minimal(f)
	at.drop(r.A)
	at.drop(r.B)
	var ls []line
	for _, n := range []string{r.A, r.B} {
		u := f.Spec.prop(n)
		alts := propAlts(u.Prop, 2)
		if k := c.Choose(len(alts) + 1); k > 0 {
			ls = append(ls, emitProp(u, alts[k-1]))
		}
	}
	if len(ls) == 2 && c.Bool() {
		ls[0], ls[1] = ls[1], ls[0]
	}
	for _, l := range ls {
		at.put(l)
	}
	c.judge("ruled", root.text())
}

func lineText(l line) string { return l.String() }
