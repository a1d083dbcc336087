package main

import (
	"reflect"
	"strings"

	"vimagination.zapto.org/ics"
)

// place is a property position in a minimal acceptable calendar: pre + line +
// CRLF + post is a complete text in which only that line is free.
type place struct {
	F         focus
	U         *propUse
	Pre, Post string
}

var (
	places   []*place
	placeMap = map[string]*place{}
)

func init() { setups = append(setups, fillPlaces) }

// minimal gives the tree of the smallest calendar containing the focus, and
// the focused component in it.
func minimal(f focus) (root, at *node) {
	root = emit(focused(nil, f, genOpts{noDev: true}))
	at = root
	switch {
	case f.Path == "VCALENDAR":
	case f.Path == "STANDARD", f.Path == "DAYLIGHT", f.Spec.Action != "":
		at = root.Subs[0].Subs[0]
	default:
		at = root.Subs[0]
	}
	return
}

func (n *node) drop(name string) {
	var ord []int
	for _, o := range n.Order {
		if o >= 0 && n.Lines[o].Name == name {
			continue
		}
		ord = append(ord, o)
	}
	n.Order = ord
}

func (n *node) has(name string) bool {
	for _, o := range n.Order {
		if o >= 0 && n.Lines[o].Name == name {
			return true
		}
	}
	return false
}

// put appends a line before any sub-component.
func (n *node) put(l line) {
	n.Lines = append(n.Lines, l)
	i := 0
	for i < len(n.Order) && n.Order[i] >= 0 {
		i++
	}
	n.Order = append(n.Order[:i:i], append([]int{len(n.Lines) - 1}, n.Order[i:]...)...)
}

// companions adds what a property cannot do without.
func companions(c *compSpec, n *node, name string) {
	for _, r := range c.Rules {
		other := ""
		switch {
		case r.Kind == ruleNeed && r.A == name:
			other = r.B
		case r.Kind == ruleBoth && r.A == name:
			other = r.B
		case r.Kind == ruleBoth && r.B == name:
			other = r.A
		}
		if other != "" && !n.has(other) {
			u := c.prop(other)
			n.put(emitProp(u, propDefault(u.Prop)))
		}
	}
}

const marker = "X-MARKED-PLACE"

func splitAt(root, at *node) (pre, post string) {
	t := root.text()
	i := strings.Index(t, marker+":\r\n")
	return t[:i], t[i+len(marker)+3:]
}

func fillPlaces() {
	for _, f := range focuses {
		for i := range f.Spec.Props {
			u := &f.Spec.Props[i]
			root, at := minimal(f)
			at.drop(u.Name)
			companions(f.Spec, at, u.Name)
			at.put(line{Name: marker})
			p := &place{F: f, U: u}
			p.Pre, p.Post = splitAt(root, at)
			places = append(places, p)
			placeMap[f.Path+"."+u.Name] = p
		}
		// a free line that need not be a property of the component
		root, at := minimal(f)
		at.put(line{Name: marker})
		p := &place{F: f}
		p.Pre, p.Post = splitAt(root, at)
		placeMap[f.Path] = p
	}
	fillTelling()
}

func (p *place) text(l string) string { return p.Pre + l + "\r\n" + p.Post }

// locate finds the focused component of a calendar made by focused.
func locate(cal *ics.Calendar, f focus) reflect.Value {
	v := reflect.ValueOf(cal).Elem()
	switch {
	case f.Path == "VCALENDAR":
		return v
	case f.Path == "STANDARD" || f.Path == "DAYLIGHT":
		return v.FieldByName("Timezone").Index(0).FieldByName(f.Spec.Go).Index(0)
	case f.Spec.Action != "":
		host := comps[strings.SplitN(f.Path, "/", 2)[0]]
		return v.FieldByName(host.Go).Index(0).FieldByName("Alarm").Index(0).Field(0).Elem().Elem()
	}
	return v.FieldByName(f.Spec.Go).Index(0)
}

func setProp(comp reflect.Value, u *propUse, vals ...reflect.Value) {
	f := comp.FieldByName(u.Field)
	switch u.Card {
	case cardOne:
		f.Set(vals[0])
	case cardOpt:
		p := reflect.New(u.Prop.Type)
		p.Elem().Set(vals[0])
		f.Set(p)
	case cardMany:
		f.Set(reflect.Append(reflect.Zero(f.Type()), vals...))
	}
}

// object is a minimal calendar with the place's property set to the values.
func (p *place) object(vals ...reflect.Value) *ics.Calendar {
	cal := focused(nil, p.F, genOpts{noDev: true})
	comp := locate(cal, p.F)
	setProp(comp, p.U, vals...)
	for _, r := range p.F.Spec.Rules {
		other := ""
		switch {
		case (r.Kind == ruleNeed || r.Kind == ruleBoth) && r.A == p.U.Name:
			other = r.B
		case r.Kind == ruleBoth && r.B == p.U.Name:
			other = r.A
		}
		if other != "" {
			u := p.F.Spec.prop(other)
			setProp(comp, u, propDefault(u.Prop))
		}
	}
	return cal
}

// valued is the place's property holding a bare value of a kind.
func (p *place) valued(k valKind, g reflect.Value) reflect.Value {
	v := reflect.New(p.U.Prop.Type).Elem()
	setValue(p.U.Prop, v, k, g)
	return v
}

// checkObject: Encode agrees with the reference on validity, what it writes
// means the same to the reference reader and to Decode, and Decode reads the
// reference writer's rendering as the same calendar.
func checkObject(c *Ctx, cal *ics.Calendar) {
	if c.onCal != nil {
		c.onCal(c, cal)
		return
	}
	v, why := refValid(cal)
	want := dump(cal)
	out, err, p := c.encode(cal)
	if p {
		return
	}
	if dump(cal) != want {
		c.Fail("Encode changed its argument", "%s", diffLine(want, dump(cal)))
		return
	}
	c.Note("%s calendar:\n%sencoded: %q", v, want, out)
	switch v {
	case reject:
		if err == nil {
			c.Fail("invalid calendar encoded", "%s\ncalendar:\n%s\noutput: %q", why, want, out)
		}
		c.Outcome("refused", why)
		return
	case unspec:
		c.Outcome("unspecified")
		return
	}
	if err != nil {
		c.Fail("valid calendar refused", "calendar:\n%s\nerror: %v", want, err)
		return
	}
	c.Outcome(out)
	rc, rv, why := refDecode(out)
	if rv == reject {
		c.Fail("output is not valid for the reference reader", "calendar:\n%s\noutput: %q\n%s", want, out, why)
		return
	} else if rv == accept {
		if d := dump(rc); d != want {
			c.Fail("output means something else to the reference reader", "output: %q\n%s", out, diffLine(want, d))
			return
		}
	}
	if !c.expectDecode("own output", out, want) {
		return
	}
	if t := emit(cal).text(); t != out {
		c.expectDecode("reference rendering", t, want)
	}
}

// placesFor lists the places whose property can hold a value kind.
func placesFor(k valKind) []*place {
	var out []*place
	for _, p := range places {
		for _, x := range p.U.Prop.Kinds {
			if x == k {
				out = append(out, p)
			}
		}
	}
	return out
}

// head renders name and VALUE parameter announcing kind k.
func (p *place) head(k valKind) string {
	if k != p.U.Prop.Kinds[0] {
		return p.U.Name + ";VALUE=" + valueNames[k]
	}
	return p.U.Name
}

// str enumerates all sequences of up to max pieces.
func (c *Ctx) str(alpha []string, max int) string {
	var b strings.Builder
	for i := 0; i < max; i++ {
		n := c.Choose(len(alpha) + 1)
		if n == 0 {
			break
		}
		b.WriteString(alpha[n-1])
	}
	return b.String()
}
