package main

import (
	"reflect"
	"strings"
)

// Combinations inside one property and across components.

// onePlace lists one place for every distinct property and parameter set.
func onePlace() (out []*place) {
	seen := map[*propSpec]bool{}
	for _, p := range places {
		if !seen[p.U.Prop] {
			seen[p.U.Prop] = true
			out = append(out, p)
		}
	}
	return
}

// inside is a property whose value and parameters deviate independently.
func inside(c *Ctx, ps *propSpec, bad bool) reflect.Value {
	var vals []reflect.Value
	for _, k := range ps.Kinds {
		if k == vEnum {
			return propAlts(ps, 2)[c.Dev(len(propAlts(ps, 2)))]
		}
		alts := valAlts[k]
		if bad {
			alts = append(alts[:len(alts):len(alts)], badAlts[k]...)
		}
		for _, a := range alts {
			v := reflect.New(ps.Type).Elem()
			setValue(ps, v, k, a)
			vals = append(vals, v)
		}
	}
	v := clone(vals[c.Dev(len(vals))])
	for _, q := range ps.Params {
		alts := paramAlts(q)
		if bad {
			alts = append(alts[:len(alts):len(alts)], badParamAlts(q)...)
		}
		if n := c.Dev(1 + len(alts)); n > 0 {
			v.FieldByName(q.Field).Set(alts[n-1])
		}
	}
	return v
}

func insideObject(c *Ctx, ps []*place, bad bool) {
	p := ps[c.Choose(len(ps))]
	checkObject(c, p.object(inside(c, p.U.Prop, bad)))
}

// paramSpellings: a property with deviating value and parameters, its
// parameters in every order and one of them spelled differently.
func paramSpellings(c *Ctx, ps []*place) {
	p := ps[c.Choose(len(ps))]
	l := emitProp(p.U, inside(c, p.U.Prop, false))
	// every order of few parameters, rotations of more
	if n := len(l.Params); n > 1 && n <= 3 {
		var ord []param
		rest := l.Params
		for len(rest) > 0 {
			i := c.Choose(len(rest))
			ord = append(ord, rest[i])
			rest = append(rest[:i:i], rest[i+1:]...)
		}
		l.Params = ord
	} else if n > 3 {
		i := c.Choose(n)
		l.Params = append(l.Params[i:len(l.Params):len(l.Params)], l.Params[:i]...)
	}
	if n := len(l.Params); n > 0 {
		switch k := c.Dev(1 + n*8); {
		case k > 0:
			i, how := (k-1)/8, (k-1)%8
			q := l.Params[i]
			v := append([]pval(nil), q.Vals...)
			out := append([]param(nil), l.Params[:i]...)
			switch how {
			case 0: // the other quoting
				v[len(v)-1].Quoted = !v[len(v)-1].Quoted
				out = append(out, param{q.Name, v})
			case 1: // twice
				out = append(out, q, q)
			case 2: // a further value
				out = append(out, param{q.Name, append(v, pval{"x", v[0].Quoted})})
			case 3:
				out = append(out, param{strings.ToLower(q.Name), v})
			case 4:
				out = append(out, param{"X-P", []pval{{"a:b", true}, {"c", false}}}, q)
			case 5: // empty
				out = append(out, param{q.Name, []pval{{"", v[0].Quoted}}})
			case 6:
				v[0].S = strings.ToLower(v[0].S)
				out = append(out, param{q.Name, v})
			case 7: // a copy at the end
				out = append(out, q)
			}
			out = append(out, l.Params[i+1:]...)
			if how == 7 {
				out = append(out, q)
			}
			l.Params = out
		}
	}
	c.judge("parameter spelling", p.text(l.String()))
}

// twoComponents: two components of any kinds whose fields deviate, written in
// either order.
func twoComponents(c *Ctx, o genOpts) {
	fs := focuses[1:]
	cal := focused(c, fs[c.Choose(len(fs))], o)
	other := focused(c, fs[c.Choose(len(fs))], o)
	a, b := reflect.ValueOf(cal).Elem(), reflect.ValueOf(other).Elem()
	for _, u := range calSpec.Subs {
		f, g := a.FieldByName(u.Field), b.FieldByName(u.Field)
		f.Set(reflect.AppendSlice(f, g))
	}
	checkObject(c, cal)
}

// twoTexts: the same in the order written, the second kind first or last.
func twoTexts(c *Ctx, o genOpts) {
	fs := focuses[1:]
	t := emit(focused(c, fs[c.Choose(len(fs))], o))
	s := emit(focused(c, fs[c.Choose(len(fs))], o))
	for _, n := range s.Subs {
		t.Order = append(t.Order, ^len(t.Subs))
		t.Subs = append(t.Subs, n)
	}
	c.judge("two components", t.text())
}

func init() {
	lateSetups = append(lateSetups, func() { singlePlaces = onePlace() })
}

var singlePlaces []*place

// comboSuites are the combinations judged in full under the vocabulary property.
func comboSuites(t bool) []*suite {
	return []*suite{
		{Name: "inside", Bound: 2, About: "every place: the value and parameters of one property deviating together", Run: func(c *Ctx) { insideObject(c, places, false) }},
		{Name: "inside-more", Bound: pickInt(t, 3, 4), About: "every property once: the value and parameters deviating together", Run: func(c *Ctx) { insideObject(c, singlePlaces, false) }},
		{Name: "spellings", Bound: pickInt(t, 2, 3), About: "value and parameters of one property deviating together, parameters in every order, one of them spelled differently", Run: func(c *Ctx) { paramSpellings(c, singlePlaces) }},
		{Name: "two-components", Bound: pickInt(t, 2, 3), About: "two components of any kinds with deviating fields", Run: func(c *Ctx) { twoComponents(c, genOpts{lvl: 0, max: 1, subs: true}) }},
		{Name: "two-texts", Bound: pickInt(t, 2, 3), About: "two components of any kinds in either order with deviating lines", Run: func(c *Ctx) { twoTexts(c, genOpts{lvl: 0, max: 1, subs: true}) }},
	}
}
