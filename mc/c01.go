package main

import (
	"reflect"

	"vimagination.zapto.org/ics"
)

func roundTrip(c *Ctx, cal *ics.Calendar) {
	v, _ := refValid(cal)
	want := dump(cal)
	out, err, p := c.encode(cal)
	if p {
		return
	}
	if err != nil {
		c.Outcome("refused", err.Error())
		return
	}
	got, err, p := c.decode(out)
	if p {
		return
	}
	c.Outcome(out)
	c.Note("calendar:\n%sencoded: %q", want, out)
	if v == unspec {
		return
	}
	if err != nil {
		c.Fail("output not decodable", "calendar:\n%s\noutput: %q\nerror: %v", want, out, err)
		return
	}
	if d := dump(got); d != want {
		c.Fail("round trip differs", "output: %q\n%s", out, diffLine(want, d))
	}
}

func focusSuite(name, about string, bound int, o genOpts, check func(*Ctx, *ics.Calendar)) *suite {
	return &suite{Name: name, Bound: bound, About: about, Run: func(c *Ctx) {
		f := focuses[c.Choose(len(focuses))]
		check(c, focused(c, f, o))
	}}
}

// structure builds calendars with several components of several kinds, each
// marked so that order and placement are visible.
func structure(c *Ctx, max int) *ics.Calendar {
	cal := newCal()
	cv := reflect.ValueOf(cal).Elem()
	id := 0
	for _, u := range calSpec.Subs {
		f := cv.FieldByName(u.Field)
		for k := 0; k < max; k++ {
			if c.Dev(2) == 0 {
				break
			}
			e := reflect.New(u.Comp.Type).Elem()
			fill(c, u.Comp, e, genOpts{noDev: true})
			id++
			mark := string(rune('a' + id))
			if x := e.FieldByName("UID"); x.IsValid() {
				x.SetString(mark)
			} else {
				e.FieldByName("TimezoneID").SetString(mark)
				e.FieldByName("Standard").Set(reflect.Zero(e.FieldByName("Standard").Type()))
				have := false
				for _, s := range u.Comp.Subs {
					sf := e.FieldByName(s.Field)
					for j := 0; j < 2; j++ {
						d := c.Dev(2)
						if !have && s.Name == "STANDARD" {
							d = 1 - d
						}
						if d == 0 {
							break
						}
						o := reflect.New(s.Comp.Type).Elem()
						fill(c, s.Comp, o, genOpts{noDev: true})
						id++
						o.FieldByName("TimezoneName").Set(reflect.Append(o.FieldByName("TimezoneName"), reflect.ValueOf(ics.PropTimezoneName{Text: ics.Text(rune('a' + id))})))
						sf.Set(reflect.Append(sf, o))
						have = true
					}
				}
			}
			if x := e.FieldByName("Alarm"); x.IsValid() {
				for j := 0; j < max; j++ {
					n := c.Dev(1 + len(actions))
					if n == 0 {
						break
					}
					x.Set(reflect.Append(x, newAlarm(c, actions[n-1], genOpts{noDev: true})))
				}
			}
			f.Set(reflect.Append(f, e))
		}
	}
	return cal
}

func init() {
	register(&property{ID: "C01", Level: "model_checking",
		Assume: []string{"zones named in calendars exist in the decoder's zone database", "text is valid UTF-8"},
		Suites: func(t bool) []*suite {
			s := []*suite{
				focusSuite("every-value", "each component kind: every alternative of every field, one at a time, all value and parameter alternatives", 1, genOpts{lvl: 2, max: 1, subs: true}, roundTrip),
				focusSuite("pairs", "each component kind: every pair of deviations over the compact alternatives, repeated fields up to 2", 2, genOpts{lvl: pickInt(t, 1, 2), max: 2, subs: true}, roundTrip),
				{Name: "structure", Bound: pickInt(t, 6, 8), About: "component multisets and nesting", Run: func(c *Ctx) { with(c, structure(c, 3), roundTrip) }},
				{Name: "equals", About: "lists of every repeated property and component in which entries repeat", Run: func(c *Ctx) { with(c, equals(c, pickInt(t, 4, 5)), roundTrip) }},
				{Name: "related", About: "every two properties of every component with every two of the values that stand in a relation", Run: func(c *Ctx) { with(c, related(c, focuses), roundTrip) }},
				{Name: "siblings", About: "two or three components of every kind which differ in one property", Run: func(c *Ctx) { with(c, siblings(c), roundTrip) }},
				{Name: "across", About: "every two properties of different components with every two of such values", Run: func(c *Ctx) { with(c, across(c, focuses, pickInt(t, 3, 100)), roundTrip) }},
				{Name: "present", About: "every set of up to four properties of every component", Run: func(c *Ctx) { with(c, present(c, pickInt(t, 3, 4)), roundTrip) }},
				focusSuite("triples", "every triple of deviations over the minimal alternatives", 3, genOpts{lvl: 0, max: 2, subs: true}, roundTrip),
			}
			s = append(s, borrow(t, roundTripText, roundTrip, objectSuites...)...)
			return append(s, borrow(false, roundTripText, roundTrip, textSuites...)...)
		}})
}

func pickInt(t bool, quick, thorough int) int {
	if t {
		return thorough
	}
	return quick
}
