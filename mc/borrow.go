package main

import (
	"slices"
	"strings"

	"vimagination.zapto.org/ics"
)

var borrowing bool

// borrow explores suites of other properties again under another judgement:
// text is applied to each text they would have judged, object to each calendar.
func borrow(thorough bool, text func(*Ctx, string), object func(*Ctx, *ics.Calendar), names ...string) []*suite {
	if borrowing { // borrowed suites are not lent on
		return nil
	}
	borrowing = true
	defer func() { borrowing = false }()
	var out []*suite
	for i, n := range names {
		if slices.Contains(names[:i], n) {
			continue
		}
		id, name, _ := strings.Cut(n, "/")
		found := false
		for _, s := range properties[id].Suites(thorough) {
			if s.Name != name {
				continue
			}
			found = true
			run := s.Run
			out = append(out, &suite{Name: n, Bound: s.Bound, About: s.About, Run: func(c *Ctx) {
				c.onText, c.onCal = text, object
				run(c)
			}})
		}
		if !found {
			panic("harness: no suite " + n)
		}
	}
	return out
}

// The suites whose executions end in judging one text or one calendar.
var (
	textSuites = []string{
		"C09/token-sequences", "C09/balanced",
		"C10/occurrences", "C10/permutations", "C10/repeats",
		"C11/keywords", "C11/property-in-component",
		"C12/parameter-tokens", "C12/odd-bytes",
		"C13/raw", "C13/raw-lists", "C13/raw-everywhere",
		"C14/raw", "C14/raw-everywhere", "C14/multiplicity",
		"C15/fields", "C15/date-fields", "C15/shapes", "C15/zones", "C15/database", "C15/hours", "C15/seconds",
		"C16/parts", "C16/amounts", "C17/amounts", "C16/elements", "C16/weekdays",
		"C17/strings", "C17/units", "C17/period-texts",
		"C18/offset-texts", "C18/integer-texts", "C18/integers", "C18/coordinate-texts", "C18/base64-texts", "C18/booleans", "C18/rsvp", "C18/uris",
		"C21/announced", "C23/texts",
		"C12/sizes", "C18/sizes", "C22/sizes",
		"C11/spellings", "C11/two-texts",
		"C16/orders", "C16/lists",
		"C10/apart", "C10/twice", "C10/ruled",
		"C22/near-parameters", "C22/near-properties", "C22/near-components",
		"C15/edits", "C16/edits", "C17/edits", "C18/edits", "C15/pieces", "C16/pieces", "C17/pieces", "C18/pieces",
		"C23/sizes", "C09/names", "C12/code-points", "C14/carets", "C18/uri-parts",
	}
	objectSuites = []string{
		"C13/texts", "C13/texts-everywhere", "C13/lists", "C13/lists-everywhere", "C13/code-points", "C13/sizes", "C14/sizes", "C16/sizes", "C18/sizes", "C10/sizes",
		"C14/values", "C14/values-everywhere",
		"C15/days", "C15/seconds", "C15/objects",
		"C16/elements", "C16/weekdays", "C16/objects",
		"C17/objects", "C17/period-objects",
		"C18/offsets", "C18/integers", "C18/coordinates", "C18/coordinate-sweep", "C18/coordinate-digits", "C18/binaries", "C18/binary-sizes", "C18/bytes",
		"C11/inside", "C11/inside-more", "C11/two-components",
		"C21/forms", "C23/objects", "C23/lists",
	}
)

// roundTripText starts from the calendar the reference reader makes of a text.
func roundTripText(c *Ctx, text string) {
	if cal, v, _ := refDecode(text); v == accept {
		roundTrip(c, cal)
	} else {
		c.Outcome(v.String())
	}
}

func stableCal(c *Ctx, cal *ics.Calendar) {
	if v, _ := refValid(cal); v == accept {
		stable(c, emit(cal).text())
	}
}

func refusalText(c *Ctx, text string) {
	if cal, v, _ := refDecode(text); v == accept {
		refusal(c, cal)
	} else {
		c.Outcome(v.String())
	}
}

func decodeOnly(c *Ctx, text string) {
	r, ok := c.result(strings.NewReader(text))
	if !ok {
		return
	}
	c.Note("%v %q", r.err, text)
	if r.err != nil {
		c.Outcome("error")
	} else {
		c.Outcome(r.dump)
	}
}

func noCal(*Ctx, *ics.Calendar) {}
func noText(*Ctx, string)       {}
