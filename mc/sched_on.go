//go:build sched

package main

import "vimagination.zapto.org/ics"

// Built against an instrumented copy of the package.
func init() {
	setPoint = func(f func(level, id int)) { ics.VerifPoint = f }
	pointWhere, spawns = ics.VerifWhere, ics.VerifSpawns
	pointAccess = make([][]string, len(ics.VerifWhere))
	for i, a := range ics.VerifAccess {
		pointAccess[i] = a
	}
}
