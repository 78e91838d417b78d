package main

import "strings"

// C17: the same code generator output, the same behaviour. The composite takes
// units of the other checks; run.sh links it with the regenerated package (and
// with the committed one to tell apart what is wrong in both).

var composite = map[string][]string{
	"C01": {"every constructor", "1+1 operations, all neighbours", "tall towers"},
	"C02": {"every constructor", "Range + 1 update, all contents"},
	"C03": {"every constructor", "Len + 1 + 1 updates, one key", "update Len"},
	"C04": {"tall towers"},
	"C05": {"every constructor"},
	"C06": {"every constructor", "1+2 operations on one key"},
	"C07": {"every constructor"},
	"C08": {""},
	"C09": {""},
	"C10": {""},
	"C11": {"every pair of heights", "runs of growth draws"},
	"C12": {"one operation in the callback", "stopping", "nested Range"},
	"C13": {"failing factory", "failing Range callback", "concurrent, failing factory + 1 operation"},
	"C14": {"concurrent, two maps of one type"},
	"C18": {"distribution", "1024 keys"},
}

// composite32 are the units of C19: run.sh builds them for 32-bit words, once with
// the controlled runtime and once (names in real32) with the real sync/atomic.
var composite32 = map[string][]string{
	"C01": {"every constructor", "1+2 operations on one key"},
	"C02": {"every constructor"},
	"C03": {"every constructor", "Len + 1 + 1 updates, one key", "1100 entries"},
	"C07": {"every constructor"},
	"C08": {"all sequences of 1", "all sequences of 2", "all sequences of 3", "all states", "64 entries", "1100 entries", "5003 entries"},
	"C09": {"all sequences of 1 ", "all sequences of 2 ", "all sequences of 3 ", "whole domain"},
	"C10": {"weak order", "orderings"},
	"C11": {"every pair of heights", "runs of growth draws", "every answer"},
	"C12": {"one operation in the callback", "stopping"},
	"C13": {"failing factory"},
	"C14": {"all sequences of 2 on two maps", "concurrent, two maps of one type"},
	"C15": {""},
}

var real32 = map[string][]string{
	"C08": {"all sequences of 1", "all sequences of 2", "all sequences of 3", "all states", "64 entries", "1100 entries", "5003 entries"},
	"C09": {""},
	"C10": {"weak order", "orderings"},
	"C11": {"runs of growth draws"},
	"C12": {"one operation in the callback"},
	"C15": {""},
}

// part are the quick units of other checks that m names; all of those checks with all.
func part(prefix string, m map[string][]string, all bool) []Unit {
	var us []Unit
	for _, id := range sorted(m) {
		if checks[id] == nil {
			continue
		}
		for _, u := range checks[id](false) {
			for _, p := range m[id] {
				if strings.HasPrefix(u.Name, p) || all {
					us = append(us, Unit{Name: prefix + id + ": " + u.Name, Run: u.Run})
					break
				}
			}
		}
	}
	return us
}

func init() {
	checks["C17"] = func(th bool) []Unit { return part("", composite, th) }
	checks["C19"] = func(th bool) []Unit {
		return append(part("real ", real32, false), part("controlled ", composite32, th)...)
	}
}
