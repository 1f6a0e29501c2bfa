package fw

import (
	"sort"

	"verif.local/vsim/core"
)

// Model is a sequential specification: step applies an operation to a state and reports whether the
// recorded result is allowed. For pending operations it is asked with e.Pend set and any result is
// allowed. States must be comparable.
type Model struct {
	Init interface{}
	Step func(state interface{}, e *Entry) []interface{} // successor states (empty: not allowed)
}

// linearizable decides whether the history has a linearization (Wing & Gong with memoisation).
func Linearizable(m Model, hist []*Entry) bool {
	var ops []*Entry
	for _, e := range hist {
		ops = append(ops, e)
	}
	if len(ops) > 63 {
		panic("history too long")
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	type key struct {
		mask  uint64
		state interface{}
	}
	seen := map[key]bool{}
	var must uint64
	for i, e := range ops {
		if !e.Pend {
			must |= 1 << uint(i)
		}
	}
	var rec func(mask uint64, st interface{}) bool
	rec = func(mask uint64, st interface{}) bool {
		if mask&must == must {
			return true
		}
		k := key{mask, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		core.Work()
		// the earliest return among the remaining completed operations bounds the candidates
		minRet := int(^uint(0) >> 1)
		for i, e := range ops {
			if mask&(1<<uint(i)) == 0 && !e.Pend && e.Ret < minRet {
				minRet = e.Ret
			}
		}
		for i, e := range ops {
			if mask&(1<<uint(i)) != 0 {
				continue
			}
			if e.Call > minRet {
				break
			}
			for _, ns := range m.Step(st, e) {
				if rec(mask|1<<uint(i), ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, m.Init)
}
