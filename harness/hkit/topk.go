package hkit

import (
	rt "github.com/bgokden/veri/verifrt"
)

// Better: a is strictly better than b.
func Better(higher bool, a, b float64) bool {
	if higher {
		return a > b
	}
	return a < b
}

// TopK asserts that the result is the best `limit` of the offers, best first: ids[i] is the offer (index into scores)
// that result i stands for, got[i] its reported score; live[j] says whether offer j takes part.
func TopK(what string, higher bool, limit int, ids []int, got []float64, scores []float64, live []bool) {
	n := 0
	for _, l := range live {
		n += rt.IteI(l, 1, 0)
	}
	rt.Assert(len(ids) == rt.IteI(limit < n, limit, n), what+": the result has min(limit, matching) entries")
	in := make([]bool, len(scores))
	for i, id := range ids {
		rt.Assert(id >= 0, what+": every result is one of the entries")
		rt.Assert(!in[id], what+": no entry appears twice")
		in[id] = true
		rt.Assert(live[id], what+": every result matches")
		rt.Assert(got[i] == scores[id], what+": every result has its own score")
		if i > 0 {
			rt.Assert(rt.Not(Better(higher, got[i], got[i-1])), what+": results are ordered best first")
		}
	}
	for j := range scores {
		if in[j] || len(ids) == 0 {
			continue
		}
		for _, g := range got {
			rt.Assert(rt.Not(rt.And(live[j], Better(higher, scores[j], g))), what+": no entry left out is better than one returned")
		}
	}
}
