// Package c07: merging partial results is an order-independent top-k.
package c07

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func datum(i int, f []float32) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte{byte('a' + i)}}, Value: &pb.DatumValue{Label: []byte{byte('A' + i)}}}
}

func bestOf(higher bool, have bool, a, b float64) float64 {
	return rt.IteF(rt.Or(!have, hkit.Better(higher, b, a)), b, a)
}

func collect(l []*pb.ScoredDatum) (ids []int, got []float64) {
	for _, s := range l {
		ids = append(ids, int(s.Datum.Key.GroupLabel[0]-'a'))
		got = append(got, s.Score)
	}
	return
}

// merge offers m partial results of up to k datums and checks the merged answer.
func merge(m, k int, higher bool, limit, resultLimit int) {
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: higher, Limit: uint32(limit), ResultLimit: uint64(resultLimit)}
	cfg.GroupLimit, cfg.CacheDuration, cfg.Timeout = rt.U32("other.grouplimit"), rt.U64("other.cacheduration"), rt.U64("other.timeout")
	agg := data.NewAggrator(cfg, false, nil)
	scores := make([]float64, k)
	have := make([]bool, k)
	for i := 0; i < m; i++ {
		id := rt.Choose("datum", k)
		s := hkit.Score("score")
		rt.Assert(agg.Insert(&pb.ScoredDatum{Score: s, Datum: datum(id, []float32{1})}) == nil, "an offer is accepted")
		if have[id] {
			rt.Reach("again")
		}
		scores[id] = bestOf(higher, have[id], scores[id], s)
		have[id] = true
	}
	if resultLimit > 0 && resultLimit < limit {
		limit = resultLimit
	}
	r := agg.Result()
	ids, got := collect(r)
	hkit.TopK("merged answer", higher, limit, ids, got, scores, have)
	rt.Reach("end")
	for _, g := range got {
		rt.ObserveF("score", g)
	}
}

// Any offers in any order, room for all.
//gosym: reach=end,again budget=200
//bound: 3 offers of up to 3 datums (thorough 4 offers), any finite scores, both directions, limit 1..3
func Check_Merge() {
	merge(rt.Bound(3, 4), 3, rt.Choose("higher", 2) == 1, 1+rt.Choose("limit", 3), 0)
}

// A limit smaller than the number of datums, with later improvements of datums already in or already dropped.
//gosym: reach=end,again budget=200
//bound: 4 offers of up to 2 datums (thorough 3), limit 1 or 2, any finite scores, both directions
func Check_Improve() {
	merge(4, rt.Bound(2, 3), rt.Choose("higher", 2) == 1, 1+rt.Choose("limit", 2), 0)
}

// The result limit cuts the answer.
//gosym: reach=end
//bound: 3 offers of 3 datums, limit 1..3, result limit 1..4
func Check_ResultLimit() {
	merge(3, 3, rt.Choose("higher", 2) == 1, 1+rt.Choose("limit", 3), 1+rt.Choose("resultlimit", 4))
}

// Limit 0: nothing.
//gosym: reach=end
//bound: 1 offer
func Check_LimitZero() {
	cfg := &pb.SearchConfig{HigherIsBetter: rt.Choose("higher", 2) == 1}
	agg := data.NewAggrator(cfg, false, nil)
	agg.Insert(&pb.ScoredDatum{Score: hkit.Score("s"), Datum: datum(0, []float32{1})})
	rt.Assert(len(agg.Result()) == 0, "limit 0 yields no results")
	rt.Reach("end")
}

// Context datums change the score a datum is judged by.
//gosym: reach=end budget=200
//bound: 2 datums offered once each in any order with any whole scores (16 bits) and one-component vectors (8 bits), 0..2 context datums, prioritized or not, both directions, limit 1 or 2
func Check_Context() {
	higher := rt.Choose("higher", 2) == 1
	prio := rt.Choose("prioritize", 2) == 1
	nc := rt.Choose("contexts", 3)
	limit := 1 + rt.Choose("limit", 2)
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: higher, Limit: uint32(limit)}
	ctx := &pb.SearchContext{Prioritize: prio}
	var cs []float32
	for i := 0; i < nc; i++ {
		f := float32(0.5)
		if i == 1 {
			f = 2
		}
		cs = append(cs, f)
		ctx.Datum = append(ctx.Datum, &pb.Datum{Key: &pb.DatumKey{Feature: []float32{f}}})
	}
	agg := data.NewAggrator(cfg, false, ctx)
	scores := make([]float64, 2)
	first := rt.Choose("first", 2)
	for i := 0; i < 2; i++ {
		id := (first + i) % 2
		s, f := hkit.Whole("score"), hkit.Whole32("f")
		rt.Assert(agg.Insert(&pb.ScoredDatum{Score: s, Datum: datum(id, []float32{f})}) == nil, "an offer is accepted")
		have, cur := !prio || nc == 0, s
		for _, c := range cs {
			cur = bestOf(higher, have, cur, float64(f*c))
			have = true
		}
		scores[id] = cur
	}
	ids, got := collect(agg.Result())
	hkit.TopK("merged answer with context", higher, limit, ids, got, scores, []bool{true, true})
	rt.Reach("end")
	for _, g := range got {
		rt.ObserveF("score", g)
	}
}
