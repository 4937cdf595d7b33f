// Package c05: exact search returns the true k best entries, best first.
package c05

import (
	"sync"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func entry(i int, f []float32) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte{byte('a' + i)}}, Value: &pb.DatumValue{Label: []byte{byte('A' + i)}, Version: 1}}
}

func results(list []*pb.ScoredDatum) (ids []int, got []float64) {
	for _, s := range list {
		id := -1
		if s != nil && s.Datum != nil && s.Datum.Key != nil && len(s.Datum.Key.GroupLabel) == 1 && s.Datum.Value != nil &&
			len(s.Datum.Value.Label) == 1 && s.Datum.Value.Label[0]-'A' == s.Datum.Key.GroupLabel[0]-'a' {
			id = int(s.Datum.Key.GroupLabel[0] - 'a')
		}
		ids = append(ids, id)
		got = append(got, s.Score)
	}
	return
}

// search runs the exact search directly or through the streaming entry point.
func search(dt *data.Data, q *pb.Datum, cfg *pb.SearchConfig, stream bool, room int) []*pb.ScoredDatum {
	if !stream {
		return dt.Search(q, cfg, nil).List
	}
	ch := make(chan *pb.ScoredDatum, room)
	var wg sync.WaitGroup
	wg.Add(1)
	rt.Assert(dt.StreamSearch(q, ch, &wg, cfg) == nil, "the search does not fail")
	wg.Wait()
	close(ch)
	var out []*pb.ScoredDatum
	for s := range ch {
		out = append(out, s)
	}
	return out
}

func topk(n int, fn string, query float32, score func(f float32) float64) {
	dt := hkit.Plain()
	var scores []float64
	var live []bool
	for i := 0; i < n; i++ {
		f := hkit.FiniteF32("f", 1e30)
		rt.Assert(dt.Insert(entry(i, []float32{f}), nil) == nil, "insert is accepted")
		scores = append(scores, score(f))
		live = append(live, true)
	}
	limit := rt.Choose("limit", n+2)
	higher := rt.Choose("higher", 2) == 1
	stream := rt.Choose("stream", 2) == 1
	q := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{query}}}
	list := search(dt, q, hkit.Bystanders(&pb.SearchConfig{ScoreFuncName: fn, HigherIsBetter: higher, Limit: uint32(limit)}), stream, n+2)
	ids, got := results(list)
	if limit == 0 {
		rt.Reach("zero")
	}
	hkit.TopK("exact search", higher, limit, ids, got, scores, live)
	rt.Reach("end")
	for i := range ids {
		rt.ObserveF("score", got[i])
	}
}

// Dot product: the entry's component itself.
//gosym: reach=end,zero budget=200
//bound: 3 entries (thorough 4), any finite one-component vectors, limit 0..n+1, both directions, direct and streaming search
func Check_Multiplication() {
	topk(rt.Bound(3, 4), "VectorMultiplication", 1, func(f float32) float64 { return float64(f) })
}

// Sum of absolute differences to the origin.
//gosym: reach=end,zero budget=200
//bound: 3 entries (thorough 4), any finite one-component vectors, limit 0..n+1, both directions
func Check_QuickDistance() {
	topk(rt.Bound(3, 4), "QuickVectorDistance", 0, func(f float32) float64 {
		return rt.IteF(f < 0, -float64(f), float64(f))
	})
}

var corners = [][]float32{{0, 0}, {1, 0}, {0.5, 0.5}, {-1, 0}, {3, 4}, {2, 0}, {0, 0, 7}, {}, {1, 0.25, -2, 0.5, 4}, {1, 0.25, -2, 0.5, -4}, {0, 0, 0, 1}}

// Every score function name, over concrete vectors: the score is the named function's and selection follows it.
//gosym: reach=end budget=200
//bound: 3 of 11 fixed vectors (equal ones, zero, opposite, different lengths, empty), 4 score names and an unknown one, limit 0..4, both directions
func Check_AllFunctions() {
	names := []string{"VectorDistance", "CosineSimilarity", "AngularDistance", "QuickVectorDistance", "VectorMultiplication", "nosuch", ""}
	name := names[rt.Choose("name", len(names))]
	q := []float32{1, 0.25, -2, 0.5, 3}[:2+3*rt.Choose("dims", 2)]
	fn := map[string]func(a, b []float32) float64{
		"VectorDistance": data.VectorDistance, "CosineSimilarity": data.CosineSimilarity, "AngularDistance": data.AngularDistance,
		"QuickVectorDistance": data.QuickVectorDistance, "VectorMultiplication": data.VectorMultiplication, "nosuch": data.VectorDistance, "": data.VectorDistance}[name]
	dt := hkit.Plain()
	var scores []float64
	start := rt.Choose("start", len(corners))
	step := 1 + rt.Choose("step", 3)
	for i := 0; i < 3; i++ {
		f := corners[(start+i*step)%len(corners)]
		rt.Assert(dt.Insert(entry(i, f), nil) == nil, "insert is accepted")
		scores = append(scores, fn(f, q))
	}
	limit := rt.Choose("limit", 5)
	higher := rt.Choose("higher", 2) == 1
	c := dt.Search(&pb.Datum{Key: &pb.DatumKey{Feature: q}}, &pb.SearchConfig{ScoreFuncName: name, HigherIsBetter: higher, Limit: uint32(limit)}, nil)
	ids, got := results(c.List)
	hkit.TopK("exact search", higher, limit, ids, got, scores, []bool{true, true, true})
	rt.Reach("end")
}

// More entries than the small cases: every limit, results all the way down.
//gosym: reach=end
//bound: 15 entries at fixed distances in three insertion orders, limit 0..17, both directions
func Check_Many() {
	const n = 15
	dt := hkit.Plain()
	step := []int{1, 4, 14}[rt.Choose("step", 3)]
	var scores []float64
	var live []bool
	for i := 0; i < n; i++ {
		f := float32((i * step) % n)
		rt.Assert(dt.Insert(entry(i, []float32{f}), nil) == nil, "insert is accepted")
		scores = append(scores, float64(f))
		live = append(live, true)
	}
	limit := rt.Choose("limit", n+3)
	higher := rt.Choose("higher", 2) == 1
	c := dt.Search(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{0}}}, &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: higher, Limit: uint32(limit)}, nil)
	ids, got := results(c.List)
	hkit.TopK("exact search", higher, limit, ids, got, scores, live)
	rt.Reach("end")
}

// Without options the documented defaults apply: the 10 nearest by Euclidean distance.
//gosym: reach=end
//bound: 11 entries at fixed distinct distances
func Check_Defaults() {
	dt := hkit.Plain()
	for i := 0; i < 11; i++ {
		f := float32(i)
		rt.Assert(dt.Insert(entry(i, []float32{f}), nil) == nil, "insert is accepted")
	}
	l := dt.Search(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{0}}}, nil, nil).List
	rt.Assert(len(l) == 10, "ten results by default")
	for i, s := range l {
		rt.Assert(s.Score == float64(i), "nearest first by default")
		rt.Assert(s.Datum.Key.GroupLabel[0] == byte('a'+i), "nearest first by default")
	}
	rt.Reach("end")
}

// Expired entries take no place.
//gosym: reach=end
//bound: 3 entries with any lifetimes and finite scores, limit 1..3, search at any later time
func Check_ExpiredDoNotDisplace() {
	dt := hkit.Plain()
	rt.SetClock(1000)
	t := rt.I64("t")
	rt.Assume(rt.And(t >= 1000, t <= 5000))
	var scores []float64
	var live []bool
	for i := 0; i < 3; i++ {
		f := hkit.FiniteF32("f", 1e30)
		ttl := rt.U64("ttl")
		rt.Assume(ttl <= 5000)
		rt.Assert(dt.Insert(entry(i, []float32{f}), &pb.InsertConfig{TTL: ttl}) == nil, "insert is accepted")
		scores = append(scores, float64(f))
		live = append(live, rt.Or(ttl == 0, t < 1000+int64(ttl)))
	}
	rt.SetClock(t)
	limit := 1 + rt.Choose("limit", 3)
	higher := rt.Choose("higher", 2) == 1
	c := dt.Search(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}}, &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: higher, Limit: uint32(limit)}, nil)
	ids, got := results(c.List)
	hkit.TopK("exact search", higher, limit, ids, got, scores, live)
	rt.Reach("end")
}
