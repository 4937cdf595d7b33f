// Package c25: index-assisted search reports only genuine, correctly scored entries.
package c25

import (
	"math"
	"sync"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func entry(i int, f []float32, label string) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(`{"g":1}`), Dim1: uint32(i)}, Value: &pb.DatumValue{Label: []byte(label)}}
}

func search(dt *data.Data, q []float32, cfg *pb.SearchConfig) []*pb.ScoredDatum {
	out := make(chan *pb.ScoredDatum, 10)
	var wg sync.WaitGroup
	wg.Add(1)
	err := dt.StreamSearch(&pb.Datum{Key: &pb.DatumKey{Feature: q}}, out, &wg, cfg)
	rt.Assert(err == nil, "the search does not fail")
	wg.Wait()
	close(out)
	var l []*pb.ScoredDatum
	for s := range out {
		l = append(l, s)
	}
	return l
}

func euclid(a, b []float32) float64 {
	s := 0.0
	for i := range a {
		if i < len(b) {
			d := float64(a[i]) - float64(b[i])
			s += d * d
		}
	}
	return math.Sqrt(s)
}

func near(a, b float64) bool { return rt.Or(a == b, rt.And(a <= b+1e-3, a >= b-1e-3)) }

// What the index may answer: up to n distinct positions of size slots.
func answer(size, n int) []int {
	k := rt.Choose("answers", n+1)
	var a []int
	for i := 0; i < k; i++ {
		p := rt.Choose("position", size)
		for _, o := range a {
			rt.Assume(o != p)
		}
		a = append(a, p)
	}
	return a
}

// Any answer of the index over a given list of datums.
//gosym: reach=end,cut,filtered budget=200
//bound: 3 entries and an empty slot, answers of up to 3 (thorough 4) distinct positions in any order or no answer at all, limits 0..4, filter on labels or none, either direction, any whole-numbered 1-component vectors; Euclidean score
func Check_Answer() {
	f := make([][]float32, 3)
	labels := []string{`{"a":1}`, `{"b":1}`, `{"a":null}`}
	all := make([]*pb.Datum, 4)
	for i := range f {
		f[i] = []float32{hkit.Whole32("f")}
		all[i] = entry(i, f[i], labels[i])
	}
	q := []float32{hkit.Whole32("q")}
	dt := hkit.Plain()
	ix := &rt.Index{Dim: 1, Built: true}
	ix.Answer = answer(4, rt.Bound(3, 4))
	ix.NoAnswer = rt.Choose("silent", 2) == 1
	dt.Annoyer.AnnoyIndex = ix
	dt.Annoyer.DataIndex = &all
	limit := rt.Choose("limit", 5)
	cfg := &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", HigherIsBetter: rt.Choose("higher", 2) == 1, Limit: uint32(limit)}
	filtered := rt.Choose("filtered", 2) == 1
	if filtered {
		cfg.Filters = []string{"a"}
	}
	got := search(dt, q, cfg)
	rt.Assert(ix.Asked == 1, "the index is asked")
	ok := map[int]bool{}
	if !ix.NoAnswer {
		for _, a := range ix.Answer {
			if a < 3 && !(filtered && a == 1) {
				ok[a] = true
			} else if a == 1 {
				rt.Reach("filtered")
			}
		}
	}
	rt.Assert(len(got) <= limit, "at most limit entries")
	if len(ok) <= limit {
		rt.Assert(len(got) == len(ok), "every matching candidate is kept")
	} else {
		rt.Reach("cut")
		rt.Assert(len(got) == limit, "the limit is used up while there are candidates")
	}
	seen := map[int]bool{}
	for _, s := range got {
		i := int(s.Datum.Key.Dim1)
		rt.Assert(ok[i], "every result is a candidate that passes the filters")
		rt.Assert(!seen[i], "no candidate appears twice")
		seen[i] = true
		rt.Assert(hkit.SameKey(s.Datum.Key, entry(i, f[i], labels[i]).Key), "every result is an entry of the dataset as it was stored")
		rt.Assert(string(s.Datum.Value.Label) == labels[i], "every result carries its own value")
		rt.Assert(near(s.Score, euclid(q, f[i])), "every result is scored with the requested function against the query")
	}
	rt.ObserveI("results", len(got))
	rt.Reach("end")
}

// The score functions the index-assisted names stand for.
//gosym: reach=end budget=200 absfloat
//bound: one entry of 2 whole-numbered components, any query of 2; the three index-assisted names, compared with what the plain names compute
func Check_Names() {
	k := rt.Choose("name", 3)
	name := []string{"VectorDistance", "CosineSimilarity", "AngularDistance"}[k]
	f := []float32{hkit.Whole32("f"), hkit.Whole32("f")}
	q := []float32{hkit.Whole32("q"), hkit.Whole32("q")}
	dt := hkit.Plain()
	all := []*pb.Datum{entry(0, f, "")}
	dt.Annoyer.AnnoyIndex = &rt.Index{Dim: 2, Built: true, Answer: []int{0}}
	dt.Annoyer.DataIndex = &all
	got := search(dt, q, &pb.SearchConfig{ScoreFuncName: "Annoy" + name, Limit: 2})
	rt.Assert(len(got) == 1, "the candidate is returned")
	rt.Assert(near(got[0].Score, data.GetVectorComparisonFunction(name)(q, f)), "scored with the requested function against the query")
	rt.Reach("end")
}

// An index built by the maintenance pass: candidates are matched to their own datums.
//gosym: reach=end,changed budget=300 maporder
//bound: 1..3 entries of 1..2 whole-numbered components (lengths differ), enumerated in any order, built by a real maintenance pass; any single answer; a change to the dataset after the build, and a second build; queries of 0..2 components
func Check_Built() {
	n := 1 + rt.Choose("n", rt.Bound(2, 3))
	dt := hkit.Plain()
	var f [][]float32
	for i := 0; i < n; i++ {
		f = append(f, nil)
		for j := 0; j <= rt.Choose("len", 2); j++ {
			f[i] = append(f[i], hkit.Whole32("f"))
		}
		rt.Assert(dt.Insert(entry(i, append([]float32(nil), f[i]...), "x"), nil) == nil, "insert is accepted")
	}
	rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	gone := -1
	switch rt.Choose("then", 3) {
	case 1:
		rt.Reach("changed")
		rt.Assert(dt.Delete(&pb.Datum{Key: entry(0, append([]float32(nil), f[0]...), "").Key}) == nil, "delete is accepted")
	case 2:
		rt.Assert(dt.Delete(&pb.Datum{Key: entry(0, append([]float32(nil), f[0]...), "").Key}) == nil, "delete is accepted")
		gone = 0
		old, _ := dt.Annoyer.AnnoyIndex.(*rt.Index)
		rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
		if n == 1 {
			// nothing left: no new index, the last build still answers
			gone = -1
		} else {
			now, _ := dt.Annoyer.AnnoyIndex.(*rt.Index)
			rt.Assert(now != nil && now != old, "a maintenance pass builds a new index")
		}
	}
	ix, _ := dt.Annoyer.AnnoyIndex.(*rt.Index)
	rt.Assume(ix != nil)
	want := n
	if gone >= 0 {
		want--
	}
	rt.Assert(len(ix.Ids) == want, "every entry is in the index")
	var q []float32
	for j := rt.Choose("qlen", 3); j > 0; j-- {
		q = append(q, hkit.Whole32("q"))
	}
	k := rt.Choose("answer", len(ix.Ids))
	ix.Answer = []int{ix.Ids[k]}
	got := search(dt, q, &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: 3})
	rt.Assert(len(got) == 1, "the candidate is returned")
	i := int(got[0].Datum.Key.Dim1)
	rt.Assert(i < n && i != gone, "the result was in the dataset at the last build")
	rt.Assert(hkit.SameFeatures(got[0].Datum.Key.Feature, f[i]), "the result is the entry as it was stored")
	v := ix.Vecs[k]
	m := len(f[i])
	if len(v) < m {
		m = len(v)
	}
	rt.Assert(hkit.SameFeatures(v[:m], f[i][:m]), "a candidate is matched to the datum whose vector it was built from")
	rt.Assert(near(got[0].Score, euclid(q, f[i])), "every result is scored with the requested function against the query")
	rt.ObserveI("result", i)
	rt.Reach("end")
}

// Until an index exists the exact search answers.
//gosym: reach=end budget=200
//bound: 2 entries (thorough 3) of any whole-numbered component, limits 0..3, either direction, no maintenance pass yet or one over the empty dataset before
func Check_NoIndex() {
	n := rt.Bound(2, 3)
	dt := hkit.Plain()
	if rt.Choose("pass", 2) == 1 {
		rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	}
	higher := rt.Choose("higher", 2) == 1
	limit := rt.Choose("limit", 4)
	q := hkit.Whole32("q")
	var scores []float64
	var live []bool
	for i := 0; i < n; i++ {
		f := hkit.Whole32("f")
		rt.Assert(dt.Insert(entry(i, []float32{f}, "x"), nil) == nil, "insert is accepted")
		scores = append(scores, euclid([]float32{q}, []float32{f}))
		live = append(live, true)
	}
	var ids []int
	var sc []float64
	for _, s := range search(dt, []float32{q}, &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: uint32(limit), HigherIsBetter: higher}) {
		ids = append(ids, int(s.Datum.Key.Dim1))
		sc = append(sc, s.Score)
	}
	hkit.TopK("search without an index", higher, limit, ids, sc, scores, live)
	rt.Reach("end")
}

// A rebuild while searches run.
//gosym: preempt=2 reach=end budget=300
//gosym:thorough preempt=3 budget=1200
//bound: one search (index-assisted) concurrent with a rebuild that replaces an index, all schedules with up to 2 preemptions (thorough 3)
func Check_Rebuild() {
	dt := hkit.Plain()
	rt.Assert(dt.Insert(entry(0, []float32{1}, "x"), nil) == nil, "insert is accepted")
	rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	rt.AnswerFirst = true
	if rt.Choose("deleted", 2) == 1 {
		rt.Assert(dt.Delete(entry(0, []float32{1}, "x")) == nil, "delete is accepted")
	}
	rt.Assert(dt.Insert(entry(1, []float32{3}, "y"), nil) == nil, "insert is accepted")
	done := make(chan bool)
	go func() {
		dt.Process(true)
		done <- true
	}()
	got := search(dt, []float32{2}, &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: 3})
	for _, s := range got {
		rt.Assert(s.Score == 1, "every result is scored against the query")
		rt.Assert(rt.Answered == nil || s.Datum.Key.Feature[0] == rt.Answered[0], "every candidate is matched to its own datum")
	}
	rt.Assert(len(got) <= 1, "at most the answers of the index")
	<-done
	rt.Reach("end")
}
