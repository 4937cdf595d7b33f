// Package c10: cached answers are served only to the same query, unmodified.
package c10

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func fill() *data.Data {
	dt := hkit.Plain()
	labels := []string{`{"a":1}`, `{"b":1}`, `{"a":1,"b":1}`}
	for i, f := range [][]float32{{1, 0}, {2, 0}, {0, 3}} {
		d := &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(labels[(i+1)%3])}, Value: &pb.DatumValue{Label: []byte(labels[i]), Version: uint64(i)}}
		rt.Assert(dt.Insert(d, nil) == nil, "insert is accepted")
	}
	return dt
}

func search(dt *data.Data, q *pb.Datum, cfg *pb.SearchConfig) []*pb.ScoredDatum {
	ch := make(chan *pb.ScoredDatum, 10)
	rt.Assert(dt.AggregatedSearch(q, ch, nil, cfg) == nil, "the search does not fail")
	close(ch)
	var out []*pb.ScoredDatum
	for s := range ch {
		out = append(out, s)
	}
	return out
}

func query(a, b float32) *pb.Datum { return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{a, b}}} }

func base() *pb.SearchConfig {
	return &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: true, Limit: 2, CacheDuration: 60, Timeout: 1000, DataName: "d"}
}

func clone(c *pb.SearchConfig) *pb.SearchConfig {
	return &pb.SearchConfig{ScoreFuncName: c.ScoreFuncName, HigherIsBetter: c.HigherIsBetter, Timestamp: c.Timestamp, Timeout: c.Timeout, Limit: c.Limit,
		CacheDuration: c.CacheDuration, DataName: c.DataName, GroupLimit: c.GroupLimit, GroupScoreFuncName: c.GroupScoreFuncName,
		Filters: append([]string(nil), c.Filters...), ResultLimit: c.ResultLimit, GroupFilters: append([]string(nil), c.GroupFilters...), Uuid: c.Uuid}
}

func sameConfig(a, b *pb.SearchConfig) bool {
	l := func(x, y []string) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return a.ScoreFuncName == b.ScoreFuncName && a.HigherIsBetter == b.HigherIsBetter && a.Timestamp == b.Timestamp && a.Timeout == b.Timeout && a.Limit == b.Limit &&
		a.CacheDuration == b.CacheDuration && a.DataName == b.DataName && a.GroupLimit == b.GroupLimit && a.GroupScoreFuncName == b.GroupScoreFuncName &&
		l(a.Filters, b.Filters) && a.ResultLimit == b.ResultLimit && l(a.GroupFilters, b.GroupFilters) && a.Uuid == b.Uuid
}

func same(a, b []*pb.ScoredDatum, what string) {
	rt.Assert(len(a) == len(b), what)
	for i := range a {
		rt.Assert(a[i].Score == b[i].Score, what)
		rt.Assert(a[i].Datum.Value.Version == b[i].Datum.Value.Version, what)
	}
}

// Two searches differing in any one option, the second compared with its own uncached answer.
//gosym: reach=end budget=200
//bound: 3 entries, one query vector, 19 variations of one option of the second (or first) search, earlier caller may rescore its results
func Check_OtherOptions() {
	c1, c2 := base(), base()
	identical := false
	c2.CacheDuration = 60
	switch rt.Choose("variation", 19) {
	case 0:
		c2.ScoreFuncName = "VectorDistance"
	case 1:
		c2.HigherIsBetter = false
	case 2:
		c2.Limit = 1
	case 3:
		c2.Limit = 3
	case 4:
		c2.Filters = []string{"b"}
	case 5:
		c1.Filters = []string{"a"}
		c2.Filters = []string{"b"}
	case 6:
		c1.Filters = []string{"a"}
		c2.Filters = []string{"a", "b"}
	case 7:
		c2.GroupFilters = []string{"a"}
	case 8:
		c1.GroupFilters = []string{"a"}
		c2.Filters = []string{"a"}
	case 9:
		c1.GroupFilters = []string{"b"}
		c2.GroupFilters = []string{"a"}
	case 10:
		c2.ResultLimit = 1
	case 11:
		c1.ResultLimit = 1
		c2.ResultLimit = 2
	case 12:
		c2.ScoreFuncName = "CosineSimilarity"
	case 13:
		c1.Limit, c2.Limit = 12, 1
	case 14:
		c2.ScoreFuncName = ""
	case 15:
		c1.Filters = []string{"a", "b"}
		c2.Filters = []string{"a.b"}
	case 16:
		c2.GroupLimit = 1
	case 17:
		c1.GroupLimit, c2.GroupLimit = 1, 2
	case 18: // the very same search
		identical = true
	}
	if rt.Choose("swap", 2) == 1 {
		c1, c2 = c2, c1
	}
	q := query(1, 0.5)
	dt := fill()
	p := &hkit.Peer{ID: "p"} // asked whenever the search is executed
	hkit.AddPeer(dt, p)
	r1 := search(dt, q, clone(c1))
	rt.Assert(p.Searches == 1, "the first search is executed")
	same(r1, search(fill(), q, clone(c1)), "the first answer is the answer to that search")
	if rt.Choose("rescore", 2) == 1 {
		for _, s := range r1 {
			s.Score += 100
		}
	}
	r2 := search(dt, q, clone(c2))
	rt.Assert(identical || p.Searches == 2, "a different search is executed and not answered from the cache")
	fresh := clone(c2)
	fresh.CacheDuration = 0
	same(r2, search(fill(), q, fresh), "a search gets the answer to that search")
	rt.Reach("end")
	rt.ObserveI("n", len(r2))
}

// Two searches with different (or equal) vectors, groups, sizes or dimensions of the query.
//gosym: reach=same,other budget=200
//bound: 1 entry, one-component query vectors with any finite component each, other key fields of the query differing too
func Check_OtherVector() {
	dt := hkit.Plain()
	rt.Assert(dt.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{}}, nil) == nil, "insert is accepted")
	a, b := hkit.FiniteF32("a", 1e30), hkit.FiniteF32("b", 1e30)
	q1, q2 := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{a}}}, &pb.Datum{Key: &pb.DatumKey{Feature: []float32{b}}}
	switch rt.Choose("kind", 5) {
	case 4:
		q1.Key.GroupLabel, q2.Key.GroupLabel = rt.Bytes("g1", 1), rt.Bytes("g2", 1)
		q1.Key.Dim2, q1.Key.Size1 = rt.U32("dim"), rt.U32("size")
		q2.Key.Dim2, q2.Key.Size1 = rt.U32("dim"), rt.U32("size")
	case 1:
		q2.Key.Feature = append(q2.Key.Feature, 0)
	case 2:
		q2.Key.GroupLabel = rt.Bytes("g", 2)
	case 3:
		q2.Key.Dim1, q2.Key.Size2 = rt.U32("dim"), rt.U32("size")
	}
	cfg := base()
	p := &hkit.Peer{ID: "p"} // asked whenever the search is executed
	hkit.AddPeer(dt, p)
	search(dt, q1, clone(cfg))
	r2 := search(dt, q2, clone(cfg))
	rt.Assert(rt.Or(p.Searches == 2, hkit.SameKey(q1.Key, q2.Key)), "a search with another key is executed and not answered from the cache")
	rt.Assert(len(r2) == 1, "the entry is in the answer")
	rt.Assert(r2[0].Score == float64(b), "a cached answer is the answer to this query")
	if a == b {
		rt.Reach("same")
	} else {
		rt.Reach("other")
	}
	rt.ObserveF("score", r2[0].Score)
}

// The answer of an identical later search does not show what earlier callers did with theirs.
//gosym: reach=end budget=200
//bound: 3 searches in a row, each earlier caller rescoring, truncating or re-pointing its results
func Check_Unmodified() {
	dt := fill()
	q := query(1, 1)
	cfg := base()
	want := search(fill(), q, clone(cfg))
	for i := 0; i < 3; i++ {
		r := search(dt, q, clone(cfg))
		same(r, want, "an answer is unaffected by what earlier callers did with theirs")
		switch rt.Choose("abuse", 3) {
		case 0:
			for _, s := range r {
				s.Score = hkit.Whole("score")
			}
		case 1:
			for _, s := range r {
				s.Datum = &pb.Datum{Key: &pb.DatumKey{}, Value: &pb.DatumValue{Version: 99}}
			}
		case 2:
			r[0], r[1] = r[1], r[0]
			*r[0] = *r[1]
		}
	}
	rt.Reach("end")
}

// A search with context rescoring in between (as a grouped or context search does with the merged stream).
//gosym: reach=end budget=200
//bound: a context search then an identical search without context, one query vector
func Check_ContextThenPlain() {
	dt := fill()
	q := query(1, 1)
	ctx := &pb.SearchContext{Prioritize: rt.Choose("prioritize", 2) == 1, Datum: []*pb.Datum{query(hkit.Whole32("c"), 7)}}
	cfg := base()
	dt.MultiAggregatedSearch([]*pb.Datum{q}, clone(cfg), ctx)
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{q}, clone(cfg), nil)
	rt.Assert(err == nil, "the search does not fail")
	same(r, search(fill(), q, clone(cfg)), "a search without context is not served rescored results")
	rt.Reach("end")
}

// Searching never alters the caller's request options.
//gosym: reach=end budget=200
//bound: 1 or 2 query vectors, cached or not, grouped or not, with or without timeout
func Check_OptionsUntouched() {
	dt := fill()
	cfg := base()
	cfg.CacheDuration = uint64(60 * rt.Choose("cache", 2))
	cfg.GroupLimit = uint32(rt.Choose("group", 2))
	cfg.Filters = []string{"b", "a"}
	cfg.GroupFilters = []string{"b", "a.x", "a"}[:2*rt.Choose("groupfilters", 2)]
	cfg.ResultLimit = 1
	cfg.Uuid = "u"
	cfg.Timeout = []uint64{1000, 10, 1}[rt.Choose("timeout", 3)]
	before := clone(cfg)
	qs := []*pb.Datum{query(1, 1)}
	if rt.Choose("two", 2) == 1 {
		qs = append(qs, query(2, 1))
	}
	for i := 0; i < 2; i++ {
		_, err := dt.MultiAggregatedSearch(qs, cfg, nil)
		rt.Assert(err == nil, "the search does not fail")
	}
	rt.Assert(sameConfig(cfg, before), "the caller's options are unchanged")
	rt.Assert(qs[0].Key.Feature[0] == 1 && len(qs[0].Key.Feature) == 2, "the caller's query is unchanged")
	rt.Reach("end")
}
