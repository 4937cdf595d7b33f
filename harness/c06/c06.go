// Package c06: search filters are neither leaky nor lossy.
package c06

import (
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// Documents and which of the paths a, b and a.c they contain.
type doc struct {
	text    string
	a, b, c bool
}

var docs = []doc{
	{`{"a":1,"b":2}`, true, true, false},
	{`{"a":{"c":1}}`, true, false, true},
	{`{"b":null}`, false, true, false},
	{`{"a":0}`, true, false, false},
	{``, false, false, false},
	{`{"x":{"a":1},"y":"b"}`, false, false, false},
	{`{"b":"","a":{"c":false}}`, true, true, true},
	{`{"a":""}`, true, false, false},
	{`{}`, false, false, false},
	{`{"b":[],"c":1}`, false, true, false},
}

type filter struct {
	paths   []string
	a, b, c bool // which paths it asks for
}

var filters = []filter{
	{nil, false, false, false},
	{[]string{"a"}, true, false, false},
	{[]string{"b"}, false, true, false},
	{[]string{"a", "b"}, true, true, false},
	{[]string{"b", "a.c"}, false, true, true},
	{[]string{"a.c"}, false, false, true},
	{[]string{"a.c", "b", "a"}, true, true, true},
	{[]string{"b", "a"}, true, true, false},
}

func passes(f filter, d doc) bool {
	return (!f.a || d.a) && (!f.b || d.b) && (!f.c || d.c)
}

func ids(l []*pb.ScoredDatum) (r []int, got []float64) {
	for _, s := range l {
		r = append(r, int(s.Datum.Key.Dim1))
		got = append(got, s.Score)
	}
	return
}

func entry(i int, f float32, group, label string) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{f}, GroupLabel: []byte(group), Dim1: uint32(i)}, Value: &pb.DatumValue{Label: []byte(label)}}
}

// exact search: scores are arbitrary, so a non-matching entry may be better than every matching one
func exact(n int, fg, fl filter, group, label []doc, limit int) {
	dt := hkit.Plain()
	var scores []float64
	var live []bool
	for i := 0; i < n; i++ {
		f := hkit.FiniteF32("f", 1e30)
		rt.Assert(dt.Insert(entry(i, f, group[i].text, label[i].text), nil) == nil, "insert is accepted")
		scores = append(scores, float64(f))
		live = append(live, passes(fg, group[i]) && passes(fl, label[i]))
		if live[i] {
			rt.Reach("match")
		} else {
			rt.Reach("nomatch")
		}
	}
	cfg := hkit.Bystanders(&pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: true, Limit: uint32(limit), Filters: fl.paths, GroupFilters: fg.paths})
	r, got := ids(dt.Search(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}}, cfg, nil).List)
	rt.ObserveI("results", len(r))
	hkit.TopK("filtered exact search", true, limit, r, got, scores, live)
}

// Label filters, every pair of documents.
//gosym: reach=match,nomatch
//bound: 2 entries with every pair of 10 label documents, any finite scores, 8 label filter lists, limit 1 or 2
func Check_LabelFilter() {
	l := []doc{docs[rt.Choose("l0", len(docs))], docs[rt.Choose("l1", len(docs))]}
	g := []doc{docs[4], docs[4]}
	exact(2, filters[0], filters[rt.Choose("filter", len(filters))], g, l, 1+rt.Choose("limit", 2))
}

// Group filters, every pair of documents.
//gosym: reach=match,nomatch
//bound: 2 entries with every pair of 10 group documents, any finite scores, 8 group filter lists, limit 1 or 2
func Check_GroupFilter() {
	g := []doc{docs[rt.Choose("g0", len(docs))], docs[rt.Choose("g1", len(docs))]}
	l := []doc{docs[4], docs[4]}
	exact(2, filters[rt.Choose("filter", len(filters))], filters[0], g, l, 1+rt.Choose("limit", 2))
}

// Both at once: an entry must satisfy the label paths with its label and the group paths with its group label.
//gosym: reach=match,nomatch
//bound: 1 entry (thorough 2) with every group and label document, every combination of group and label filter lists
func Check_BothFilters() {
	n := rt.Bound(1, 2)
	var g, l []doc
	for i := 0; i < n; i++ {
		m := len(docs)
		if i > 0 {
			m = 4
		}
		g = append(g, docs[rt.Choose("g", m)])
		l = append(l, docs[rt.Choose("l", m)])
	}
	exact(n, filters[rt.Choose("gf", len(filters))], filters[rt.Choose("lf", len(filters))], g, l, n)
}

// Room for more than match: a filter holds while the result is not full yet.
//gosym: reach=match,nomatch
//bound: 4 entries with 3 kinds of documents in every arrangement, 5 label or group filter lists, limit 1..5
func Check_Room() {
	onGroup := rt.Choose("on", 2) == 1
	f := filters[1+rt.Choose("filter", 5)]
	dt := hkit.Plain()
	var scores []float64
	var live []bool
	for i := 0; i < 4; i++ {
		d := docs[[]int{0, 2, 4}[rt.Choose("doc", 3)]]
		g, l := "", d.text
		if onGroup {
			g, l = d.text, ""
		}
		rt.Assert(dt.Insert(entry(i, float32(i), g, l), nil) == nil, "insert is accepted")
		scores = append(scores, float64(i))
		live = append(live, passes(f, d))
		if live[i] {
			rt.Reach("match")
		} else {
			rt.Reach("nomatch")
		}
	}
	limit := 1 + rt.Choose("limit", 5)
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", Limit: uint32(limit), Filters: f.paths}
	if onGroup {
		cfg.Filters, cfg.GroupFilters = nil, f.paths
	}
	r, got := ids(dt.Search(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}}, cfg, nil).List)
	hkit.TopK("filtered exact search", false, limit, r, got, scores, live)
}

// Filters given to the index-assisted search.
//gosym: reach=match,nomatch
//bound: 3 indexed entries answered by the index in any of 6 orders, group/label documents and filter lists as above (3 documents at a time), limit 1..3
func Check_IndexSearch() {
	dt := hkit.Plain()
	base := rt.Choose("docs", len(docs))
	fg, fl := filters[0], filters[0]
	onGroup := rt.Choose("on", 3)
	if onGroup != 0 {
		fg = filters[rt.Choose("gf", len(filters))]
	}
	if onGroup != 1 {
		fl = filters[rt.Choose("lf", len(filters))]
	}
	orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	order := orders[rt.Choose("order", 6)]
	limit := 1 + rt.Choose("limit", 3)
	var all []*pb.Datum
	var live []bool
	for i := 0; i < 3; i++ {
		g, l := docs[(base+i)%len(docs)], docs[(base+2*i+1)%len(docs)]
		all = append(all, entry(i, float32(i)+1, g.text, l.text))
		live = append(live, passes(fg, g) && passes(fl, l))
		if live[i] {
			rt.Reach("match")
		} else {
			rt.Reach("nomatch")
		}
	}
	hkit.SetIndex(dt, &hkit.FakeIndex{Answer: order}, all)
	cfg := hkit.Bystanders(&pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: uint32(limit), Filters: fl.paths, GroupFilters: fg.paths})
	r, _ := ids(dt.SearchAnnoy(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}}, cfg).List)
	rt.ObserveI("results", len(r))
	var want []int
	for _, i := range order {
		if live[i] && len(want) < limit {
			want = append(want, i)
		}
	}
	rt.Assert(len(r) == len(want), "index search keeps exactly the matching candidates")
	seen := map[int]bool{}
	for _, x := range r {
		rt.Assert(!seen[x], "index search returns an entry once")
		seen[x] = true
		rt.Assert(live[x], "index search returns only matching entries")
	}
	for _, x := range want {
		rt.Assert(seen[x], "index search keeps every matching candidate within the limit")
	}
}

// Filtered search without an index answers with the exact search.
//gosym: reach=match,nomatch
//bound: 2 entries, every pair of label documents, 8 label filter lists
func Check_IndexFallback() {
	dt := hkit.Plain()
	fl := filters[rt.Choose("lf", len(filters))]
	var live []bool
	for i := 0; i < 2; i++ {
		d := docs[rt.Choose("l", len(docs))]
		rt.Assert(dt.Insert(entry(i, float32(i), "", d.text), nil) == nil, "insert is accepted")
		live = append(live, passes(fl, d))
		if live[i] {
			rt.Reach("match")
		} else {
			rt.Reach("nomatch")
		}
	}
	cfg := &pb.SearchConfig{ScoreFuncName: "AnnoyVectorDistance", Limit: 2, Filters: fl.paths}
	r, got := ids(dt.SearchAnnoy(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{0}}}, cfg).List)
	hkit.TopK("filtered search without index", false, 2, r, got, []float64{0, 1}, live)
}
