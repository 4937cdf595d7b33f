// Package c09: distributed search loses nothing and always returns.
package c09

import (
	"context"
	"errors"
	"io"
	"sync"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

// Entries are told apart by their label; entry i has the key {i}.
func datum(i int) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 1}}, Value: &pb.DatumValue{Label: []byte{byte(i)}}}
}

func query(x float32) *pb.Datum { return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{x, 0}}} }

// book keeps the best score offered for every entry.
type book struct {
	mu     sync.Mutex
	higher bool
	score  []float64
	live   []bool
	offers [][]float64
}

func newBook(n int, higher bool) *book {
	return &book{higher: higher, score: make([]float64, n), live: make([]bool, n), offers: make([][]float64, n)}
}

func (b *book) offer(i int, s float64) {
	if b.live[i] {
		b.score[i] = rt.IteF(hkit.Better(b.higher, s, b.score[i]), s, b.score[i])
	} else {
		b.score[i], b.live[i] = s, true
	}
	b.offers[i] = append(b.offers[i], s)
}

func scored(i int, s float64) *pb.ScoredDatum { return &pb.ScoredDatum{Datum: datum(i), Score: s} }

// peer offers the given entries with the given scores.
func peer(id string, is []int, ss []float64) *hkit.Peer {
	return &hkit.Peer{ID: id, Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
		for k, i := range is {
			out <- scored(i, ss[k])
		}
	}}
}

func split(res []*pb.ScoredDatum) (ids []int, got []float64) {
	for _, r := range res {
		rt.Assert(r != nil && r.Datum != nil, "every result is an entry")
		ids = append(ids, int(r.Datum.Value.Label[0]))
		got = append(got, r.Score)
	}
	return
}

func (b *book) exact(what string, limit int, res []*pb.ScoredDatum) {
	ids, got := split(res)
	hkit.TopK(what, b.higher, limit, ids, got, b.score, b.live)
}

// subset: ordered, without duplicates, of what was offered.
func (b *book) subset(what string, limit int, res []*pb.ScoredDatum) {
	ids, got := split(res)
	rt.Assert(len(ids) <= limit, what+": not more than the limit")
	seen := make([]bool, len(b.score))
	for i, id := range ids {
		rt.Assert(!seen[id], what+": no entry twice")
		seen[id] = true
		one := false
		for _, s := range b.offers[id] {
			one = rt.Or(one, got[i] == s)
		}
		rt.Assert(one, what+": a score that was offered")
		if i > 0 {
			rt.Assert(rt.Not(hkit.Better(b.higher, got[i], got[i-1])), what+": best first")
		}
	}
}

func local(dt *data.Data, b *book, xs []float32, is ...int) {
	for _, i := range is {
		rt.Assert(dt.InsertBDMap(datum(i), nil) == nil, "insert is accepted")
		for _, x := range xs {
			b.offer(i, float64(float32(i)*x))
		}
	}
}

func config(limit int, higher bool) *pb.SearchConfig {
	return &pb.SearchConfig{DataName: "d", ScoreFuncName: "VectorMultiplication", HigherIsBetter: higher, Limit: uint32(limit), Timeout: 1000, Uuid: "u"}
}

func one(dt *data.Data, q *pb.Datum, c *pb.SearchConfig) []*pb.ScoredDatum {
	out := make(chan *pb.ScoredDatum, 200)
	rt.Assert(dt.AggregatedSearch(q, out, nil, c) == nil, "the search does not fail")
	close(out)
	var l []*pb.ScoredDatum
	for s := range out {
		l = append(l, s)
	}
	return l
}

func multi(dt *data.Data, c *pb.SearchConfig, qs ...*pb.Datum) []*pb.ScoredDatum {
	res, err := dt.MultiAggregatedSearch(qs, c, nil)
	rt.Assert(err == nil, "the search does not fail")
	return res
}

// Any scores: nothing is lost when everybody answers.
//gosym: reach=end preempt=0 budget=300
//gosym:thorough maporder budget=900
//bound: 2 local entries and 2 peers offering any 0..2 (thorough 3) and the last 0..1 (2) of 3 (thorough 4) entries with any scores (also entries the others offer), limits 1..2 (thorough 4), higher or lower better; single query or (quick: with limit 2) a request with one query
func Check_Scores() {
	higher := rt.Choose("higher", 2) == 1
	dt := hkit.Plain()
	b := newBook(4, higher)
	local(dt, b, []float32{1}, 0, 1)
	for p := 0; p < 2; p++ {
		var is []int
		var ss []float64
		for k, n := 0, rt.Choose("n", rt.Bound(3-p, 4-p)); k < n; k++ {
			i := 3 - rt.Choose("entry", rt.Bound(3, 4))
			if p == 1 {
				i = 3 - k
			}
			s := hkit.Score("score")
			is, ss = append(is, i), append(ss, s)
			b.offer(i, s)
		}
		hkit.AddPeer(dt, peer(string(rune('p'+p)), is, ss))
	}
	limit := rt.Choose("limit", rt.Bound(2, 4)) + 1
	if limit == 1 && rt.Bound(0, 1) == 0 || rt.Choose("multi", 2) == 0 {
		b.exact("search", limit, one(dt, query(1), config(limit, higher)))
	} else {
		b.exact("request", limit, multi(dt, config(limit, higher), query(1)))
	}
	rt.Reach("end")
}

// Any interleaving of the participants.
//gosym: reach=end preempt=2 budget=300
//gosym:thorough preempt=3 budget=900
//bound: 2 local entries, 2 peers with 2 and 1 offers (one of them also held locally), limit 2 or 10; every interleaving with at most 2 (thorough 3) preemptions
func Check_Interleavings() {
	dt := hkit.Plain()
	b := newBook(5, true)
	rt.NoPreempt(func() {
		local(dt, b, []float32{1}, 1, 2)
		hkit.AddPeer(dt, peer("p", []int{3, 2}, []float64{5, 6}))
		hkit.AddPeer(dt, peer("q", []int{4}, []float64{0.5}))
		b.offer(3, 5)
		b.offer(2, 6)
		b.offer(4, 0.5)
	})
	limit := []int{10, 2}[rt.Choose("limit", 2)]
	b.exact("search", limit, one(dt, query(1), config(limit, true)))
	rt.Reach("end")
}

// Several query vectors at once.
//gosym: reach=end preempt=1 budget=300
//gosym:thorough preempt=2 budget=900
//bound: requests with 0..2 (thorough 3) query vectors (two may be the same), cached or not, over 2 local entries and 1 peer, grouped or not by the same key; every interleaving with at most 1 (thorough 2) preemptions
func Check_Queries() {
	dt := hkit.Plain()
	b := newBook(4, true)
	n := rt.Choose("queries", rt.Bound(3, 4))
	xs := []float32{1, 2, -1}[:n]
	if n > 1 && rt.Choose("twice", 2) == 1 {
		xs = []float32{2, 2, -1}[:n] // the same query twice
	}
	var qs []*pb.Datum
	rt.NoPreempt(func() {
		local(dt, b, xs, 1, 2)
		for _, x := range xs {
			qs = append(qs, query(x))
			b.offer(3, float64(x)+1)
		}
		hkit.AddPeer(dt, &hkit.Peer{ID: "p", Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
			out <- scored(3, float64(q.Key.Feature[0])+1)
		}})
	})
	c := config(10, true)
	if rt.Choose("cached", 2) == 1 {
		c.CacheDuration = 60
	}
	res := multi(dt, c, qs...)
	if n == 0 {
		rt.Assert(len(res) == 0, "no query, no result")
	} else {
		b.exact("request", 10, res)
	}
	rt.Reach("end")
}

// A participant that hangs; the timeout at any moment.
//gosym: reach=returned,late timers preempt=1 budget=300
//gosym:thorough preempt=2 budget=900
//bound: 1 local entry, a peer that offers 1 entry, a peer that offers 1 entry and hangs until after the search has returned and then offers another; the timeout at any moment; every interleaving with at most 1 (thorough 2) preemptions; single query or request
func Check_Timeout() {
	dt := hkit.Plain()
	b := newBook(4, true)
	release := make(chan bool)
	hung := rt.Choose("hung", 2) == 1
	rt.NoPreempt(func() {
		local(dt, b, []float32{1}, 1)
		hkit.AddPeer(dt, peer("p", []int{2}, []float64{5}))
		hkit.AddPeer(dt, &hkit.Peer{ID: "q", Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
			out <- scored(1, 7)
			if hung {
				<-release
				out <- scored(3, 8)
			}
		}})
		b.offer(2, 5)
		b.offer(1, 7)
	})
	var res []*pb.ScoredDatum
	if rt.Choose("multi", 2) == 0 {
		res = one(dt, query(1), config(10, true))
	} else {
		res = multi(dt, config(10, true), query(1))
	}
	rt.Reach("returned")
	b.subset("search cut short", 10, res)
	if hung {
		close(release)
	}
	hkit.Settle() // a late answer does no harm
	rt.Reach("late")
}

// A participant that hangs does not keep back what the others have answered in time.
//gosym: reach=end budget=100
//bound: as before with the timeout only after the others have come to rest
func Check_Hang() {
	dt := hkit.Plain()
	b := newBook(4, true)
	rt.NoPreempt(func() {
		local(dt, b, []float32{1}, 1)
		hkit.AddPeer(dt, peer("p", []int{2}, []float64{5}))
		hkit.AddPeer(dt, &hkit.Peer{ID: "q", Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
			out <- scored(1, 7)
			select {}
		}})
		b.offer(2, 5)
		b.offer(1, 7)
	})
	b.exact("search with a hung peer", 10, one(dt, query(1), config(10, true)))
	rt.Reach("end")
}

// More results than any buffer holds.
//gosym: reach=end steps=20000000 budget=100
//bound: 130 offers by one peer and 105 local entries, limit 110 or 1000, single query (thorough also a request of two)
func Check_Many() {
	dt := hkit.Plain()
	const n = 105
	for i := 0; i < n; i++ {
		d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 1}}, Value: &pb.DatumValue{Label: []byte{byte(i)}}}
		rt.Assert(dt.InsertBDMap(d, nil) == nil, "insert is accepted")
	}
	hkit.AddPeer(dt, &hkit.Peer{ID: "p", Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
		for i := 0; i < 130; i++ {
			out <- &pb.ScoredDatum{Datum: &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 1}}, Value: &pb.DatumValue{}}, Score: float64(i)}
		}
	}})
	limit := []int{110, 1000}[rt.Choose("limit", 2)]
	var res []*pb.ScoredDatum
	if rt.Choose("multi", rt.Bound(1, 2)) == 0 {
		out := make(chan *pb.ScoredDatum, 2000)
		rt.Assert(dt.AggregatedSearch(query(1), out, nil, config(limit, true)) == nil, "the search does not fail")
		close(out)
		for s := range out {
			res = append(res, s)
		}
	} else {
		res = multi(dt, config(limit, true), query(1), query(0.5))
	}
	want := 130
	if limit < want {
		want = limit
	}
	rt.Assert(len(res) == want, "a large answer is complete")
	for i, r := range res {
		rt.Assert(r.Score == float64(129-i), "a large answer has the best, best first")
	}
	rt.Reach("end")
}

// stream is what a peer's search stream looks like to the client.
type stream struct {
	grpc.ClientStream
	left []*pb.ScoredDatum
	end  error
	open bool
	ask  func(*pb.SearchRequest)
}

func (s *stream) Header() (metadata.MD, error) { return nil, nil }
func (s *stream) Trailer() metadata.MD         { return nil }
func (s *stream) CloseSend() error             { return nil }
func (s *stream) Context() context.Context     { return context.Background() }
func (s *stream) SendMsg(m interface{}) error {
	if r, ok := m.(*pb.SearchRequest); ok {
		s.ask(r)
	}
	if !s.open {
		return errors.New("broken")
	}
	return nil
}
func (s *stream) RecvMsg(m interface{}) error {
	if len(s.left) == 0 {
		return s.end
	}
	d := m.(*pb.ScoredDatum)
	d.Datum, d.Score = s.left[0].Datum, s.left[0].Score
	s.left = s.left[1:]
	return nil
}

// Remote peers over the service, failing in any way.
//gosym: reach=end nonative budget=300
//gosym:thorough preempt=1 budget=900
//bound: 1 local entry and 2 remote peers, each of which cannot be dialled, refuses the stream, breaks on sending or answers 0..2 entries with any scores and then ends or fails, higher or lower better; what the peers are asked
func Check_Remote() {
	dt := hkit.Plain()
	higher := rt.Choose("higher", 2) == 1
	b := newBook(4, higher)
	cc := util.NewConnectionCache()
	rt.Quiesce()
	mode, count, end := map[string]int{}, map[string]int{}, map[string]error{}
	scores := map[string][]float64{}
	entries := map[string][]int{"p:1": {1, 2}, "q:2": {2, 3}}
	local(dt, b, []float32{1}, 1)
	for _, a := range []string{"p:1", "q:2"} {
		mode[a] = rt.Choose("mode", 4)
		if mode[a] == 3 {
			count[a] = rt.Choose("count", 3)
			end[a] = []error{io.EOF, errors.New("rpc error: code = Unavailable")}[rt.Choose("end", 2)]
			for k := 0; k < count[a]; k++ {
				s := hkit.Score("score")
				scores[a] = append(scores[a], s)
				b.offer(entries[a][k], s)
			}
		}
		rt.Assert(dt.AddSource(node.GetDataSourceClient(&pb.Peer{}, "d", a, cc)) == nil, "a source is accepted")
	}
	c := config(10, higher)
	rt.HookDial(func(a string) bool { return mode[a] != 0 })
	rt.HookStream(func(a, method string) (grpc.ClientStream, error) {
		if mode[a] == 1 {
			return nil, errors.New("rpc error: code = Unavailable")
		}
		s := &stream{end: end[a], open: mode[a] == 3, ask: func(r *pb.SearchRequest) {
			rt.Assert(len(r.GetDatum()) == 1 && r.GetDatum()[0].GetKey().GetFeature()[0] == 1 && len(r.GetDatum()[0].GetKey().GetFeature()) == 2, "a peer is asked the same query")
			g, w := r.GetConfig(), c
			rt.Assert(g.GetDataName() == w.DataName && g.GetScoreFuncName() == w.ScoreFuncName && g.GetHigherIsBetter() == w.HigherIsBetter && g.GetLimit() == w.Limit &&
				g.GetUuid() == w.Uuid && len(g.GetFilters()) == 0 && len(g.GetGroupFilters()) == 0 && g.GetTimeout() <= w.Timeout, "a peer is asked with the same options")
		}}
		for k := 0; k < count[a]; k++ {
			s.left = append(s.left, scored(entries[a][k], scores[a][k]))
		}
		return s, nil
	})
	b.exact("search of remote peers", 10, multi(dt, c, query(1)))
	rt.Reach("end")
}

// What a peer is asked, for any options.
//gosym: reach=asked budget=200
//bound: one peer; time budgets of 1..4095 ms, and 1 min, 1 h, 1 day; any limits, group limit, result limit and cache duration, with or without filters, higher or lower better; single query or request
func Check_Asked() {
	dt := hkit.Plain()
	t := []uint64{0, 60000, 3600000, 86400000}[rt.Choose("timeout", 4)]
	if t == 0 {
		t = rt.U64("timeout")
		rt.Assume(rt.And(t > 0, t < 4096))
	}
	c := &pb.SearchConfig{DataName: "d", ScoreFuncName: "VectorMultiplication", HigherIsBetter: rt.Choose("higher", 2) == 1, Limit: rt.U32("limit"), Timeout: t,
		Uuid: "u", GroupLimit: rt.U32("group"), ResultLimit: rt.U64("result"), CacheDuration: rt.U64("cache")}
	rt.Assume(rt.And(c.CacheDuration < 1<<30, rt.And(c.ResultLimit < 1<<40, rt.And(c.Limit < 1<<20, c.GroupLimit < 1<<20))))
	if rt.Choose("filters", 2) == 1 {
		c.Filters, c.GroupFilters = []string{"a", "b"}, []string{"g"}
	}
	want := *c
	asked := 0
	hkit.AddPeer(dt, &hkit.Peer{ID: "p", Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, g *pb.SearchConfig) {
		asked++
		rt.Assert(q.GetKey().GetFeature()[0] == 3, "a peer is asked the same query")
		rt.Assert(g.Timeout <= want.Timeout, "a peer gets no longer a time budget")
		rt.Assert(g.DataName == want.DataName && g.ScoreFuncName == want.ScoreFuncName && g.HigherIsBetter == want.HigherIsBetter && g.Uuid == want.Uuid, "a peer is asked with the same options")
		rt.Assert(rt.And(g.Limit == want.Limit, rt.And(g.GroupLimit == want.GroupLimit, rt.And(g.ResultLimit == want.ResultLimit, g.CacheDuration == want.CacheDuration))), "a peer is asked with the same limits")
		rt.Assert(len(g.Filters) == len(want.Filters) && len(g.GroupFilters) == len(want.GroupFilters), "a peer is asked with the same filters")
		for i := range g.Filters {
			rt.Assert(g.Filters[i] == want.Filters[i], "a peer is asked with the same filters")
		}
		for i := range g.GroupFilters {
			rt.Assert(g.GroupFilters[i] == want.GroupFilters[i], "a peer is asked with the same group filters")
		}
	}})
	if rt.Choose("multi", 2) == 0 {
		one(dt, query(3), c)
	} else {
		multi(dt, c, query(3))
	}
	rt.Assert(asked == 1, "a peer is asked once")
	rt.Reach("asked")
}
