// Package c11: a query id is executed at most once per node.
package c11

import (
	"sync"

	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// setup: a node with a dataset of two entries and a peer that records the ids it is asked with.
func setup() (*node.Node, *hkit.Peer, *[]string) {
	rt.SetClock(1000000000)
	n := hkit.NewNode()
	var p *hkit.Peer
	ids := &[]string{}
	var mu sync.Mutex
	rt.NoPreempt(func() {
		dt, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
		rt.Assert(err == nil, "the dataset is created")
		for i := 0; i < 2; i++ {
			rt.Assert(dt.InsertBDMap(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}}, Value: &pb.DatumValue{Version: uint64(i)}}, nil) == nil, "insert is accepted")
		}
		p = &hkit.Peer{ID: "p", Answer: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
			mu.Lock()
			*ids = append(*ids, c.GetUuid())
			mu.Unlock()
		}}
		hkit.AddPeer(dt, p)
		rt.Quiesce()
	})
	return n, p, ids
}

func request(uid string) *pb.SearchRequest {
	return &pb.SearchRequest{
		Datum:  []*pb.Datum{{Key: &pb.DatumKey{Feature: []float32{0}}, Value: &pb.DatumValue{}}},
		Config: &pb.SearchConfig{DataName: "d", Uuid: uid, Limit: 10, Timeout: 1000, ScoreFuncName: "VectorDistance"},
	}
}

func run(n *node.Node, uid string) int {
	s := &hkit.ScoredStream{}
	rt.Assert(n.SearchStream(request(uid), s) == nil, "a search is answered without error")
	rt.Assert(len(s.Sent) == 0 || len(s.Sent) == 2, "a search is executed in full or not at all")
	rt.Assert(!s.Overlap, "the transport's send is never entered twice at once")
	return len(s.Sent)
}

// Requests one after another.
//gosym: reach=same,different,none budget=200
//bound: 3 requests (thorough 4) with any ids of 0..2 bytes
func Check_Sequence() {
	n, _, ids := setup()
	var uids []string
	k := rt.Bound(3, 4)
	for i := 0; i < k; i++ {
		uid := rt.String("uid", rt.Choose("len", 3))
		fresh := true
		for _, u := range uids {
			fresh = rt.And(fresh, rt.Not(rt.StrEq(u, uid)))
		}
		if uid == "" {
			fresh = true
		}
		before := len(*ids)
		got := run(n, uid)
		hkit.Settle()
		if fresh {
			rt.Assert(got == 2, "a search with a new id or none is executed")
			rt.Assert(len(*ids) == before+1, "an executed search is forwarded to the peer")
			f := (*ids)[before]
			rt.Assert(f != "", "a forwarded search has an id")
			if uid != "" {
				rt.Assert(rt.StrEq(f, uid), "a forwarded search keeps its id")
				rt.Reach("different")
			} else {
				rt.Reach("none")
				for j := 0; j < before; j++ {
					rt.Assert(rt.Not(rt.StrEq((*ids)[j], f)), "a generated id is a new one")
				}
			}
		} else {
			rt.Assert(got == 0 && len(*ids) == before, "a search with an id seen before is not executed")
			rt.Reach("same")
		}
		uids = append(uids, uid)
	}
}

// Requests with any number of query vectors.
//gosym: delay preempt=0 reach=none,given budget=100
//gosym:thorough preempt=1 budget=600
//bound: two requests in a row, each with no id or one of two ids, the first with 0..2 query vectors and one of 4 other options; one schedule (thorough: at most one delay)
func Check_Vectors() {
	n, _, ids := setup()
	seen := map[string]bool{}
	for i := 0; i < 2; i++ {
		uid := []string{"", "u", "U"}[rt.Choose("uid", 3)]
		r := request(uid)
		q := r.Datum[0]
		r.Datum = nil
		k, option := 1, 0
		if i == 0 {
			k, option = rt.Choose("vectors", 3), rt.Choose("option", 4)
		}
		for j := 0; j < k; j++ {
			r.Datum = append(r.Datum, &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(j)}}, Value: q.Value})
		}
		switch option {
		case 1:
			r.Config.GroupLimit = 1
		case 2:
			r.Config.Timeout = 1
		case 3:
			r.Context = &pb.SearchContext{Datum: []*pb.Datum{q}}
		}
		before := len(*ids)
		s := &hkit.ScoredStream{}
		rt.Assert(n.SearchStream(r, s) == nil, "a search is answered without error")
		hkit.Settle()
		if uid != "" && seen[uid] {
			rt.Assert(len(s.Sent) == 0 && len(*ids) == before, "a search with an id seen before is not executed")
			continue
		}
		seen[uid] = true
		rt.Assert(len(*ids) == before+k, "every query vector of an executed search is forwarded to the peer")
		for _, f := range (*ids)[before:] {
			rt.Assert(f != "", "a forwarded search has an id")
			rt.Assert(uid == "" || f == uid, "a forwarded search keeps its id")
			for _, o := range (*ids)[:before] {
				rt.Assert(uid != "" || o != f, "a generated id is a new one")
			}
		}
		if uid == "" {
			rt.Reach("none")
		} else {
			rt.Reach("given")
		}
	}
}

// Concurrent requests.
//gosym: preempt=1 race reach=same,different budget=300
//gosym:thorough preempt=2 budget=850
//bound: two concurrent requests with any 1-byte ids: all schedules with up to 1 preemption (thorough 2), also between accesses to shared memory
func Check_Concurrent() {
	n, _, ids := setup()
	a, b := rt.String("uid", 1), rt.String("uid", 1)
	same := a == b
	done := make(chan int, 1)
	go func() { done <- run(n, a) }()
	gb := run(n, b)
	ga := <-done
	rt.Preempt(0)
	hkit.Settle()
	if same {
		rt.Assert((ga == 2) != (gb == 2), "of concurrent requests with the same id exactly one is executed")
		rt.Assert(len(*ids) == 1, "the executed one is forwarded once")
		rt.Reach("same")
	} else {
		rt.Assert(ga == 2 && gb == 2, "requests with different ids are both executed")
		rt.Assert(len(*ids) == 2, "both are forwarded")
		rt.Reach("different")
	}
}

// Concurrent requests without ids are both executed, under different ids.
//gosym: preempt=1 reach=end budget=300
//gosym:thorough preempt=2 budget=900
//bound: two concurrent requests without id: all schedules with up to 1 preemption (thorough 2)
func Check_ConcurrentNoID() {
	n, _, ids := setup()
	done := make(chan int, 1)
	go func() { done <- run(n, "") }()
	gb := run(n, "")
	ga := <-done
	rt.Preempt(0)
	hkit.Settle()
	rt.Assert(ga == 2 && gb == 2, "requests without id are always executed")
	rt.Assert(len(*ids) == 2 && (*ids)[0] != "" && (*ids)[1] != "" && (*ids)[0] != (*ids)[1], "they are forwarded under different new ids")
	rt.Reach("end")
}

// The id is remembered for a while.
//gosym: reach=end
//bound: the same id again at any second up to 299 s later
func Check_Remembered() {
	n, _, _ := setup()
	rt.Assert(run(n, "u") == 2, "a search with a new id is executed")
	hkit.Settle()
	d := rt.Int("delay", 0, 299)
	rt.SetClock(1000000000 + int64(d))
	rt.Assert(run(n, "u") == 0, "the same id is not executed again")
	rt.Reach("end")
}
