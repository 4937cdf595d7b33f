// Package c23: no request can crash the node.
package c23

import (
	"context"
	"errors"
	"math"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc/peer"
)

var ctx = context.Background()

const mb = 1 << 20

var nan = float32(math.NaN())

// anyDatum has any shape a datum can have on the wire; ok says whether it has a key.
func anyDatum(label string, max int) (d *pb.Datum, ok bool) {
	switch rt.Choose(label, max) {
	case 0: // absent
	case 1:
		d = &pb.Datum{}
	case 2:
		d = &pb.Datum{Value: &pb.DatumValue{Label: []byte(`{"a":1}`)}}
	case 3:
		d, ok = &pb.Datum{Key: &pb.DatumKey{}}, true
	case 4:
		d, ok = &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, 2}}, Value: &pb.DatumValue{}}, true
	case 5:
		d, ok = &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, 2}}}, true
	case 6:
		d, ok = &pb.Datum{Key: &pb.DatumKey{Feature: []float32{nan}, GroupLabel: []byte("{")}, Value: &pb.DatumValue{Label: []byte(`{"a":1}`)}}, true
	case 7:
		d, ok = &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, float32(math.Inf(1)), 3}, Size1: rt.U32("size"), Dim1: rt.U32("dim"), GroupLabel: []byte(`{"a":{}}`)}, Value: &pb.DatumValue{Version: rt.U64("version")}}, true
	}
	return
}

const shapes = 8

func list(n *node.Node) int { return len(n.Dataset.DataList.Items()) }

func stored(n *node.Node, name string) int {
	dt, err := n.Dataset.GetNoCreate(name)
	if err != nil {
		return -1
	}
	c := 0
	rt.Assert(dt.LoopDBMap(func(*data.DBMapEntry) error { c++; return nil }) == nil, "entries can be listed")
	return c
}

func insert(n *node.Node, name string, extreme bool) {
	d, ok := anyDatum("datum", shapes)
	var c *pb.InsertConfig
	if extreme && rt.Choose("config", 2) == 1 {
		c = &pb.InsertConfig{TTL: rt.U64("ttl"), Count: rt.U64("count")}
	}
	sets, before := list(n), stored(n, name)
	_, err := n.Insert(ctx, &pb.InsertionRequest{Config: c, Datum: d, DataName: name})
	if !ok {
		rt.Reach("refused")
		rt.Assert(err != nil, "an insert without a key is answered with an error")
		rt.Assert(list(n) == sets, "a refused insert creates no dataset")
		rt.Assert(stored(n, name) == before, "a refused insert changes no entries")
	} else {
		rt.Reach("inserted")
	}
}

func search(n *node.Node, c *pb.SearchConfig, ds ...*pb.Datum) error {
	return n.SearchStream(&pb.SearchRequest{Config: c, Datum: ds}, &hkit.ScoredStream{})
}

// maintain does what the node does on its own from time to time, and some ordinary requests.
func maintain(n *node.Node, name string) {
	if dt, err := n.Dataset.GetNoCreate(name); err == nil {
		rt.Assert(dt.Process(true) == nil, "maintenance succeeds")
		rt.Assert(dt.Process(true) == nil, "maintenance succeeds")
	}
	q := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, 2}}}
	for _, f := range []string{"VectorDistance", "AnnoyAngularDistance"} {
		search(n, &pb.SearchConfig{DataName: name, Limit: 3, Timeout: 1000, ScoreFuncName: f, Filters: []string{"a"}}, q)
		search(n, &pb.SearchConfig{DataName: name, Limit: 3, Timeout: 1000, ScoreFuncName: f, GroupFilters: []string{"a"}}, q)
		search(n, &pb.SearchConfig{DataName: name, Limit: 3, GroupLimit: 1, Timeout: 1000, ScoreFuncName: f}, q)
	}
	rt.Assert(n.DataStream(&pb.GetDataRequest{Name: name}, &hkit.DatumStream{}) == nil, "streaming succeeds")
	n.Info()
	n.Dataset.ReloadRuns()
	n.Dataset.SaveIndex()
	rt.Quiesce()
}

// Inserts of any shape.
//gosym: reach=refused,inserted budget=300
//gosym:thorough budget=900
//bound: 2 inserts (thorough 3) into a new or existing dataset, each datum of 8 shapes (absent, no key, no value, empty, mixed dimensions, NaN and infinite components, broken JSON labels), the first with or without config of any lifetime and count; then maintenance, searches with filters and groups, streaming
func Check_Insert() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	rt.NoPreempt(func() {
		rt.LimitAlloc(mb)
		for i, k := 0, rt.Bound(2, 3); i < k; i++ {
			insert(n, "d", i == 0)
		}
		maintain(n, "d")
	})
	rt.Reach("end")
}

func anyContext() (*pb.SearchContext, bool) {
	switch rt.Choose("context", rt.Bound(3, 4)) {
	case 1:
		return &pb.SearchContext{Prioritize: true}, true
	case 2:
		d, ok := anyDatum("contextdatum", 5)
		if d == nil {
			d = &pb.Datum{}
		}
		return &pb.SearchContext{Datum: []*pb.Datum{d}, Prioritize: rt.Bool("prioritize")}, ok
	case 3:
		a, oka := anyDatum("contextdatum", 5)
		if a == nil {
			a = &pb.Datum{}
		}
		return &pb.SearchContext{Datum: []*pb.Datum{{Key: &pb.DatumKey{Feature: []float32{1}}}, a}}, oka
	}
	return nil, true
}

func fill(n *node.Node) {
	for i := 4; i < shapes; i++ {
		d, _ := shape(i)
		_, err := n.Insert(ctx, &pb.InsertionRequest{Datum: d, DataName: "d"})
		_ = err
	}
	rt.Quiesce()
}

func shape(i int) (*pb.Datum, bool) {
	switch i {
	case 4:
		return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, 2}, GroupLabel: []byte("g")}, Value: &pb.DatumValue{}}, true
	case 5:
		return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{2, 2}}}, true
	case 6:
		return &pb.Datum{Key: &pb.DatumKey{GroupLabel: []byte("{")}, Value: &pb.DatumValue{Label: []byte(`{"a":1}`)}}, true
	}
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, 2, 3}, GroupLabel: []byte(`{"a":{}}`)}, Value: &pb.DatumValue{Version: 1}}, true
}

// Searches with any query vectors and contexts.
//gosym: reach=refused,end budget=200
//gosym:thorough budget=600
//bound: 1 search with or without config, 0..2 query datums of 8 shapes, no context or one of 0..1 (thorough 2) datums of 5 shapes (the second query of 4 shapes in the quick tier), plain, grouped or through the index (built or not) of a dataset with 4 unusual entries
func Check_SearchShapes() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	rt.NoPreempt(func() {
		fill(n)
		if rt.Choose("indexed", 2) == 1 {
			dt, err := n.Dataset.GetNoCreate("d")
			rt.Assert(err == nil && dt.Process(true) == nil, "maintenance succeeds")
		}
		rt.LimitAlloc(mb)
		var c *pb.SearchConfig
		ok := false
		if rt.Choose("config", 2) == 1 {
			ok = true
			c = &pb.SearchConfig{DataName: "d", Limit: 3, Timeout: 1000}
			switch rt.Choose("kind", 5) {
			case 1:
				c.ScoreFuncName = "AnnoyCosineSimilarity"
				c.HigherIsBetter = true
			case 2:
				c.GroupLimit = 2
			case 3:
				c.CacheDuration = 10
			case 4:
				*c = pb.SearchConfig{DataName: "d"}
			}
		}
		req := &pb.SearchRequest{Config: c}
		for i, k := 0, rt.Choose("queries", 3); i < k; i++ {
			d, okd := anyDatum("query", rt.IteI(i > 0 && !rt.Thorough(), 4, shapes))
			if d == nil {
				d = &pb.Datum{}
			}
			ok = ok && okd
			req.Datum = append(req.Datum, d)
		}
		x, okx := anyContext()
		req.Context = x
		ok = ok && okx
		s := &hkit.ScoredStream{}
		before := stored(n, "d")
		err := n.SearchStream(req, s)
		rt.Quiesce()
		if !ok {
			rt.Reach("refused")
			rt.Assert(err != nil, "a search without config or with a datum without key is answered with an error")
			rt.Assert(len(s.Sent) == 0, "a refused search has no results")
		} else {
			rt.Assert(err == nil, "a complete search is answered")
		}
		rt.Assert(stored(n, "d") == before, "a search changes no entries")
		rt.Reach("end")
	})
}

// Searches with extreme numbers.
//gosym: reach=end budget=200
//gosym:thorough budget=600
//bound: 1 search with any limits, timeout, cache duration and any of the scoring functions, of a dataset with 4 unusual entries, index built or not; at most 1 MB allocated at once
func Check_SearchNumbers() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	rt.NoPreempt(func() {
		fill(n)
		dt, err := n.Dataset.GetNoCreate("d")
		rt.Assert(err == nil, "the dataset is there")
		if rt.Choose("indexed", 2) == 1 {
			rt.Assert(dt.Process(true) == nil, "maintenance succeeds")
		}
		rt.LimitAlloc(mb)
		c := &pb.SearchConfig{DataName: "d", Limit: rt.U32("limit"), Timeout: []uint64{0, 1000, math.MaxUint64}[rt.Choose("timeout", 3)],
			ScoreFuncName: []string{"", "AnnoyVectorDistance", "CosineSimilarity"}[rt.Choose("func", 3)], HigherIsBetter: rt.Bool("higher")}
		switch rt.Choose("kind", 4) {
		case 1:
			c.GroupLimit = rt.U32("grouplimit")
		case 2:
			c.ResultLimit = rt.U64("resultlimit")
		case 3:
			c.CacheDuration = []uint64{1, math.MaxUint64}[rt.Choose("cache", 2)]
		}
		for i := 0; i < 2 && (i == 0 || c.CacheDuration > 0); i++ {
			search(n, c, &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1, 2}}})
			rt.Quiesce()
		}
		rt.Reach("end")
	})
}

// Datasets with any configuration.
//gosym: reach=end budget=200
//gosym:thorough budget=600
//bound: a creation with any version, target, retention and replication numbers and utilisation (with NaN and infinity) or none of them, and another offer, names "" , "d" and "../x"; then info, inserts, maintenance, a save and a restart
func Check_Create() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	rt.NoPreempt(func() {
		rt.LimitAlloc(mb)
		name := []string{"d", "", "../x"}[rt.Choose("name", 3)]
		for i := 0; i < 2; i++ {
			c := &pb.DataConfig{Name: name}
			if i > 0 {
				c.Version, c.TargetN, c.ReplicationOnInsert = rt.U64("version"), rt.U64("target"), rt.U32("repl")
			} else if rt.Choose("full", 2) == 1 {
				c.Version, c.TargetN, c.NoTarget, c.Retention = rt.U64("version"), rt.U64("target"), rt.Bool("notarget"), []uint64{0, 1, math.MaxUint64, 1 << 40}[rt.Choose("retention", 4)]
				c.TargetUtilization = []float64{0, math.NaN(), math.Inf(1)}[rt.Choose("util", 3)]
				c.ReplicationOnInsert, c.EnforceReplicationOnInsert = rt.U32("repl"), rt.Bool("enforce")
			}
			_, err := n.CreateDataIfNotExists(ctx, c)
			rt.Assert(err == nil, "the dataset is created")
		}
		_, err := n.GetDataInfo(ctx, &pb.GetDataRequest{Name: name})
		rt.Assert(err == nil, "info is answered")
		d, _ := shape(4)
		n.Insert(ctx, &pb.InsertionRequest{Datum: d, DataName: name})
		maintain(n, name)
		data.NewDataset(rt.Scratch())
		rt.Quiesce()
	})
	rt.Reach("end")
}

// anyPeer has any shape a peer announcement can have on the wire.
func anyPeer(label string) *pb.Peer {
	p := &pb.Peer{}
	switch rt.Choose(label, 6) {
	case 0:
		return nil
	case 1:
	case 2:
		p.Timestamp = rt.U64("timestamp")
	case 3:
		p.Timestamp, p.AddressList = rt.U64("timestamp"), []string{"127.0.0.1:1"}
		p.DataList = []*pb.DataConfig{{Name: "d"}}
	case 4:
		p.Timestamp, p.AddressList, p.ServiceList = 1000000000, []string{"127.0.0.1:1", "me:1"}, []string{"127.0.0.1:2", ""}
		p.DataList = []*pb.DataConfig{{}, {Name: "e", Retention: math.MaxUint64}}
	case 5:
		p.Timestamp, p.AddressList = 1000000000, []string{"", ""}
		p.DataList = []*pb.DataConfig{{Name: "d"}}
	}
	return p
}

// Announcements of any shape, and peers that cannot be reached or fail.
//gosym: reach=refused,end nonative budget=300
//gosym:thorough budget=900
//bound: 2 announcements (thorough 3) of 6 shapes by AddPeer or Join with any timestamps; peers that cannot be dialled, fail, answer nothing or answer; then two rounds of joining, synchronising, node info, reloading and maintenance
func Check_Peers() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	mood := rt.Choose("mood", 3)
	rt.HookDial(func(string) bool { return mood != 0 })
	rt.HookInvoke(func(addr, method string, in interface{}, out interface{}) error {
		if mood == 1 {
			return errors.New("unavailable")
		}
		if info, ok := out.(*pb.DataInfo); ok {
			info.N = 12345678901234567890
			info.Avg = []float32{1, 2, 3}
		}
		return nil
	})
	rt.NoPreempt(func() {
		rt.LimitAlloc(mb)
		announce(n, rt.Bound(2, 3))
		d, _ := shape(4)
		n.Insert(ctx, &pb.InsertionRequest{Datum: d, DataName: "d"})
		for i := 0; i < 2; i++ {
			round(n)
		}
	})
	rt.Reach("end")
}

// origin is a context that knows where a request comes from.
type origin struct {
	context.Context
	p *peer.Peer
}

func (o origin) Value(interface{}) interface{} { return o.p }

type address string

func (a address) Network() string { return "x" }
func (a address) String() string  { return string(a) }

// from is the context of a request that comes from some kind of address.
func from(k int) context.Context {
	if k == 0 {
		return ctx
	}
	return origin{ctx, &peer.Peer{Addr: address([]string{"", "@", ":", ":1", "1.2.3.4:5", "[::1]:6"}[k-1])}}
}

func announce(n *node.Node, k int) {
	for i := 0; i < k; i++ {
		p := anyPeer("peer")
		before := len(n.PeerListItems())
		var err error
		if rt.Choose("how", 2) == 0 {
			_, err = n.AddPeer(ctx, &pb.AddPeerRequest{Peer: p})
		} else {
			c := ctx
			if i == 0 {
				c = from(rt.Choose("from", 7))
			}
			_, err = n.Join(c, &pb.JoinRequest{Peer: p})
		}
		if p == nil {
			rt.Reach("refused")
			rt.Assert(err != nil, "an announcement without a peer is answered with an error")
			rt.Assert(len(n.PeerListItems()) == before, "a refused announcement changes nothing")
		}
	}
}

func round(n *node.Node) {
	n.JoinToPeers()
	n.SyncWithPeers()
	rt.Quiesce()
	n.Info()
	for _, name := range n.Dataset.List() {
		dt, err := n.Dataset.GetNoCreate(name)
		rt.Assert(err == nil, "listed datasets exist")
		rt.Assert(dt.Process(true) == nil, "maintenance succeeds")
	}
	n.Dataset.ReloadRuns()
	rt.Quiesce()
	n.Info()
}

// Announcements alone.
//gosym: reach=refused,end budget=100
//bound: 3 announcements of 6 shapes by AddPeer or Join, the first from 7 kinds of addresses, with any timestamps
func Check_Announcements() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	rt.NoPreempt(func() { announce(n, 3) })
	rt.Reach("end")
}

// Maintenance and requests at once.
//gosym: preempt=1 reach=end nonative budget=300
//gosym:thorough preempt=2 budget=900
//bound: one of (node info, reloading, synchronising with a peer, shutdown, a save) at the same time as one of (a creation, a deletion, an insert, a search, streaming), every interleaving with at most 1 (thorough 2) preemptions
func Check_AtOnce() {
	rt.SetClock(1000000000)
	n := hkit.NewNode("me:1")
	rt.HookDial(func(string) bool { return false })
	rt.NoPreempt(func() {
		_, err := n.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: "d", NoTarget: true})
		rt.Assert(err == nil, "the dataset is created")
		_, err = n.AddPeer(ctx, &pb.AddPeerRequest{Peer: &pb.Peer{Timestamp: 1000000000, AddressList: []string{"p:1"}, DataList: []*pb.DataConfig{{Name: "d"}, {Name: "e"}}}})
		rt.Assert(err == nil, "the peer is accepted")
		rt.Quiesce()
	})
	done := make(chan bool)
	task, req := rt.Choose("task", 4), rt.Choose("request", 5)
	go func() {
		switch task {
		case 0:
			n.Info()
		case 1:
			n.Dataset.ReloadRuns()
		case 2:
			n.SyncWithPeers()
		case 3:
			n.Dataset.SaveIndex()
		}
		done <- true
	}()
	d, _ := shape(4)
	switch req {
	case 0:
		n.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: "e", NoTarget: true})
	case 1:
		n.Dataset.Delete("d")
	case 2:
		n.Insert(ctx, &pb.InsertionRequest{Datum: d, DataName: "e"})
	case 3:
		search(n, &pb.SearchConfig{DataName: "e", Limit: 1, Timeout: 1000}, d)
	case 4:
		n.DataStream(&pb.GetDataRequest{Name: "e"}, &hkit.DatumStream{})
	}
	<-done
	hkit.Settle()
	rt.Reach("end")
}
