// Package c14: rebalancing never loses or immortalises data.
package c14

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

const start = 1000000000

func entry(i int) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}, Dim1: uint32(i)}, Value: &pb.DatumValue{Label: []byte{byte('a' + i)}, Version: uint64(i)}}
}

type setup struct {
	dt    *data.Data
	n     int
	ttl   []uint64
	peers []*hkit.Peer
}

func build(n, np int, cfg *pb.DataConfig, ttl func(i int) uint64) *setup {
	rt.SetClock(start)
	s := &setup{dt: hkit.NewData(cfg), n: n}
	for i := 0; i < n; i++ {
		s.ttl = append(s.ttl, ttl(i))
		rt.Assert(s.dt.InsertBDMap(entry(i), &pb.InsertConfig{TTL: s.ttl[i]}) == nil, "insert is accepted")
	}
	s.dt.N = uint64(n)
	s.dt.Avg = []float32{1}
	for j := 0; j < np; j++ {
		kinds := []int{0, 1, 2, 3} // accepts, is over its target, is draining, cannot be reached
		if j > 0 {
			kinds = kinds[:2]
		}
		kind := kinds[rt.Choose("answer", len(kinds))]
		p := &hkit.Peer{ID: "p" + string([]byte{byte('0' + j)})}
		p.Ack = func(d *pb.Datum, c *pb.InsertConfig) error { return hkit.PeerError(kind) }
		p.Info = func() *pb.DataInfo { return &pb.DataInfo{N: 0, Avg: []float32{9}} }
		s.peers = append(s.peers, p)
		hkit.AddPeer(s.dt, p)
	}
	return s
}

func anyTTL(i int) uint64 {
	t := rt.U64("ttl")
	rt.Assume(t < 1<<40)
	return t
}

// copies checks what was handed over, and returns for each entry whether some peer acknowledged it.
func (s *setup) copies() []bool {
	acked := make([]bool, s.n)
	for _, p := range s.peers {
		for k, d := range p.Got {
			i := int(d.Key.Dim1)
			rt.Assert(i < s.n && hkit.SameKey(d.Key, entry(i).Key) && hkit.SameValue(d.Value, entry(i).Value), "a copy carries the entry's own datum")
			rt.Assert(!p.NilCfg[k] && p.Count[k] != 0, "a copy is marked as already forwarded")
			ttl := p.TTL[k]
			rt.Assert(rt.Implies(s.ttl[i] == 0, ttl == 0), "an entry that never expires is handed over as never expiring")
			rt.Assert(rt.Implies(s.ttl[i] != 0, ttl != 0), "an entry that expires is never handed over as immortal")
			rt.Assert(rt.Implies(s.ttl[i] != 0, ttl <= s.ttl[i]), "a copy expires no later than the original")
			if p.Acked[k] {
				acked[i] = true
			}
			rt.Reach("copy")
		}
	}
	return acked
}

// removed checks that what is gone was acknowledged, and returns how many are gone.
func (s *setup) removed(acked []bool, elapsed uint64) int {
	gone := 0
	here := make([]bool, s.n)
	for _, d := range hkit.All(s.dt, s.n+1) {
		i := int(d.Key.Dim1)
		rt.Assert(i < s.n && !here[i], "no entry appears out of nothing")
		rt.Assert(hkit.SameKey(d.Key, entry(i).Key) && hkit.SameValue(d.Value, entry(i).Value), "entries stay as they are")
		here[i] = true
	}
	for i := range here {
		if here[i] {
			continue
		}
		if !acked[i] {
			rt.Assert(rt.And(s.ttl[i] != 0, s.ttl[i] <= elapsed), "a live entry is removed only if a peer acknowledged it")
		} else {
			gone++
		}
	}
	return gone
}

// One periodic pass while in service.
//gosym: reach=copy,evicted,kept budget=300
//gosym:thorough preempt=1 budget=900
//bound: 2 entries (thorough 3) with any lifetime, 1 or 2 peers that accept, refuse in either way or cannot be reached, any target up to 8, utilisation 0, 0.5, 1 or no target, any random choices, clock standing still
func Check_Periodic() {
	n := rt.Bound(2, 3)
	cfg := &pb.DataConfig{Name: "d", NoTarget: rt.Choose("notarget", 2) == 1, TargetN: uint64(rt.Int("target", 0, 8)), TargetUtilization: []float64{0, 0.5, 1}[rt.Choose("util", 3)]}
	s := build(n, 1+rt.Choose("peers", 2), cfg, anyTTL)
	rt.Assert(s.dt.Process(true) == nil, "the maintenance pass succeeds")
	rt.Quiesce()
	gone := s.removed(s.copies(), 0)
	if gone > 0 {
		rt.Reach("evicted")
		rt.Assert(!cfg.NoTarget, "without a size target nothing is evicted")
		// before the last of them went, the size was still at or above the utilisation threshold
		before := float64(n - gone + 1)
		rt.Assert(before >= float64(cfg.TargetN)*cfg.TargetUtilization-1, "entries are removed only while the size is at or above the utilisation threshold")
	} else {
		rt.Reach("kept")
	}
	rt.ObserveI("gone", gone)
}

// A pass during which time goes by.
//gosym: reach=copy budget=300
//gosym:thorough budget=900
//bound: 1 entry with any lifetime, 1 accepting peer, every reading of the clock up to 3 s (thorough 20 s) after the one before; in service over its target, or shutting down
func Check_TimePasses() {
	rt.SetClock(start)
	cfg := &pb.DataConfig{Name: "d", TargetN: 0}
	s := build(1, 1, cfg, anyTTL)
	s.dt.Alive = rt.Choose("alive", 2) == 1
	rt.Tick(rt.Bound(3, 20))
	rt.Assert(s.dt.Process(true) == nil, "the maintenance pass succeeds")
	rt.Quiesce()
	rt.Tick(0)
	s.removed(s.copies(), uint64(rt.NowUnix()-start))
}

// Shutting down hands over everything that peers accept.
//gosym: fair=20000 reach=copy hang budget=300
//bound: 1..2 entries (thorough 3) with any lifetime above 10 s or none, one peer, larger or smaller, that accepts after 0..2 refusals and possibly a refusing one; all of them, some or none counted in the published statistics; the whole of Close
func Check_Close() {
	n := 1 + rt.Choose("n", rt.Bound(2, 3))
	s := build(n, 1+rt.Choose("peers", 2), &pb.DataConfig{Name: "d", NoTarget: rt.Choose("notarget", 2) == 1, TargetN: 100}, func(i int) uint64 {
		t := anyTTL(i)
		rt.Assume(rt.Or(t == 0, t > 10))
		return t
	})
	fails := rt.Choose("fails", 3) // refused at first
	s.peers[0].Ack = func(d *pb.Datum, c *pb.InsertConfig) error {
		if fails > 0 {
			fails--
			return hkit.PeerError(1 + rt.Choose("failure", 2)*2)
		}
		return nil
	}
	if rt.Choose("larger", 2) == 1 {
		s.peers[0].Info = func() *pb.DataInfo { return &pb.DataInfo{N: 50, Avg: []float32{9}} }
	}
	s.dt.N = uint64(rt.Choose("published", n+1)) // entries inserted after the last pass are not counted yet
	rt.Assert(s.dt.Close() == nil, "closing succeeds")
	rt.Quiesce()
	acked := s.copies()
	for i := range acked {
		rt.Assert(acked[i], "on shutdown every live entry is handed over")
	}
}

// An insert while a pass evicts.
//gosym: preempt=2 reach=end budget=300
//gosym:thorough preempt=3 budget=900
//bound: 1 entry over the target, 1 accepting peer, an insert of a new value of the same key concurrent with the pass: all schedules with up to 2 preemptions (thorough 3)
func Check_ConcurrentInsert() {
	rt.SetClock(start)
	dt := hkit.NewData(&pb.DataConfig{Name: "d", TargetN: 10, TargetUtilization: 0})
	rt.Assert(dt.InsertBDMap(entry(0), nil) == nil, "insert is accepted")
	dt.N = 1
	p := &hkit.Peer{ID: "p", Info: func() *pb.DataInfo { return &pb.DataInfo{} }}
	hkit.AddPeer(dt, p)
	done := make(chan error, 1)
	go func() {
		d := entry(0)
		d.Value.Version = 77
		done <- dt.Insert(d, nil)
	}()
	rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	rt.Assert(<-done == nil, "insert is accepted")
	rt.Quiesce()
	ok := false
	for _, d := range hkit.All(dt, 3) {
		ok = ok || d.Value.Version == 77
	}
	for k, d := range p.Got {
		ok = ok || p.Acked[k] && d.Value.Version == 77
	}
	rt.Assert(ok, "an entry stored during the pass is removed only if a peer acknowledged that very datum")
	rt.Reach("end")
}
