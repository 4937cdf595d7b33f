// Package c29: data is exchanged as long as the statistics differ.
package c29

import (
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// shapes of statistics: how far the average and the histogram are from the node's own {0,0} and {1,0}
var shapes = []struct {
	avg, hist []float32
	far       float64
}{
	{[]float32{0, 0}, []float32{1, 0}, 0},
	{[]float32{3, 4}, []float32{1, 0}, 5},
	{[]float32{0, 0}, []float32{1, 0.5}, 0.5},
	{[]float32{0.03125, 0}, []float32{1, 0}, 0.03125},
	{[]float32{0.03125, 0}, []float32{1, 0.0625}, 0.09375},
	{nil, nil, 0},
}

// The quota of a peer.
//gosym: reach=differs,close,larger,none budget=300
//bound: node and 1 or 2 peers with any sizes below 2^20 (thorough 2^40), 6 shapes of averages and histograms (thorough both peers, else the second fixed), maximum distance 0, 1, 4 or 100; peers with or without available statistics
func Check_Quota() {
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: true})
	dt.Avg, dt.Hist = []float32{0, 0}, []float32{1, 0}
	dt.MaxDistance = []float64{0, 1, 4, 100}[rt.Choose("max", 4)]
	local := rt.U64("local")
	rt.Assume(local < 1<<uint(rt.Bound(20, 40)))
	dt.N = local
	type exp struct {
		id    string
		n     uint64
		far   float64
		avail bool
	}
	var es []exp
	for i, k := 0, 1+rt.Choose("peers", 2); i < k; i++ {
		s := shapes[1]
		avail := true
		if i == 0 || rt.Thorough() {
			s = shapes[rt.Choose("shape", len(shapes))]
			avail = rt.Choose("available", 2) == 1
		}
		n := rt.U64("n")
		rt.Assume(n < 1<<uint(rt.Bound(20, 40)))
		id := "p" + string([]byte{byte('0' + i)})
		p := &hkit.Peer{ID: id}
		if avail {
			p.Info = func() *pb.DataInfo { return &pb.DataInfo{N: n, Avg: s.avg, Hist: s.hist, MaxDistance: 7} }
		}
		hkit.AddPeer(dt, p)
		es = append(es, exp{id, n, s.far, avail})
	}
	m, sum := dt.DataSourceDiffMap()
	total := uint64(0)
	for _, q := range m {
		total += q
	}
	rt.Assert(total == sum, "the volume of a pass is the sum of the quotas")
	for _, e := range es {
		q := m[e.id]
		if !e.avail {
			rt.Assert(q == 0, "a peer without available statistics gets nothing")
			rt.Reach("none")
			continue
		}
		if e.far <= 0.01*dt.MaxDistance {
			rt.Assert(q <= 1, "a peer with the same statistics gets at most one entry")
			rt.Reach("close")
			continue
		}
		if e.n > local {
			rt.Assert(q == 1, "a larger peer whose statistics differ gets one entry")
			rt.Reach("larger")
			continue
		}
		half := (local-e.n)/2 + 1
		rt.Assert(q == rt.IteU(half < 1000, half, 1000), "a peer whose statistics differ gets half the difference in size plus one, at most 1000")
		rt.Reach("differs")
	}
}

// What a pass in service offers and removes.
//gosym: reach=offered,removed budget=300
//gosym:thorough budget=900
//bound: 3 entries (thorough 4), 1 or 2 accepting peers of any size 0..5 whose statistics differ or not or are not available, over the size target or not, any random choices
func Check_Volume() {
	n := rt.Bound(3, 4)
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: rt.Choose("notarget", 2) == 1})
	for i := 0; i < n; i++ {
		rt.Assert(dt.InsertBDMap(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 0}}, Value: &pb.DatumValue{}}, nil) == nil, "insert is accepted")
	}
	dt.N, dt.Avg, dt.Hist, dt.MaxDistance = uint64(n), []float32{1, 0}, []float32{1, 0}, 1
	var ps []*hkit.Peer
	sum := uint64(0)
	for i, k := 0, 1+rt.Choose("peers", 2); i < k; i++ {
		size := rt.Choose("size", 6-2*i)
		shape := rt.Choose("shape", 3)
		p := &hkit.Peer{ID: "p" + string([]byte{byte('0' + i)})}
		if shape > 0 {
			p.Info = func() *pb.DataInfo { return &pb.DataInfo{N: uint64(size), Avg: []float32{1, 8 * float32(shape-1)}, Hist: []float32{1, 0}} }
			if shape == 1 || size > n {
				sum++
			} else {
				sum += uint64(n-size)/2 + 1
			}
		}
		ps = append(ps, p)
		hkit.AddPeer(dt, p)
	}
	rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	rt.Quiesce()
	offered := map[float32]bool{}
	for _, p := range ps {
		for _, d := range p.Got {
			offered[d.Key.Feature[0]] = true
			rt.Reach("offered")
		}
		if p.Info == nil {
			rt.Assert(len(p.Got) == 0, "a peer without available statistics is offered nothing")
		}
	}
	rt.Assert(uint64(len(offered)) <= sum, "a pass offers no more entries than the quotas allow")
	gone := uint64(n - len(hkit.All(dt, n)))
	rt.Assert(gone <= sum, "a pass removes no more entries than the quotas allow")
	if gone > 0 {
		rt.Reach("removed")
	}
}

// A peer that needs nothing while another does.
//gosym: reach=offered budget=200
//bound: 3 entries of a dataset of (published) size 200, a peer with the same size and statistics, and one that is empty or has any size and differs; over the size target or not; any random choices
func Check_NoQuota() {
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: rt.Choose("notarget", 2) == 1})
	for i := 0; i < 3; i++ {
		rt.Assert(dt.InsertBDMap(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i), 0}}, Value: &pb.DatumValue{}}, nil) == nil, "insert is accepted")
	}
	dt.N, dt.Avg, dt.Hist, dt.MaxDistance = 200, []float32{1, 0}, []float32{1, 0}, 1
	same := &hkit.Peer{ID: "same", Info: func() *pb.DataInfo { return &pb.DataInfo{N: 200, Avg: []float32{1, 0}, Hist: []float32{1, 0}} }}
	size := []uint64{0, 150, 199, 1000}[rt.Choose("size", 4)]
	other := &hkit.Peer{ID: "other", Info: func() *pb.DataInfo { return &pb.DataInfo{N: size, Avg: []float32{9, 0}, Hist: []float32{0, 1}} }}
	hkit.AddPeer(dt, same)
	hkit.AddPeer(dt, other)
	rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	rt.Quiesce()
	rt.Assert(len(same.Got) == 0, "a peer without a quota is offered nothing")
	if len(other.Got) > 0 {
		rt.Reach("offered")
	}
}
