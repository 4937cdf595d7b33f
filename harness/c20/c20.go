// Package c20: a data stream delivers every live entry exactly once.
package c20

import (
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func run(n int) {
	rt.SetClock(1000000000)
	nd := hkit.NewNode()
	dt, err := nd.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
	rt.Assert(err == nil && dt != nil, "the dataset is created")
	for i := 0; i < n; i++ {
		d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}, Dim1: uint32(i)}, Value: &pb.DatumValue{Version: uint64(i)}}
		rt.Assert(dt.InsertBDMap(d, nil) == nil, "insert is accepted")
	}
	hkit.Settle()
	s := &hkit.DatumStream{}
	err = nd.DataStream(&pb.GetDataRequest{Name: "d"}, s)
	rt.Assert(err == nil, "streaming succeeds")
	got := len(s.Sent)
	seen := make([]bool, n)
	for _, d := range s.Sent {
		i := int(d.Key.Dim1)
		rt.Assert(i < n && d.Value.Version == uint64(i), "only stored entries are sent")
		rt.Assert(!seen[i], "no entry is sent twice")
		seen[i] = true
	}
	rt.Assert(got == n, "every live entry has been sent when the call returns")
	hkit.Settle()
	rt.Assert(len(s.Sent) == got, "nothing is sent after the call returned")
	rt.Assert(!s.Overlap, "the transport's send is never entered twice at once")
	rt.Reach("end")
}

// Small contents under many schedules.
//gosym: preempt=2 reach=end budget=200
//gosym:thorough preempt=3 budget=800
//bound: 0..3 entries, all schedules with up to 2 preemptions (thorough 3)
func Check_Stream() { run(rt.Choose("n", 4)) }

// More entries than fit into any reasonable buffer.
//gosym: reach=end budget=100 steps=20000000
//bound: 130 entries (thorough 1030), default schedule
func Check_StreamMany() { run(rt.Bound(130, 1030)) }

// Contents of any shape.
//gosym: reach=end budget=100
//bound: 4 entries with different keys: vectors of 0..2 components with or without labels and values
func Check_StreamShapes() {
	rt.SetClock(1000000000)
	nd := hkit.NewNode()
	dt, err := nd.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
	rt.Assert(err == nil && dt != nil, "the dataset is created")
	var all []*pb.Datum
	for i := 0; i < 4; i++ {
		d := &pb.Datum{Key: &pb.DatumKey{Feature: [][]float32{nil, {}, {0}, {1, 2}}[rt.Choose("feature", 4)], Dim1: uint32(i)}}
		switch rt.Choose("value", 3) {
		case 1:
			d.Value = &pb.DatumValue{}
		case 2:
			d.Key.GroupLabel = []byte(`{"a":1}`)
			d.Value = &pb.DatumValue{Version: uint64(i), Label: []byte{0, byte(i)}}
		}
		rt.Assert(dt.InsertBDMap(d, nil) == nil, "insert is accepted")
		all = append(all, d)
	}
	hkit.Settle()
	s := &hkit.DatumStream{}
	rt.Assert(nd.DataStream(&pb.GetDataRequest{Name: "d"}, s) == nil, "streaming succeeds")
	hkit.Settle()
	rt.Assert(len(s.Sent) == len(all), "every live entry has been sent once when the call returns")
	seen := make([]bool, len(all))
	for _, d := range s.Sent {
		i := d.Key.Dim1
		rt.Assert(!seen[i], "no entry is sent twice")
		seen[i] = true
		rt.Assert(hkit.SameKey(d.Key, all[i].Key), "an entry is sent as it is")
		rt.Assert(d.Value.GetVersion() == all[i].Value.GetVersion() && string(d.Value.GetLabel()) == string(all[i].Value.GetLabel()), "an entry is sent as it is")
	}
	rt.Reach("end")
}

// Entries that expired are not streamed, the others are.
//gosym: reach=end
//bound: 2 entries with any lifetime, streamed at any second up to 100 s later
func Check_StreamExpired() {
	rt.SetClock(1000000000)
	nd := hkit.NewNode()
	dt, err := nd.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
	rt.Assert(err == nil && dt != nil, "the dataset is created")
	var ttl [2]uint64
	for i := range ttl {
		ttl[i] = rt.U64("ttl")
		rt.Assume(ttl[i] < 1<<40)
		d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}, Dim1: uint32(i)}, Value: &pb.DatumValue{}}
		rt.Assert(dt.InsertBDMap(d, &pb.InsertConfig{TTL: ttl[i]}) == nil, "insert is accepted")
	}
	hkit.Settle()
	later := rt.U64("later")
	rt.Assume(later <= 100)
	rt.SetClock(1000000000 + int64(later))
	s := &hkit.DatumStream{}
	rt.Assert(nd.DataStream(&pb.GetDataRequest{Name: "d"}, s) == nil, "streaming succeeds")
	hkit.Settle()
	var seen [2]bool
	for _, d := range s.Sent {
		rt.Assert(!seen[d.Key.Dim1], "no entry is sent twice")
		seen[d.Key.Dim1] = true
	}
	for i := range ttl {
		live := rt.Or(ttl[i] == 0, ttl[i] > later)
		rt.Assert(rt.And(rt.Implies(live, seen[i]), rt.Implies(seen[i], live)), "exactly the live entries are streamed")
	}
	rt.Reach("end")
}
