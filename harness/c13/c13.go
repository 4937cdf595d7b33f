// Package c13: size targets are enforced exactly.
package c13

import (
	"context"

	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// Any counted size against any target.
//gosym: reach=refused,accepted
//bound: any 64-bit size and target, target on or off, replication on or off with one peer, with or without options, empty or non-empty dataset, new or existing key
func Check_Target() {
	noTarget := rt.Choose("notarget", 2) == 1
	enforce := rt.Choose("enforce", 2) == 1
	target := rt.U64("target")
	n := rt.U64("n")
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: true, TargetN: target, EnforceReplicationOnInsert: false, ReplicationOnInsert: 2})
	p := &hkit.Peer{ID: "p"}
	hkit.AddPeer(dt, p)
	pre := rt.Choose("pre", 2)
	if pre == 1 {
		rt.Assert(dt.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{Version: 1}}, nil) == nil, "insert is accepted")
	}
	dt.Config = &pb.DataConfig{Name: "d", NoTarget: noTarget, TargetN: target, EnforceReplicationOnInsert: enforce, ReplicationOnInsert: 2}
	dt.N = n
	d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(1 + rt.Choose("key", 2))}}, Value: &pb.DatumValue{Version: 2}}
	same := pre == 1 && d.Key.Feature[0] == 1
	var cfg *pb.InsertConfig
	if rt.Choose("config", 2) == 1 {
		cfg = &pb.InsertConfig{TTL: 0, Count: uint64(rt.Choose("count", 2))}
	}
	err := dt.Insert(d, cfg)
	all := hkit.All(dt, 4)
	v2 := 0
	for _, e := range all {
		if e.Value.Version == 2 {
			v2++
		}
	}
	over := rt.And(!noTarget, n >= target)
	if over {
		rt.Reach("refused")
		rt.Assert(err != nil, "an insert at or above the target is refused")
		rt.Assert(v2 == 0 && len(all) == pre, "a refused insert stores nothing")
		rt.Assert(len(p.Got) == 0, "a refused insert forwards nothing")
	} else {
		rt.Reach("accepted")
		rt.Assert(err == nil, "below the target, or without one, an insert is not refused")
		rt.Assert(v2 == 1, "an accepted insert is stored")
		want := pre + 1
		if same {
			want = pre
		}
		rt.Assert(len(all) == want, "an accepted insert is stored once")
	}
	rt.ObserveB("ok", err == nil)
}

// The same over the service: a refusal reaches the client as an error.
//gosym: reach=refused,accepted
//bound: any 64-bit size and target, target on or off, forward count 0 or 1
func Check_Service() {
	noTarget := rt.Choose("notarget", 2) == 1
	target, size := rt.U64("target"), rt.U64("n")
	n := hkit.NewNode()
	dt, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: noTarget, TargetN: target})
	rt.Assert(err == nil, "the dataset is created")
	hkit.Settle()
	dt.N = size
	resp, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: "d", Datum: &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{}},
		Config: &pb.InsertConfig{Count: uint64(rt.Choose("count", 2))}})
	stored := len(hkit.All(dt, 2))
	if rt.And(!noTarget, size >= target) {
		rt.Reach("refused")
		rt.Assert(err != nil && resp == nil && stored == 0, "an insert at or above the target is refused and stores nothing")
	} else {
		rt.Reach("accepted")
		rt.Assert(err == nil && resp != nil && resp.Code == 0 && stored == 1, "below the target, or without one, an insert is not refused")
	}
}

// Sizes counted by real maintenance passes.
//gosym: reach=refused,accepted budget=120
//bound: up to 3 inserts (thorough 4), each followed by a maintenance pass or not, targets 0..3, target on or off
func Check_Counted() {
	rt.SetClock(1000000000)
	noTarget := rt.Choose("notarget", 2) == 1
	target := rt.U64("target")
	rt.Assume(target <= 3)
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: noTarget, TargetN: target, TargetUtilization: 0.5})
	stored, counted := uint64(0), uint64(0)
	for i := 0; i < rt.Bound(3, 4); i++ {
		err := dt.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}}, Value: &pb.DatumValue{}}, nil)
		refuse := rt.And(!noTarget, counted >= target)
		rt.Assert((err != nil) == refuse, "an insert is refused exactly when the counted size has reached the target")
		if err == nil {
			rt.Reach("accepted")
			stored++
		} else {
			rt.Reach("refused")
		}
		if rt.Choose("pass", 2) == 1 {
			rt.Assert(dt.Process(true) == nil, "a maintenance pass does not fail")
			counted = stored
			rt.Assert(dt.GetDataInfo().N == counted, "the counted size is the number of entries")
		}
	}
	rt.Assert(uint64(len(hkit.All(dt, 8))) == stored, "exactly the accepted inserts are stored")
	rt.Observe("stored", stored)
}
