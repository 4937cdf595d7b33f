// Package c16: dataset configuration only moves to higher versions.
package c16

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func dataset() *data.Dataset {
	var dts *data.Dataset
	rt.NoPreempt(func() {
		rt.SetClock(1000000000)
		dts = data.NewDataset(rt.Scratch())
		rt.Quiesce()
	})
	return dts
}

type offer struct {
	cfg  *pb.DataConfig
	orig pb.DataConfig
}

func anyOffer() *offer {
	c := &pb.DataConfig{Name: "d", Version: rt.U64("version"), TargetN: rt.U64("target"), NoTarget: rt.Bool("notarget"), Retention: rt.U64("retention"),
		TargetUtilization: rt.F64("util"), ReplicationOnInsert: rt.U32("repl"), EnforceReplicationOnInsert: rt.Bool("enforce")}
	return &offer{cfg: c, orig: pb.DataConfig{Version: c.Version, TargetN: c.TargetN, NoTarget: c.NoTarget, Retention: c.Retention,
		TargetUtilization: c.TargetUtilization, ReplicationOnInsert: c.ReplicationOnInsert, EnforceReplicationOnInsert: c.EnforceReplicationOnInsert}}
}

// inForce: every option in force is the one of this offer.
func inForce(dt *data.Data, o *offer) bool {
	c, i := dt.GetConfig(), dt.GetDataInfo()
	w := &o.orig
	ok := rt.And(c.Version == w.Version, rt.And(c.TargetN == w.TargetN, c.NoTarget == w.NoTarget))
	ok = rt.And(ok, rt.And(c.Retention == w.Retention, rt.F64BitsEq(c.TargetUtilization, w.TargetUtilization)))
	ok = rt.And(ok, rt.And(c.ReplicationOnInsert == w.ReplicationOnInsert, c.EnforceReplicationOnInsert == w.EnforceReplicationOnInsert))
	ok = rt.And(ok, rt.And(i.Version == w.Version, rt.And(i.TargetN == w.TargetN, i.NoTarget == w.NoTarget)))
	return rt.And(ok, rt.And(rt.F64BitsEq(i.TargetUtilization, w.TargetUtilization), rt.And(c.Name == "d", i.Name == "d")))
}

// Any sequence of offers.
//gosym: reach=higher,notHigher budget=200
//bound: 4 offers (thorough 6) one after another with any versions and options
func Check_Sequence() {
	dts := dataset()
	cur := anyOffer()
	dt, err := dts.GetOrCreateIfNotExists(cur.cfg)
	rt.Assert(err == nil && inForce(dt, cur), "a new dataset has the offered configuration")
	for i := 0; i < rt.Bound(3, 5); i++ {
		o := anyOffer()
		if rt.Choose("how", 2) == 0 {
			rt.Assert(dts.CreateIfNotExists(o.cfg) == nil, "the offer is processed")
		} else {
			dt2, err := dts.GetOrCreateIfNotExists(o.cfg)
			rt.Assert(err == nil && dt2 == dt, "the offer is processed")
		}
		if o.orig.Version > cur.orig.Version {
			cur = o
			rt.Reach("higher")
		} else {
			rt.Reach("notHigher")
		}
		rt.Assert(inForce(dt, cur), "the configuration changes exactly when a higher version is offered, and then all of it")
	}
	l := dts.DataConfigList()
	rt.Assert(len(l) == 1 && l[0].Version == cur.orig.Version, "the announced configuration is the one in force")
	rt.Observe("version", dt.GetDataInfo().Version)
}

// Concurrent offers.
//gosym: preempt=2 race reach=end budget=250
//gosym:thorough preempt=3 budget=800
//bound: an existing dataset and two concurrent offers with any versions: all schedules with up to 2 preemptions (thorough 3)
func Check_Concurrent() { concurrent(true) }

// Concurrent offers of a dataset that does not exist yet.
//gosym: preempt=2 race reach=end budget=250
//gosym:thorough preempt=3 budget=800
//bound: two concurrent first offers with any versions: all schedules with up to 2 preemptions (thorough 3)
func Check_ConcurrentFirst() { concurrent(false) }


func concurrent(exists bool) {
	dts := dataset()
	mk := func() *offer {
		v := rt.U64("version")
		return &offer{cfg: &pb.DataConfig{Name: "d", Version: v, TargetN: v}, orig: pb.DataConfig{Version: v, TargetN: v}}
	}
	base, a, b := mk(), mk(), mk()
	if exists {
		rt.Assert(dts.CreateIfNotExists(base.cfg) == nil, "the dataset is created")
	}
	hkit.Settle()
	done := make(chan error, 1)
	go func() { done <- dts.CreateIfNotExists(a.cfg) }()
	rt.Assert(dts.CreateIfNotExists(b.cfg) == nil, "the offer is processed")
	rt.Assert(<-done == nil, "the offer is processed")
	rt.Preempt(0)
	dt, err := dts.GetNoCreate("d")
	rt.Assert(err == nil, "the dataset is there")
	v := dt.GetConfig().Version
	rt.Assert(rt.And(v >= a.orig.Version, v >= b.orig.Version), "the configuration in force is the highest version offered")
	if exists {
		rt.Assert(v >= base.orig.Version, "the configuration in force is the highest version offered")
		rt.Assert(rt.Or(inForce(dt, a), rt.Or(inForce(dt, b), inForce(dt, base))), "all options of one offer are in force together")
	} else {
		rt.Assert(rt.Or(inForce(dt, a), inForce(dt, b)), "all options of one offer are in force together")
	}
	rt.Reach("end")
}

// What is seen meanwhile never goes back.
//gosym: preempt=2 race reach=end budget=250
//gosym:thorough preempt=3 budget=800
//bound: two concurrent offers with any versions, a reader looking twice: all schedules with up to 2 preemptions (thorough 3)
func Check_NeverBack() {
	dts := dataset()
	v0, v1, v2 := rt.U64("v0"), rt.U64("v1"), rt.U64("v2")
	cfg := func(v uint64) *pb.DataConfig { return &pb.DataConfig{Name: "d", Version: v, TargetN: v} }
	dt, err := dts.GetOrCreateIfNotExists(cfg(v0))
	rt.Assert(err == nil, "the dataset is created")
	hkit.Settle()
	done := make(chan error, 2)
	go func() { done <- dts.CreateIfNotExists(cfg(v1)) }()
	go func() { done <- dts.CreateIfNotExists(cfg(v2)) }()
	r1 := dt.GetDataInfo().Version
	rt.Assert(<-done == nil, "the offer is processed")
	r2 := dt.GetDataInfo()
	rt.Assert(<-done == nil, "the offer is processed")
	r3 := dt.GetDataInfo().Version
	rt.Assert(rt.And(r1 <= r2.Version, r2.Version <= r3), "the version in force never goes back")
	rt.Assert(r2.TargetN == r2.Version, "all options of one offer are in force together")
	rt.Reach("end")
}

// An insert during a change of configuration follows one of the two, not a mix.
//gosym: preempt=2 race reach=accepted,refused budget=250
//gosym:thorough preempt=3 budget=800
//bound: any old and new target (on or off) and size, an insert concurrent with the offer: all schedules with up to 2 preemptions (thorough 3)
func Check_InsertMeanwhile() {
	dts := dataset()
	old := &pb.DataConfig{Name: "d", Version: 1, NoTarget: rt.Bool("notarget"), TargetN: rt.U64("target")}
	next := &pb.DataConfig{Name: "d", Version: 2, NoTarget: rt.Bool("notarget"), TargetN: rt.U64("target")}
	refuses := func(c *pb.DataConfig, n uint64) bool { return rt.And(rt.Not(c.NoTarget), n >= c.TargetN) }
	dt, err := dts.GetOrCreateIfNotExists(old)
	rt.Assert(err == nil, "the dataset is created")
	hkit.Settle()
	n := rt.U64("n")
	dt.N = n
	r1, r2 := refuses(old, n), refuses(next, n)
	done := make(chan error, 1)
	go func() { done <- dts.CreateIfNotExists(next) }()
	err = dt.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{}}, nil)
	if err != nil {
		rt.Assert(rt.Or(r1, r2), "an insert both configurations accept is accepted during the change")
		rt.Reach("refused")
	} else {
		rt.Assert(rt.Not(rt.And(r1, r2)), "an insert both configurations refuse is refused during the change")
		rt.Reach("accepted")
	}
	rt.Assert(<-done == nil, "the offer is processed")
}
