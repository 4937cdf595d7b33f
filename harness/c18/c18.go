// Package c18: one dataset per name and one maintenance loop per dataset.
package c18

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func datum(i int) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}}, Value: &pb.DatumValue{Version: uint64(i)}}
}

func has(dt *data.Data, i int) bool {
	for _, d := range hkit.All(dt, 8) {
		if d.Value.Version == uint64(i) {
			return true
		}
	}
	return false
}

func dataset() *data.Dataset {
	var dts *data.Dataset
	rt.NoPreempt(func() {
		rt.SetClock(1000000000)
		dts = data.NewDataset(rt.Scratch())
		rt.Quiesce()
	})
	return dts
}

// Two callers create and look up the same name at once.
//gosym: preempt=2 reach=both budget=250
//gosym:thorough preempt=3 budget=800
//bound: two concurrent callers, each creating with its own options, looking up with creation, or looking up without: all schedules with up to 2 preemptions (thorough 3); any target sizes
func Check_Create() {
	dts := dataset()
	ta, tb := rt.U64("targetA"), rt.U64("targetB")
	rt.Assume(rt.And(rt.And(ta > 10, tb > 10), rt.And(ta != tb, rt.And(ta != 1000, tb != 1000))))
	call := func(kind int, target uint64) (*data.Data, error) {
		switch kind {
		case 0:
			return dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", TargetN: target})
		case 1:
			return dts.Get("d")
		}
		return dts.GetNoCreate("d")
	}
	use := func(dt *data.Data, i int) {
		rt.Assert(dt.Insert(datum(i), nil) == nil, "an insert into the dataset just obtained is accepted")
	}
	ka, kb := rt.Choose("A", 3), rt.Choose("B", 3)
	var da *data.Data
	var ea error
	done := make(chan bool, 1)
	go func() {
		da, ea = call(ka, ta)
		if da != nil && ea == nil {
			use(da, 1)
		}
		done <- true
	}()
	db, eb := call(kb, tb)
	if db != nil && eb == nil {
		use(db, 2)
	}
	<-done
	rt.Assert(ka == 2 || ea == nil && da != nil, "creating or looking up with creation succeeds")
	rt.Assert(kb == 2 || eb == nil && db != nil, "creating or looking up with creation succeeds")
	final, err := dts.GetNoCreate("d")
	if ka == 2 && kb == 2 {
		rt.Assert(err != nil && ea != nil && eb != nil, "a lookup that must not create never creates")
		return
	}
	rt.Assert(err == nil && final != nil, "the dataset is there")
	if ea == nil {
		rt.Assert(da == final, "all callers get the same dataset")
		rt.Assert(has(final, 1), "data inserted through one caller is visible to all")
	}
	if eb == nil {
		rt.Assert(db == final, "all callers get the same dataset")
		rt.Assert(has(final, 2), "data inserted through one caller is visible to all")
	}
	cfg := final.GetConfig()
	ok := false
	for _, k := range []struct {
		kind   int
		target uint64
	}{{ka, ta}, {kb, tb}} {
		switch k.kind {
		case 0:
			ok = rt.Or(ok, cfg.TargetN == k.target)
		case 1:
			ok = rt.Or(ok, cfg.TargetN == 1000)
		}
	}
	rt.Assert(rt.And(ok, cfg.Name == "d"), "the configuration is that of a creation")
	rt.Assert(len(dts.List()) == 1, "the name is listed once")
	if ea == nil && eb == nil {
		rt.Reach("both")
	}
}

// The configuration of the first creation stays, and other names are not touched.
//gosym: reach=end
//bound: a sequence of 3 creations or lookups (versions equal, any other options) of 2 names
func Check_FirstWins() {
	dts := dataset()
	first := map[string]uint64{}
	obj := map[string]*data.Data{}
	for i := 0; i < 3; i++ {
		name := []string{"d", "e"}[rt.Choose("name", 2)]
		t := rt.U64("target")
		var dt *data.Data
		var err error
		switch rt.Choose("how", 3) {
		case 0:
			dt, err = dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, TargetN: t})
			if obj[name] == nil {
				first[name] = t
			}
		case 1:
			dt, err = dts.Get(name)
			if obj[name] == nil {
				first[name] = 1000
			}
		case 2:
			dt, err = dts.GetNoCreate(name)
			rt.Assert((err == nil) == (obj[name] != nil), "a lookup that must not create finds exactly what exists")
			if err != nil {
				continue
			}
		}
		rt.Assert(err == nil && dt != nil, "the dataset is there")
		rt.Assert(obj[name] == nil || obj[name] == dt, "a name always means the same dataset")
		obj[name] = dt
		rt.Assert(dt.GetConfig().Name == name && dt.GetID() == name, "a dataset has the name it was asked for")
		rt.Assert(dt.GetConfig().TargetN == first[name], "the first creation's configuration stays")
	}
	rt.Assert(len(dts.List()) == len(obj), "exactly the created names are listed")
	rt.Reach("end")
}

func calls(extra int, reload bool) (*data.Dataset, *data.Data, *int) {
	dts := dataset()
	dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
	rt.Assert(err == nil, "the dataset is created")
	n := 0
	hkit.AddPeer(dt, &hkit.Peer{ID: "p", Info: func() *pb.DataInfo { n++; return &pb.DataInfo{N: 1} }})
	for i := 0; i < extra; i++ {
		if reload {
			go dts.ReloadRuns()
		} else {
			go dt.Run()
		}
	}
	return dts, dt, &n
}

// However often the loop is started, one runs: seen by how often peers are asked.
//gosym: preempt=2 reach=end budget=250 nonative
//gosym:thorough preempt=3 budget=800
//bound: the loop of a new dataset and 1 or 2 more starts (directly or by the periodic reload) at once: all schedules with up to 2 preemptions (thorough 3); 65 s watched
func Check_OneLoop() {
	_, _, n := calls(1+rt.Choose("extra", 2), rt.Choose("reload", 2) == 1)
	rt.Preempt(0)
	rt.Quiesce()
	watch(n)
}

func watch(n *int) {
	rt.Preempt(0)
	*n = 0
	rt.Advance(65)
	one := *n
	rt.Assert(one >= 1, "a maintenance loop runs")
	// a loop passes every 10 seconds, two loops pass twice as often
	rt.Assert(one <= 7, "at most one maintenance loop runs")
	rt.Reach("end")
}

// A dataset found while another caller is still creating it can be used at once.
//gosym: preempt=2 reach=found budget=250
//gosym:thorough preempt=3 budget=800
//bound: one caller creates, another looks up without creating and searches, adds a source, lists or inserts: all schedules with up to 2 preemptions (thorough 3)
func Check_UseWhileCreated() {
	dts := dataset()
	done := make(chan error, 1)
	go func() {
		_, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
		done <- err
	}()
	op := rt.Choose("op", 4)
	dt, err := dts.GetNoCreate("d")
	if err == nil {
		switch op {
		case 0:
			r, err := dt.MultiAggregatedSearch([]*pb.Datum{datum(1)}, &pb.SearchConfig{DataName: "d", Limit: 3, Timeout: 1000}, nil)
			rt.Assert(err == nil && len(r) == 0, "searching an empty dataset finds nothing")
		case 1:
			rt.Assert(dt.AddSource(&hkit.Peer{ID: "p"}) == nil, "a source is accepted")
			rt.Assert(<-done == nil, "the creation succeeds")
			done <- nil
			rt.Assert(len(dt.Sources.Items()) == 1, "the source is kept")
		case 2:
			rt.Assert(dt.GetDataInfo() != nil, "information is available")
			rt.Assert(len(dts.DataConfigList()) == 1, "the dataset is listed")
		case 3:
			rt.Assert(dt.Insert(datum(1), nil) == nil, "insert is accepted")
			rt.Assert(<-done == nil, "the creation succeeds")
			done <- nil
			rt.Assert(has(dt, 1), "the entry is there")
		}
		rt.Reach("found")
	}
	rt.Assert(<-done == nil, "the creation succeeds")
}
