// Package c30: housekeeping never drops data.
package c30

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

const start = 1000000000

func datum(i int) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}, Dim1: uint32(i)}, Value: &pb.DatumValue{Version: uint64(i)}}
}

func dataset() *data.Dataset {
	var dts *data.Dataset
	rt.NoPreempt(func() {
		rt.SetClock(start)
		dts = data.NewDataset(rt.Scratch())
		rt.Quiesce()
	})
	return dts
}

// holds checks that a dataset is there, is the given one and has exactly the first n entries.
func holds(dts *data.Dataset, name string, dt *data.Data, n int) {
	got, err := dts.GetNoCreate(name)
	rt.Assert(err == nil && got == dt, "a dataset that holds data is not dropped")
	seen := map[uint64]bool{}
	for _, d := range hkit.All(dt, n+2) {
		seen[d.Value.Version] = true
	}
	rt.Assert(len(seen) == n, "the entries of a dataset stay")
}

// A housekeeping round over datasets in all situations.
//gosym: reach=kept,dropped,elsewhere,uncounted budget=300
//bound: 2 datasets, each with 0..2 entries that never expire or expire at any time, inserted before or after the last maintenance pass, 0..1 peers that report any number of entries or cannot be reached; housekeeping at any second up to 100 s later; one round or two
func Check_Round() {
	dts := dataset()
	names := []string{"a", "b"}
	type set struct {
		dt      *data.Data
		ttl     []uint64
		counted bool
		peer    uint64
	}
	var sets [2]set
	rt.NoPreempt(func() {
		for i, name := range names {
			s := &sets[i]
			var err error
			s.dt, err = dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true})
			rt.Assert(err == nil, "the dataset is created")
			rt.Quiesce()
			k := rt.Choose("entries", 3)
			if i > 0 && k == 2 {
				rt.Assume(false)
			}
			for j := 0; j < k; j++ {
				t := uint64(0)
				if j == 0 {
					t = rt.U64("ttl")
					rt.Assume(t < 1<<40)
				}
				s.ttl = append(s.ttl, t)
				rt.Assert(s.dt.Insert(datum(j), &pb.InsertConfig{TTL: t}) == nil, "insert is accepted")
			}
			if s.counted = rt.Choose("counted", 2) == 1; s.counted {
				rt.Assert(s.dt.Process(true) == nil, "the maintenance pass succeeds")
			}
			switch rt.Choose("peer", 3) {
			case 1:
				s.peer = rt.U64("peer")
				p := s.peer
				hkit.AddPeer(s.dt, &hkit.Peer{ID: "p", Info: func() *pb.DataInfo { return &pb.DataInfo{N: p} }})
			case 2:
				hkit.AddPeer(s.dt, &hkit.Peer{ID: "p", Info: func() *pb.DataInfo { return nil }})
			}
		}
		later := rt.U64("later")
		rt.Assume(later <= 100)
		rt.SetClock(start + int64(later))
		for i, k := 0, 1+rt.Choose("again", 2); i < k; i++ {
			rt.Assert(dts.ReloadRuns() == nil, "housekeeping succeeds")
			rt.Quiesce()
		}
		kept := 0
		for i, name := range names {
			s := &sets[i]
			live := 0
			for _, t := range s.ttl {
				if t == 0 || t > later {
					live++
				}
			}
			switch {
			case live > 0:
				holds(dts, name, s.dt, live)
				rt.Reach("kept")
				if !s.counted {
					rt.Reach("uncounted")
				}
				kept++
			case s.peer > 0:
				holds(dts, name, s.dt, 0)
				rt.Reach("elsewhere")
				kept++
			default:
				_, err := dts.GetNoCreate(name)
				if len(s.ttl) == 0 {
					rt.Assert(err != nil, "a dataset that is empty here and at all peers is dropped")
					rt.Reach("dropped")
				}
				if err == nil {
					kept++
				}
			}
		}
		rt.Assert(len(dts.List()) == kept, "no other datasets are there")
		rt.Quiesce()
	})
}

// An empty dataset with several peers.
//gosym: reach=kept,dropped maporder budget=100
//bound: a dataset without entries and 2 (thorough 3) peers, asked in any order, each reports any number of entries or cannot be reached
func Check_Peers() {
	dts := dataset()
	rt.NoPreempt(func() {
		dt, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true})
		rt.Assert(err == nil, "the dataset is created")
		rt.Quiesce()
		elsewhere := false
		for i, k := 0, rt.Bound(2, 3); i < k; i++ {
			var info *pb.DataInfo
			if rt.Choose("available", 2) == 1 {
				info = &pb.DataInfo{N: rt.U64("peer")}
				elsewhere = rt.Or(elsewhere, info.N > 0)
			}
			hkit.AddPeer(dt, &hkit.Peer{ID: "p" + string([]byte{byte('0' + i)}), Info: func() *pb.DataInfo { return info }})
		}
		rt.Assert(dts.ReloadRuns() == nil, "housekeeping succeeds")
		rt.Quiesce()
		if elsewhere {
			holds(dts, "a", dt, 0)
			rt.Reach("kept")
		} else {
			_, err := dts.GetNoCreate("a")
			rt.Assert(err != nil, "a dataset that is empty here and at all peers is dropped")
			rt.Reach("dropped")
		}
	})
}

// A dataset kept by housekeeping goes on working.
//gosym: reach=end budget=100 nonative
//bound: one dataset with 1 entry, counted or not, and an empty one; housekeeping every 60 s, 3 times; then an insert, and 130 s of time
func Check_GoesOn() {
	dts := dataset()
	var dt *data.Data
	rt.NoPreempt(func() {
		var err error
		dt, err = dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "a", NoTarget: true})
		rt.Assert(err == nil, "the dataset is created")
		if rt.Choose("empty", 2) == 1 {
			_, err = dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: "b", NoTarget: true})
			rt.Assert(err == nil, "the dataset is created")
		}
		rt.Quiesce()
		rt.Assert(dt.Insert(datum(0), nil) == nil, "insert is accepted")
		if rt.Choose("counted", 2) == 1 {
			rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
		}
	})
	for i := 0; i < 3; i++ {
		rt.Assert(dts.ReloadRuns() == nil, "housekeeping succeeds")
		rt.Advance(60)
		holds(dts, "a", dt, 1)
	}
	rt.Assert(dt.Insert(datum(1), nil) == nil, "insert is accepted")
	rt.Advance(130)
	holds(dts, "a", dt, 2)
	rt.Assert(dt.GetDataInfo().N == 2, "maintenance goes on after housekeeping")
	rt.Reach("end")
}

// A dataset stays for its retention.
//gosym: reach=end budget=100
//bound: retention of 61 s, 1 h, 100000 s, 5 million s, 136 years or the default of 14 days; a lookup, creation request or housekeeping round at any time, and a look at it at any time before it is over
func Check_Retention() {
	dts := dataset()
	rt.NoPreempt(func() {
		ret := []uint64{0, 61, 3600, 100000, 5000000, 4295000000}[rt.Choose("retention", 6)]
		span := ret
		if ret == 0 {
			span = 14 * 24 * 3600
		}
		cfg := &pb.DataConfig{Name: "a", NoTarget: true, Retention: ret}
		dt, err := dts.GetOrCreateIfNotExists(cfg)
		rt.Assert(err == nil, "the dataset is created")
		rt.Assert(dt.Insert(datum(0), nil) == nil, "insert is accepted")
		rt.Quiesce()
		t1, t2 := rt.U64("use"), rt.U64("look")
		rt.Assume(rt.And(t1 <= t2, t2 < span))
		rt.SetClock(start + int64(t1))
		switch rt.Choose("how", 3) {
		case 0:
			got, err := dts.Get("a")
			rt.Assert(err == nil && got == dt, "a dataset within its retention is there")
		case 1:
			got, err := dts.GetOrCreateIfNotExists(cfg)
			rt.Assert(err == nil && got == dt, "a dataset within its retention is there")
		case 2:
			rt.Assert(dts.ReloadRuns() == nil, "housekeeping succeeds")
		}
		rt.Quiesce()
		rt.SetClock(start + int64(t2))
		holds(dts, "a", dt, 1)
	})
	rt.Reach("end")
}
