// Package c04: entries live exactly as long as their lifetime.
package c04

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func clockIn(name string, lo int64) int64 {
	t := rt.I64(name)
	rt.Assume(rt.And(t >= lo, t <= 5000000000))
	return t
}

func ttl(name string) uint64 {
	l := rt.U64(name)
	rt.Assume(l <= 1<<40)
	return l
}

func visible(dt *data.Data) (bool, []*pb.Datum) {
	var l []*pb.Datum
	if rt.Choose("how", 2) == 0 {
		l = hkit.All(dt, 4)
	} else {
		l = hkit.SearchAll(dt, 4)
	}
	return len(l) == 1, l
}

func datum(label byte) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{Label: []byte{label}, Version: 1}}
}

// One insert, one look at any later time.
//gosym: reach=live,gone,immortal
//bound: clock 1e9..5e9 s, lifetime 0..2^40 s, look at any later second by enumeration or exact search
func Check_Lifetime() {
	dt := hkit.Plain()
	t1 := clockIn("t1", 1000000000)
	l := ttl("ttl")
	rt.SetClock(t1)
	rt.Assert(dt.Insert(datum(1), &pb.InsertConfig{TTL: l}) == nil, "insert is accepted")
	t2 := clockIn("t2", t1)
	rt.SetClock(t2)
	seen, _ := visible(dt)
	if l == 0 {
		rt.Reach("immortal")
		rt.Assert(seen, "an entry without lifetime is always there")
	} else {
		if seen {
			rt.Reach("live")
		} else {
			rt.Reach("gone")
		}
		rt.Assert(rt.Implies(t2 < t1+int64(l), seen), "an entry is there at every time before its expiry")
		rt.Assert(rt.Implies(t2 >= t1+int64(l), rt.Not(seen)), "an entry is not there at or after its expiry")
	}
	rt.ObserveB("seen", seen)
}

// Without any insert options an entry never expires.
//gosym: reach=looked
//bound: clock 1e9..5e9 s
func Check_NoConfig() {
	dt := hkit.Plain()
	t1 := clockIn("t1", 1000000000)
	rt.SetClock(t1)
	rt.Assert(dt.Insert(datum(1), nil) == nil, "insert is accepted")
	rt.SetClock(clockIn("t2", t1))
	seen, _ := visible(dt)
	rt.Reach("looked")
	rt.Assert(seen, "an entry inserted without options is always there")
}

// Insert, look (which may purge), re-insert, look.
//gosym: reach=live,gone,slack budget=150
//bound: two inserts of one key at any times with any lifetimes, values equal or different, optional look in between, final look at any later time
func Check_Reinsert() {
	dt := hkit.Plain()
	t1 := clockIn("t1", 1000000000)
	l1, l2 := ttl("ttl1"), ttl("ttl2")
	rt.SetClock(t1)
	rt.Assert(dt.Insert(datum(1), &pb.InsertConfig{TTL: l1}) == nil, "insert is accepted")
	t2 := clockIn("t2", t1)
	rt.SetClock(t2)
	if rt.Choose("between", 2) == 1 {
		hkit.All(dt, 4)
	}
	v2 := byte(1 + rt.Choose("value", 2))
	rt.Assert(dt.Insert(datum(v2), &pb.InsertConfig{TTL: l2}) == nil, "insert is accepted")
	t3 := clockIn("t3", t2)
	rt.SetClock(t3)
	seen, l := visible(dt)
	e1, e2 := t1+int64(l1), t2+int64(l2)
	live1 := rt.Or(l1 == 0, t2 < e1) // the first entry was still live at the re-insert
	diff := e2 - e1
	near := rt.And(rt.And(l1 != 0, l2 != 0), rt.And(diff < 10, diff > -10))
	// the re-insert may leave the old expiry in place
	slack := rt.And(rt.And(v2 == 1, live1), near)
	due2 := rt.Or(l2 == 0, t3 < e2)
	due1 := t3 < e1
	if slack {
		rt.Reach("slack")
		rt.Assert(rt.Implies(rt.And(due1, due2), seen), "a re-inserted entry is there before both expiries")
		rt.Assert(rt.Implies(rt.And(rt.Not(due1), rt.Not(due2)), rt.Not(seen)), "a re-inserted entry is gone after both expiries")
	} else {
		rt.Assert(rt.Implies(due2, seen), "a re-inserted entry is there at every time before its new expiry")
		rt.Assert(rt.Implies(rt.Not(due2), rt.Not(seen)), "a re-inserted entry is gone at its new expiry")
	}
	if seen {
		rt.Reach("live")
		rt.Assert(l[0].Value.Label[0] == v2, "the entry has the value inserted last")
	} else {
		rt.Reach("gone")
	}
	rt.ObserveB("seen", seen)
}

// Two keys with different lifetimes do not affect each other.
//gosym: reach=end
//bound: two keys, any lifetimes and times
func Check_TwoKeys() {
	dt := hkit.Plain()
	t1 := clockIn("t1", 1000000000)
	la, lb := ttl("ttla"), ttl("ttlb")
	a, b := datum(1), datum(2)
	b.Key.Feature = []float32{2}
	rt.SetClock(t1)
	rt.Assert(dt.Insert(a, &pb.InsertConfig{TTL: la}) == nil, "insert is accepted")
	t2 := clockIn("t2", t1)
	rt.SetClock(t2)
	rt.Assert(dt.Insert(b, &pb.InsertConfig{TTL: lb}) == nil, "insert is accepted")
	t3 := clockIn("t3", t2)
	rt.SetClock(t3)
	var l []*pb.Datum
	if rt.Choose("how", 2) == 0 {
		l = hkit.All(dt, 4)
	} else {
		l = hkit.SearchAll(dt, 4)
	}
	wa := rt.Or(la == 0, t3 < t1+int64(la))
	wb := rt.Or(lb == 0, t3 < t2+int64(lb))
	ga, gb := 0, 0
	for _, d := range l {
		if d.Value.Label[0] == 1 {
			ga++
		} else {
			gb++
		}
	}
	rt.Reach("end")
	rt.Assert(ga == rt.IteI(wa, 1, 0), "each entry follows its own lifetime")
	rt.Assert(gb == rt.IteI(wb, 1, 0), "each entry follows its own lifetime")
	rt.ObserveI("a", ga)
	rt.ObserveI("b", gb)
}

// Re-inserting an expired entry while others look at the data.
//gosym: preempt=2 reach=end budget=120
//gosym:thorough preempt=4 budget=600
//bound: an expired entry, its key inserted again (any lifetime, same or another value) while an enumeration, a search or a maintenance pass runs: all schedules with up to 2 preemptions (thorough 4)
func Check_ReinsertWhilePurged() {
	dt := hkit.Plain()
	rt.SetClock(1000000000)
	rt.Assert(dt.Insert(datum(1), &pb.InsertConfig{TTL: 5}) == nil, "insert is accepted")
	rt.SetClock(1000000005)
	l := ttl("ttl")
	label := byte(1 + rt.Choose("label", 2))
	done := make(chan error, 1)
	how := rt.Choose("looker", 3)
	go func() { done <- dt.Insert(datum(label), &pb.InsertConfig{TTL: l}) }()
	switch how {
	case 0:
		hkit.All(dt, 4)
	case 1:
		hkit.SearchAll(dt, 4)
	case 2:
		rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	}
	rt.Assert(<-done == nil, "insert is accepted")
	got := hkit.All(dt, 4)
	rt.Assert(len(got) == 1 && got[0].Value.Label[0] == label, "a newly inserted entry is there before its expiry")
	rt.Reach("end")
}
