// Package c03: the store shows exactly the last write of every key.
package c03

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

type opRec struct {
	ins bool
	d   *pb.Datum
}

func verify(dt *data.Data, ops []opRec, got []*pb.Datum, what string) {
	// an operation is the last one of its key if no later one has the same key
	total := 0
	for i, o := range ops {
		last := true
		for _, p := range ops[i+1:] {
			last = rt.And(last, rt.Not(hkit.SameKey(o.d.Key, p.d.Key)))
		}
		n := 0
		ok := true
		for _, g := range got {
			same := hkit.SameKey(g.Key, o.d.Key)
			n += rt.IteI(same, 1, 0)
			ok = rt.And(ok, rt.Implies(same, hkit.SameValue(g.Value, o.d.Value)))
		}
		if o.ins {
			rt.Assert(rt.Implies(last, n == 1), what+" shows a key whose last operation was an insert exactly once")
			rt.Assert(rt.Implies(last, ok), what+" shows the value of the last insert")
			total += rt.IteI(last, 1, 0)
		} else {
			rt.Assert(rt.Implies(last, n == 0), what+" does not show a key whose last operation was a delete")
		}
	}
	rt.Assert(len(got) == total, what+" shows nothing else")
}

func run(n int, nf, ng int) {
	dt := hkit.Plain()
	var ops []opRec
	for i := 0; i < n; i++ {
		k := &pb.DatumKey{Feature: hkit.Features("f", nf), GroupLabel: rt.Bytes("g", ng), Dim1: rt.U32("dim1")}
		d := &pb.Datum{Key: k, Value: &pb.DatumValue{Label: rt.Bytes("label", 1), Version: rt.U64("version")}}
		o := opRec{ins: rt.Choose("op", 2) == 0, d: d}
		if o.ins {
			rt.Assert(dt.Insert(d, nil) == nil, "insert is accepted")
			// the store must not depend on the caller's buffers staying as they were
		} else {
			rt.Assert(dt.Delete(&pb.Datum{Key: hkit.CopyKey(k)}) == nil, "delete is accepted")
		}
		ops = append(ops, o)
	}
	all := hkit.All(dt, n+2)
	rt.Reach("end")
	verify(dt, ops, all, "enumeration")
	rt.Observe("entries", uint64(len(all)))
	for _, d := range all {
		rt.Observe("version", d.Value.Version)
	}
}

// Any sequence of inserts and deletes, enumerated.
//gosym: reach=end budget=200
//bound: 3 operations (thorough 4), keys of 1 feature, 1 group label byte and a dimension, labels of 1 byte, all values
func Check_Sequence() { run(rt.Bound(3, 4), 1, 1) }

// The same seen through exhaustive exact search.
//gosym: reach=end budget=200
//bound: 2 operations (thorough 3) and 1 more on keys of 1 feature (finite numbers), limit above the number of entries
func Check_SequenceSearched() {
	n := rt.Bound(3, 4)
	dt := hkit.Plain()
	var ops []opRec
	for i := 0; i < n; i++ {
		k := &pb.DatumKey{Feature: []float32{float32(rt.Choose("f", 2))}, GroupLabel: rt.Bytes("g", 1)}
		d := &pb.Datum{Key: k, Value: &pb.DatumValue{Label: rt.Bytes("label", 1), Version: rt.U64("version")}}
		o := opRec{ins: rt.Choose("op", 2) == 0, d: d}
		if o.ins {
			rt.Assert(dt.Insert(d, nil) == nil, "insert is accepted")
		} else {
			rt.Assert(dt.Delete(d) == nil, "delete is accepted")
		}
		ops = append(ops, o)
	}
	verify(dt, ops, hkit.SearchAll(dt, n+2), "exact search")
	rt.Reach("end")
}

// Values of any shape: a re-insert whose value differs in any way is the one shown.
//gosym: reach=end
//bound: two inserts of one key, labels of 0..3 bytes, versions free, and enumeration in between
func Check_ValueReplaced() {
	dt := hkit.Plain()
	k := &pb.DatumKey{Feature: hkit.Features("f", 2), GroupLabel: rt.Bytes("g", 2), Size1: rt.U32("s"), Dim1: rt.U32("d")}
	v1, v2 := hkit.Value("v1", rt.Choose("n1", 4)), hkit.Value("v2", rt.Choose("n2", 4))
	rt.Assert(dt.Insert(&pb.Datum{Key: hkit.CopyKey(k), Value: hkit.CopyValue(v1)}, nil) == nil, "insert is accepted")
	a := hkit.All(dt, 4)
	rt.Assert(len(a) == 1, "one entry after one insert")
	rt.Assert(hkit.SameValue(a[0].Value, v1), "the entry has the inserted value")
	rt.Assert(dt.Insert(&pb.Datum{Key: hkit.CopyKey(k), Value: hkit.CopyValue(v2)}, &pb.InsertConfig{}) == nil, "insert is accepted")
	a = hkit.All(dt, 4)
	rt.Assert(len(a) == 1, "one entry after re-inserting the same key")
	rt.Assert(hkit.SameValue(a[0].Value, v2), "the entry has the value inserted last")
	rt.Assert(hkit.SameKey(a[0].Key, k), "the entry has its key")
	rt.Reach("end")
	rt.Observe("version", a[0].Value.Version)
}

// Concurrent writers.
//gosym: preempt=2 reach=end budget=120
//gosym:thorough preempt=4 budget=600
//bound: two concurrent operations (insert or delete, same or different key, any versions) on a store that may already hold the first key: all schedules with up to 2 preemptions (thorough 4)
func Check_Concurrent() {
	dt := hkit.Plain()
	rt.SetClock(1000000000)
	mk := func(i int, v uint64) *pb.Datum {
		return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}}, Value: &pb.DatumValue{Version: v}}
	}
	pre := rt.Choose("before", 2) == 1
	v0, va, vb := rt.U64("v0"), rt.U64("va"), rt.U64("vb")
	if pre {
		rt.Assert(dt.Insert(mk(0, v0), nil) == nil, "insert is accepted")
	}
	other := rt.Choose("other", 2)
	insA, insB := rt.Choose("opA", 2) == 0, rt.Choose("opB", 2) == 0
	op := func(ins bool, d *pb.Datum) error {
		if ins {
			return dt.Insert(d, nil)
		}
		return dt.Delete(d)
	}
	done := make(chan error, 1)
	go func() { done <- op(insA, mk(0, va)) }()
	rt.Assert(op(insB, mk(other, vb)) == nil, "the operation is accepted")
	rt.Assert(<-done == nil, "the operation is accepted")
	var has [2]bool
	var ver [2]uint64
	for _, d := range hkit.All(dt, 4) {
		i := int(d.Key.Feature[0])
		rt.Assert(!has[i], "one entry per key")
		has[i], ver[i] = true, d.Value.Version
	}
	if other == 1 {
		rt.Assert(has[0] == insA && has[1] == insB, "each key shows its own last operation")
		rt.Assert(rt.Implies(has[0], ver[0] == va), "the entry carries the inserted value")
		rt.Assert(rt.Implies(has[1], ver[1] == vb), "the entry carries the inserted value")
	} else {
		rt.Assert(!has[1], "no other key appears")
		if insA && insB {
			rt.Assert(has[0], "the key is there after two inserts")
		}
		if !insA && !insB {
			rt.Assert(!has[0], "the key is gone after two deletes")
		}
		if has[0] {
			rt.Assert(rt.Or(rt.And(insA, ver[0] == va), rt.And(insB, ver[0] == vb)), "the entry carries one of the inserted values")
		}
	}
	rt.Reach("end")
}
