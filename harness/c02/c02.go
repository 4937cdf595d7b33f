// Package c02: a datum's identity is exactly its key.
package c02

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// Two inserts are one stored entry exactly when the keys agree in every field.
//gosym: reach=same,different budget=150
//bound: two datums; feature counts 0..2 (thorough 0..3), group label lengths 0..2 (thorough 0..4), every bit pattern of features, group labels, sizes and dimensions
func Check_StoreIdentity() {
	nf, ng := rt.Bound(3, 4), rt.Bound(3, 5)
	a := &pb.Datum{Key: hkit.Key("a", rt.Choose("nfa", nf), rt.Choose("nga", ng)), Value: &pb.DatumValue{Label: []byte("a")}}
	b := &pb.Datum{Key: hkit.Key("b", rt.Choose("nfb", nf), rt.Choose("ngb", ng)), Value: &pb.DatumValue{Label: []byte("b")}}
	dt := hkit.Plain()
	rt.Assert(dt.Insert(a, nil) == nil, "insert is accepted")
	rt.Assert(dt.Insert(b, nil) == nil, "insert is accepted")
	all := hkit.All(dt, 8)
	same := hkit.SameKey(a.Key, b.Key)
	if len(all) == 1 {
		rt.Reach("same")
	} else {
		rt.Reach("different")
	}
	rt.Assert(rt.Or(len(all) == 1, len(all) == 2), "two inserts make one or two entries")
	rt.Assert(rt.Implies(len(all) == 1, same), "keys that differ in some field are different entries")
	rt.Assert(rt.Implies(same, len(all) == 1), "keys that agree in every field are one entry")
	rt.Observe("entries", uint64(len(all)))
}

// The same with one field at a time free and the others equal: each field takes part in the identity.
//gosym: reach=same,different
//bound: keys of 2 features and 2 group label bytes that agree except for one chosen field
func Check_EveryFieldCounts() {
	a := &pb.Datum{Key: hkit.Key("a", 2, 2), Value: &pb.DatumValue{Label: []byte("a")}}
	b := &pb.Datum{Key: hkit.CopyKey(a.Key), Value: &pb.DatumValue{Label: []byte("b")}}
	switch rt.Choose("field", 7) {
	case 0:
		b.Key.Feature[0] = rt.F32("x")
	case 1:
		b.Key.Feature[1] = rt.F32("x")
	case 2:
		b.Key.GroupLabel = rt.Bytes("x", rt.Choose("n", 4))
	case 3:
		b.Key.Size1 = rt.U32("x")
	case 4:
		b.Key.Size2 = rt.U32("x")
	case 5:
		b.Key.Dim1 = rt.U32("x")
	case 6:
		b.Key.Dim2 = rt.U32("x")
	}
	dt := hkit.Plain()
	rt.Assert(dt.Insert(a, nil) == nil, "insert is accepted")
	rt.Assert(dt.Insert(b, nil) == nil, "insert is accepted")
	n := len(hkit.All(dt, 8))
	if n == 1 {
		rt.Reach("same")
	} else {
		rt.Reach("different")
	}
	same := hkit.SameKey(a.Key, b.Key)
	rt.Assert(rt.Implies(n == 1, same), "keys that differ in some field are different entries")
	rt.Assert(rt.Implies(same, n == 1), "keys that agree in every field are one entry")
	rt.Observe("entries", uint64(n))
}

// Search results are merged exactly when the keys agree in every field.
//gosym: reach=same,different
//bound: two results; feature counts 0..2, group label lengths 0..2, limit 5, both score directions, equal scores
func Check_MergeIdentity() {
	a := &pb.Datum{Key: hkit.Key("a", rt.Choose("nfa", 3), rt.Choose("nga", 3)), Value: &pb.DatumValue{Label: []byte("a")}}
	b := &pb.Datum{Key: hkit.Key("b", rt.Choose("nfb", 3), rt.Choose("ngb", 3)), Value: &pb.DatumValue{Label: []byte("b")}}
	cfg := &pb.SearchConfig{Limit: 5, HigherIsBetter: rt.Choose("higher", 2) == 1}
	agg := data.NewAggrator(cfg, false, nil)
	rt.Assert(agg.Insert(&pb.ScoredDatum{Score: 1, Datum: a}) == nil, "merging does not fail")
	rt.Assert(agg.Insert(&pb.ScoredDatum{Score: 1, Datum: b}) == nil, "merging does not fail")
	n := len(agg.Result())
	if n == 1 {
		rt.Reach("same")
	} else {
		rt.Reach("different")
	}
	same := hkit.SameKey(a.Key, b.Key)
	rt.Assert(rt.Implies(n == 1, same), "results whose keys differ in some field stay separate")
	rt.Assert(rt.Implies(same, n == 1), "results whose keys agree in every field are one result")
	rt.Observe("results", uint64(n))
}

// A datum built from its parts has every part in its own field.
//gosym: reach=built
//bound: 2 features, 3 group label bytes, 2 label bytes, all values
func Check_NewDatum() {
	f, g, l := hkit.Features("f", 2), rt.Bytes("g", 3), rt.Bytes("l", 2)
	d1, d2, s1, s2, v := rt.U32("dim1"), rt.U32("dim2"), rt.U32("size1"), rt.U32("size2"), rt.U64("version")
	d := data.NewDatum(f, d1, d2, s1, s2, g, l, v)
	rt.Reach("built")
	rt.Assert(hkit.SameFeatures(d.Key.Feature, f), "NewDatum keeps the features")
	rt.Assert(rt.And(d.Key.Dim1 == d1, d.Key.Dim2 == d2), "NewDatum keeps the dimensions")
	rt.Assert(rt.And(d.Key.Size1 == s1, d.Key.Size2 == s2), "NewDatum keeps the sizes")
	rt.Assert(rt.BytesEq(d.Key.GroupLabel, g), "NewDatum keeps the group label")
	rt.Assert(rt.BytesEq(d.Value.Label, l), "NewDatum keeps the label")
	rt.Assert(d.Value.Version == v, "NewDatum keeps the version")
	rt.Observe("size2", uint64(d.Key.Size2))
}

// An entry keeps its identity: storing other entries in between does not stop a re-insert from replacing it.
//gosym: reach=end budget=120
//bound: three datums and a re-insert of the first; 1 feature, 1 group label byte, sizes free
func Check_IdentityStable() {
	mk := func(n string) *pb.Datum {
		return &pb.Datum{Key: &pb.DatumKey{Feature: hkit.Features(n, 1), GroupLabel: rt.Bytes(n+".g", 1), Size1: rt.U32(n + ".s")}, Value: &pb.DatumValue{Label: []byte(n)}}
	}
	a, b, c := mk("a"), mk("b"), mk("c")
	dt := hkit.Plain()
	for _, d := range []*pb.Datum{a, b, c} {
		rt.Assert(dt.Insert(d, nil) == nil, "insert is accepted")
	}
	again := &pb.Datum{Key: hkit.CopyKey(a.Key), Value: &pb.DatumValue{Label: []byte("again")}}
	rt.Assert(dt.Insert(again, nil) == nil, "insert is accepted")
	all := hkit.All(dt, 8)
	ab, ac, bc := hkit.SameKey(a.Key, b.Key), hkit.SameKey(a.Key, c.Key), hkit.SameKey(b.Key, c.Key)
	want := 1 + hkit.Count(rt.Not(ab)) + hkit.Count(rt.And(rt.Not(ac), rt.Not(bc)))
	rt.Reach("end")
	rt.Assert(len(all) == want, "as many entries as different keys")
	n := 0
	for _, d := range all {
		n += hkit.Count(hkit.SameKey(d.Key, a.Key))
		rt.Assert(rt.Implies(hkit.SameKey(d.Key, a.Key), rt.BytesEq(d.Value.Label, again.Value.Label)), "the re-inserted entry has the new value")
	}
	rt.Assert(n == 1, "the re-inserted entry is there once")
	rt.Observe("entries", uint64(len(all)))
}
