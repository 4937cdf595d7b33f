// Package hkit has helpers shared by the harnesses.
package hkit

import (
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// Features of n arbitrary bit patterns.
func Features(name string, n int) []float32 {
	f := make([]float32, n)
	for i := range f {
		f[i] = rt.F32(name)
	}
	return f
}

// FiniteF32 is a number of moderate size: no NaN, infinity, and |x| <= lim.
func FiniteF32(name string, lim float32) float32 {
	f := rt.F32(name)
	rt.Assume(rt.And(f <= lim, f >= -lim))
	return f
}

// Score is a finite float64 score.
func Score(name string) float64 {
	f := rt.F64(name)
	rt.Assume(rt.And(f <= 1e300, f >= -1e300))
	return f
}

// SameFeatures compares bit patterns.
func SameFeatures(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = rt.And(ok, rt.F32BitsEq(a[i], b[i]))
	}
	return ok
}

// SameKey: every field of the key agrees.
func SameKey(a, b *pb.DatumKey) bool {
	if len(a.Feature) != len(b.Feature) || len(a.GroupLabel) != len(b.GroupLabel) {
		return false
	}
	ok := SameFeatures(a.Feature, b.Feature)
	ok = rt.And(ok, rt.BytesEq(a.GroupLabel, b.GroupLabel))
	ok = rt.And(ok, rt.And(a.Size1 == b.Size1, a.Size2 == b.Size2))
	return rt.And(ok, rt.And(a.Dim1 == b.Dim1, a.Dim2 == b.Dim2))
}

// SameValue: label and version agree.
func SameValue(a, b *pb.DatumValue) bool {
	if len(a.Label) != len(b.Label) {
		return false
	}
	return rt.And(rt.BytesEq(a.Label, b.Label), a.Version == b.Version)
}

// Key with nf arbitrary features and ng arbitrary group label bytes.
func Key(name string, nf, ng int) *pb.DatumKey {
	return &pb.DatumKey{
		Feature:    Features(name+".feature", nf),
		GroupLabel: rt.Bytes(name+".group", ng),
		Size1:      rt.U32(name + ".size1"),
		Size2:      rt.U32(name + ".size2"),
		Dim1:       rt.U32(name + ".dim1"),
		Dim2:       rt.U32(name + ".dim2"),
	}
}

// Value with nl arbitrary label bytes.
func Value(name string, nl int) *pb.DatumValue {
	return &pb.DatumValue{Label: rt.Bytes(name+".label", nl), Version: rt.U64(name + ".version")}
}

// CopyKey is an independent copy.
func CopyKey(k *pb.DatumKey) *pb.DatumKey {
	return &pb.DatumKey{Feature: append([]float32(nil), k.Feature...), GroupLabel: append([]byte(nil), k.GroupLabel...),
		Size1: k.Size1, Size2: k.Size2, Dim1: k.Dim1, Dim2: k.Dim2}
}

// CopyValue is an independent copy.
func CopyValue(v *pb.DatumValue) *pb.DatumValue {
	return &pb.DatumValue{Label: append([]byte(nil), v.Label...), Version: v.Version}
}

// Bystanders sets the options that do not bear on a local exact or index search to arbitrary values.
func Bystanders(c *pb.SearchConfig) *pb.SearchConfig {
	c.GroupLimit = rt.U32("other.grouplimit")
	c.ResultLimit = rt.U64("other.resultlimit")
	c.CacheDuration = rt.U64("other.cacheduration")
	c.Timeout = rt.U64("other.timeout")
	return c
}

// Whole is any whole number in -32768..32767, as a score.
func Whole(name string) float64 { return float64(int16(rt.U16(name))) }

// Whole32 is any whole number in -128..127, as a feature.
func Whole32(name string) float32 { return float32(int8(rt.U8(name))) }
