// Package c01: stored datum encoding round-trips exactly.
package c01

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/data/gencoder"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// lengths around the steps of the variable-length length prefix
var quickLens = []int{0, 1, 2, 5, 127, 128, 130}
var thoroughLens = []int{0, 1, 2, 3, 5, 126, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385}

func pick(name string) int {
	l := quickLens
	if rt.Thorough() {
		l = thoroughLens
	}
	return l[rt.Choose(name, len(l))]
}

func pickF(name string) int {
	l := []int{0, 1, 3, 127, 128}
	if rt.Thorough() {
		l = []int{0, 1, 2, 3, 4, 127, 128, 129, 256, 513}
	}
	return l[rt.Choose(name, len(l))]
}

// Key: encode then decode into a fresh key.
//gosym: bitblast reach=decoded budget=120
//bound: feature counts {0,1,3,127,128} (thorough up to 513), group label lengths {0,1,2,5,127,128,130} (thorough up to 16385); every bit pattern of every feature, label byte, size and dimension
func Check_KeyRoundTrip() {
	k := hkit.Key("k", pickF("nf"), pick("ng"))
	want := hkit.CopyKey(k)
	b, err := data.GetKeyAsBytes(&pb.Datum{Key: k})
	rt.Assert(err == nil, "encoding a key never fails")
	rt.Assert(uint64(len(b)) == gencoder.SizeKey(k), "encoded key has the computed size")
	got, err := data.ToDatumKey(b)
	rt.Assert(err == nil, "decoding an encoded key never fails")
	rt.Reach("decoded")
	rt.Assert(len(got.Feature) == len(want.Feature), "decoded key has the same number of features")
	rt.Assert(hkit.SameFeatures(got.Feature, want.Feature), "decoded features equal the encoded ones bit for bit")
	rt.Assert(len(got.GroupLabel) == len(want.GroupLabel), "decoded group label has the same length")
	rt.Assert(rt.BytesEq(got.GroupLabel, want.GroupLabel), "decoded group label equals the encoded one")
	rt.Assert(got.Size1 == want.Size1, "decoded Size1 equals the encoded one")
	rt.Assert(got.Size2 == want.Size2, "decoded Size2 equals the encoded one")
	rt.Assert(got.Dim1 == want.Dim1, "decoded Dim1 equals the encoded one")
	rt.Assert(got.Dim2 == want.Dim2, "decoded Dim2 equals the encoded one")
	rt.Assert(hkit.SameKey(k, want), "encoding leaves the key alone")
	rt.Observe("size", uint64(len(b)))
	for i := 0; i < len(b) && i < 12; i++ {
		rt.Observe("byte", uint64(b[i]))
	}
	rt.Observe("last", uint64(b[len(b)-1]))
	rt.Observe("dim1", uint64(got.Dim1))
}

// Key: decoding stops exactly at the end of the encoding, whatever follows and whatever the destination held before.
//gosym: bitblast reach=decoded budget=120
//bound: as above, 3 arbitrary trailing bytes, destination holding up to 4 features and 6 group label bytes of an earlier key
func Check_KeyDecodeInStream() {
	k := hkit.Key("k", pickF("nf"), pick("ng"))
	b, err := gencoder.MarshalKey(k)
	rt.Assert(err == nil, "encoding a key never fails")
	tail := rt.Bytes("tail", 3)
	var dst pb.DatumKey
	if rt.Choose("reused", 2) == 1 {
		dst = pb.DatumKey{Feature: hkit.Features("old.feature", 4), GroupLabel: rt.Bytes("old.group", 6), Size1: rt.U32("old.size"), Dim2: rt.U32("old.dim")}
	}
	n, err := gencoder.UnmarshalKey(&dst, append(append([]byte(nil), b...), tail...))
	rt.Assert(err == nil, "decoding an encoded key never fails")
	rt.Reach("decoded")
	rt.Assert(n == uint64(len(b)), "decoding a key consumes exactly the encoded length")
	rt.Assert(hkit.SameKey(&dst, k), "decoded key equals the encoded one")
	rt.Observe("n", n)
	rt.Observe("size1", uint64(dst.Size1))
}

// Value: encode then decode.
//gosym: bitblast reach=decoded budget=120
//bound: label lengths {0,1,2,5,127,128,130} (thorough up to 16385), all bytes and versions; 3 arbitrary trailing bytes; fresh or reused destination
func Check_ValueRoundTrip() {
	v := hkit.Value("v", pick("nl"))
	want := hkit.CopyValue(v)
	b, err := data.GetValueAsBytes(&pb.Datum{Value: v})
	rt.Assert(err == nil, "encoding a value never fails")
	rt.Assert(uint64(len(b)) == gencoder.SizeValue(v), "encoded value has the computed size")
	got, err := data.ToDatumValue(b)
	rt.Assert(err == nil, "decoding an encoded value never fails")
	rt.Reach("decoded")
	rt.Assert(len(got.Label) == len(want.Label), "decoded label has the same length")
	rt.Assert(rt.BytesEq(got.Label, want.Label), "decoded label equals the encoded one")
	rt.Assert(got.Version == want.Version, "decoded version equals the encoded one")
	var dst pb.DatumValue
	if rt.Choose("reused", 2) == 1 {
		dst = pb.DatumValue{Label: rt.Bytes("old.label", 7), Version: rt.U64("old.version")}
	}
	n, err := gencoder.UnmarshalValue(&dst, append(append([]byte(nil), b...), rt.Bytes("tail", 3)...))
	rt.Assert(err == nil, "decoding an encoded value never fails")
	rt.Assert(n == uint64(len(b)), "decoding a value consumes exactly the encoded length")
	rt.Assert(hkit.SameValue(&dst, want), "value decoded into a reused destination equals the encoded one")
	rt.Observe("n", n)
	rt.Observe("version", got.Version)
}

// Datum: both halves together.
//gosym: bitblast reach=decoded
//bound: 0..3 features, group label 0..3 bytes, label 0..3 bytes
func Check_DatumRoundTrip() {
	d := &pb.Datum{Key: hkit.Key("k", rt.Choose("nf", 4), rt.Choose("ng", 4)), Value: hkit.Value("v", rt.Choose("nl", 4))}
	kb, err := data.GetKeyAsBytes(d)
	rt.Assert(err == nil, "encoding a key never fails")
	vb, err := data.GetValueAsBytes(d)
	rt.Assert(err == nil, "encoding a value never fails")
	got, err := data.ToDatum(kb, vb)
	rt.Assert(err == nil, "decoding an encoded datum never fails")
	rt.Reach("decoded")
	rt.Assert(rt.And(hkit.SameKey(got.Key, d.Key), hkit.SameValue(got.Value, d.Value)), "decoded datum equals the encoded one")
	rt.Observe("version", got.Value.Version)
	rt.Observe("dim2", uint64(got.Key.Dim2))
}

// Score: encode then decode.
//gosym: bitblast reach=decoded
//bound: every bit pattern of the score; 3 arbitrary trailing bytes
func Check_ScoreRoundTrip() {
	s := rt.F64("score")
	d := &gencoder.DatumScore{Score: s}
	b, err := d.Marshal()
	rt.Assert(err == nil, "encoding a score never fails")
	rt.Assert(uint64(len(b)) == d.Size(), "encoded score has the computed size")
	var got gencoder.DatumScore
	n, err := got.Unmarshal(append(append([]byte(nil), b...), rt.Bytes("tail", 3)...))
	rt.Assert(err == nil, "decoding an encoded score never fails")
	rt.Reach("decoded")
	rt.Assert(n == uint64(len(b)), "decoding a score consumes exactly the encoded length")
	rt.Assert(rt.F64BitsEq(got.Score, s), "decoded score equals the encoded one bit for bit")
	rt.ObserveF("score", got.Score)
}
