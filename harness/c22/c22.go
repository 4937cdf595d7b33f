// Package c22: score functions compute what their names promise.
package c22

import (
	"math"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
)

func vec(name string, n int) []float32 {
	f := make([]float32, n)
	for i := range f {
		f[i] = hkit.Whole32(name)
	}
	return f
}

// small components, -4..3
func small(name string, n int) []float32 {
	f := make([]float32, n)
	for i := range f {
		f[i] = float32(int8(rt.U8(name)<<5) >> 5)
	}
	return f
}

func minLen(a, b []float32) int {
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

func near(got, want, tol float64) bool {
	return rt.Or(got == want, rt.And(got <= want+tol, got >= want-tol))
}

// the exact sums, all whole numbers
func squares(a, b []float32) float64 {
	s := 0.0
	for i := 0; i < minLen(a, b); i++ {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return s
}
func absolutes(a, b []float32) float64 {
	s := 0.0
	for i := 0; i < minLen(a, b); i++ {
		s += math.Abs(float64(a[i]) - float64(b[i]))
	}
	return s
}
func dot(a, b []float32) float64 {
	s := 0.0
	for i := 0; i < minLen(a, b); i++ {
		s += float64(a[i]) * float64(b[i])
	}
	return s
}
func norm2(a []float32) float64 { return dot(a, a) }

var euclidean = []string{"VectorDistance", "AnnoyVectorDistance", "", "NoSuchFunction", "vectordistance", "Annoy", "VectorDistance "}

// Euclidean distance, and the names that select it (unknown names do).
//gosym: reach=end budget=200
//bound: vectors of 0..3 components (thorough 0..4), lengths independent, whole components in -128..127; 7 names
func Check_Euclidean() {
	a, b := vec("a", rt.Choose("la", rt.Bound(4, 5))), vec("b", rt.Choose("lb", rt.Bound(4, 5)))
	f := data.GetVectorComparisonFunction(euclidean[rt.Choose("name", len(euclidean))])
	got := f(a, b)
	want := math.Sqrt(squares(a, b))
	rt.Assert(near(got, want, 1e-3), "the Euclidean distance over the components both vectors have")
	rt.Assert(got >= 0, "a distance is not negative")
	rt.Assert(f(b, a) == got, "a distance is symmetric")
	rt.Assert(near(f(a, a), 0, 0), "equal vectors have distance 0")
	rt.Observe("d", uint64(got*16))
	rt.Reach("end")
}

// Sum of absolute differences.
//gosym: reach=end budget=200
//bound: vectors of 0..3 components (thorough 0..4), lengths independent, whole components in -128..127
func Check_Absolute() {
	a, b := vec("a", rt.Choose("la", rt.Bound(4, 5))), vec("b", rt.Choose("lb", rt.Bound(4, 5)))
	f := data.GetVectorComparisonFunction("QuickVectorDistance")
	got := f(a, b)
	rt.Assert(near(got, absolutes(a, b), 1e-3), "the sum of absolute differences over the components both vectors have")
	rt.Assert(got >= 0, "a distance is not negative")
	rt.Assert(f(b, a) == got, "a distance is symmetric")
	rt.Assert(f(a, a) == 0, "equal vectors have distance 0")
	rt.Observe("d", uint64(got))
	rt.Reach("end")
}

// Dot product.
//gosym: reach=end budget=200
//bound: vectors of 0..3 components (thorough 0..4), lengths independent, whole components in -128..127
func Check_Dot() {
	a, b := vec("a", rt.Choose("la", rt.Bound(4, 5))), vec("b", rt.Choose("lb", rt.Bound(4, 5)))
	f := data.GetVectorComparisonFunction("VectorMultiplication")
	got := f(a, b)
	rt.Assert(near(got, dot(a, b), 1e-3), "the dot product over the components both vectors have")
	rt.Assert(f(b, a) == got, "a dot product is symmetric")
	rt.Observe("d", uint64(int64(got)))
	rt.Reach("end")
}

var cosines = []string{"CosineSimilarity", "AnnoyCosineSimilarity"}
var angulars = []string{"AngularDistance", "AnnoyAngularDistance"}

// Cosine similarity: range, value, sign, zero vectors, symmetry.
//gosym: reach=zero,end budget=200 absfloat
//gosym:thorough budget=900
//bound: vectors of 0..2 components (thorough 0..3), lengths independent, whole components in -128..127; 2 names; the quotient of the dot product and the norms abstracted to its sign and to being unique up to rounding
func Check_Cosine() {
	a, b := vec("a", rt.Choose("la", rt.Bound(3, 4))), vec("b", rt.Choose("lb", rt.Bound(3, 4)))
	f := data.GetVectorComparisonFunction(cosines[rt.Choose("name", 2)])
	got := f(a, b)
	rt.Assert(rt.And(got >= -1, got <= 1), "the cosine lies in [-1,1]")
	n := norm2(a) * norm2(b)
	if n == 0 {
		rt.Reach("zero")
		rt.Assert(got == 0, "the cosine with a zero vector is 0")
		return
	}
	d := dot(a, b)
	rt.Assert(rt.And((got > 0) == (d > 0), (got < 0) == (d < 0)), "the cosine has the sign of the dot product")
	want := d / math.Sqrt(n)
	if want > 1 {
		want = 1
	}
	if want < -1 {
		want = -1
	}
	rt.Assert(near(got, want, 1e-3), "the cosine of the angle between the vectors")
	rt.Assert(f(b, a) == got, "the cosine is symmetric")
	rt.Reach("end")
}

// Cosine of parallel vectors: rounding must not carry it beyond 1, exact arithmetic.
//gosym: reach=end budget=300
//bound: vectors of 2 components in -4..3 with themselves and with their opposites
func Check_Parallel() {
	a := small("a", 2)
	rt.Assume(norm2(a) != 0)
	b := a
	sign := 1.0
	if rt.Choose("opposite", 2) == 1 {
		sign = -1
		b = make([]float32, len(a))
		for i := range a {
			b[i] = 0 - a[i]
		}
	}
	got := data.GetVectorComparisonFunction("CosineSimilarity")(a, b) * sign
	rt.Assert(got <= 1, "the cosine of parallel vectors does not exceed 1")
	ang := data.GetVectorComparisonFunction("AngularDistance")(a, b)
	rt.Assert(rt.And(ang >= 0, ang <= 1), "the angular similarity lies in [0,1]")
	rt.Reach("end")
}

// Angular similarity.
//gosym: reach=end budget=300 absfloat
//bound: vectors of 0..2 components, lengths independent, whole components in -128..127; 2 names; arc cosine abstracted to a decreasing function into [0,pi], exact at -1, 0, 1; quotient abstracted as for the cosine
func Check_Angular() {
	a, b := vec("a", rt.Choose("la", 3)), vec("b", rt.Choose("lb", 3))
	f := data.GetVectorComparisonFunction(angulars[rt.Choose("name", 2)])
	got := f(a, b)
	c := data.GetVectorComparisonFunction("CosineSimilarity")(a, b)
	rt.Assert(near(got, 1-math.Acos(c)/math.Pi, 1e-6), "the angular similarity is 1-acos(cosine)/pi")
	rt.Assert(rt.And(got >= 0, got <= 1), "the angular similarity lies in [0,1]")
	rt.Assert(f(b, a) == got, "the angular similarity is symmetric")
	rt.Reach("end")
}
