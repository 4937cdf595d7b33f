// Package c15: published statistics describe the live contents.
package c15

import (
	"math"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func insert(dt *data.Data, i int, f []float32, ttl uint64) {
	d := &pb.Datum{Key: &pb.DatumKey{Feature: append([]float32(nil), f...), Dim1: uint32(i)}, Value: &pb.DatumValue{Label: []byte("x")}}
	rt.Assert(dt.Insert(d, &pb.InsertConfig{TTL: ttl}) == nil, "insert is accepted")
}

func pass(dt *data.Data) *pb.DataInfo {
	rt.Assert(dt.Process(true) == nil, "the maintenance pass succeeds")
	return dt.GetDataInfo()
}

// settled: the statistics after several passes over unchanged contents. The count is already published when the passes
// start (Check_Count covers how it gets there).
func settled(n, dim int, bits uint) {
	dt := hkit.Plain()
	rt.SetClock(1000000000)
	var f [][]float32
	for i := 0; i < n; i++ {
		f = append(f, nil)
		for j := 0; j < dim; j++ {
			f[i] = append(f[i], float32(int8(rt.U8("f")<<(8-bits))>>(8-bits)))
		}
		insert(dt, i, f[i], 0)
	}
	dt.N = uint64(n)
	var info *pb.DataInfo
	for i := 0; i < 2; i++ {
		dt.MaxDistance = 0 // leaves the histogram out
		if dim > 1 && i > 0 {
			break
		}
		info = pass(dt)
		rt.Assert(info.N == uint64(n), "the published count is the number of live entries")
	}
	rt.Assert(len(info.Avg) == dim, "the published average has the dimension of the entries")
	avg := make([]float64, dim)
	for j := range avg {
		for i := range f {
			avg[j] += float64(f[i][j])
		}
		avg[j] /= float64(n)
		rt.Assert(float64(info.Avg[j]) == avg[j], "the published average is the mean of the stored vectors")
	}
	rt.Reach("average")
	if dim > 1 {
		return
	}
	dist := make([]float64, n)
	max := 0.0
	for i := range f {
		dist[i] = math.Abs(float64(f[i][0]) - avg[0])
		rt.Assert(info.MaxDistance >= dist[i], "no entry is farther from the average than the published maximum distance")
		max = rt.IteF(dist[i] > max, dist[i], max)
	}
	rt.Assert(info.MaxDistance == max, "the published maximum distance is that of an entry")
	rt.Reach("end")
}

// Vectors of one component. (All the arithmetic is exact for these, in any order and precision.)
//gosym: reach=average,end budget=300
//bound: 1, 2 or 4 entries of one whole-numbered component (-128..127), histogram left out
func Check_Line() { settled([]int{1, 2, 4}[rt.Choose("n", 3)], 1, 8) }

// Vectors of several components.
//gosym: reach=average budget=300
//bound: 1, 2 or 4 entries of two whole-numbered components (-128..127): count and average
func Check_Plane() { settled([]int{1, 2, 4}[rt.Choose("n", 3)], 2, 8) }

// The histogram over settled contents.
//gosym: reach=hist budget=300
//bound: 4 entries x, -x, y, -y of one whole-numbered component with |x| <= |y| (-32..31), any bucket; average and maximum distance already published
func Check_Histogram() {
	histogram(float32(int8(rt.U8("x")<<2)>>2), float32(int8(rt.U8("y")<<2)>>2))
}

// The histogram for given maximum distances.
//gosym: reach=hist budget=300
//bound: 4 entries x, -x, y, -y of one whole-numbered component with y = 3, 7 or -25 and |x| <= |y|, any bucket; average and maximum distance already published
func Check_HistogramScales() {
	y := []float32{3, 7, -25}[rt.Choose("scale", 3)]
	histogram(float32(int8(rt.U8("x")<<2)>>2), y)
}

func histogram(x, y float32) {
	dt := hkit.Plain()
	rt.SetClock(1000000000)
	ax, ay := math.Abs(float64(x)), math.Abs(float64(y))
	rt.Assume(ax <= ay)
	rt.Assume(ay > 0)
	for i, f := range []float32{x, 0 - x, y, 0 - y} {
		insert(dt, i, []float32{f}, 0)
	}
	dt.N = 4
	dt.Avg = []float32{0}
	dt.MaxDistance = ay
	info := pass(dt)
	rt.Assert(len(info.Avg) == 1 && info.Avg[0] == 0 && info.MaxDistance == ay, "statistics of unchanged contents stay as they are")
	rt.Assert(len(info.Hist) == 64, "the histogram has 64 buckets")
	b := rt.Int("bucket", 0, 63)
	fb := float64(b)
	k := 0
	for _, d := range []float64{ax, ax, ay, ay} {
		in := rt.And(d*64 >= fb*ay, rt.Or(b == 63, d*64 < (fb+1)*ay))
		k += rt.IteI(in, 1, 0)
	}
	h := float64(info.Hist[b]) * 4
	for i := 0; i <= 4; i++ {
		rt.Assert(rt.Implies(k == i, h == float64(i)), "each bucket holds 1/count for each of its entries")
	}
	rt.ObserveI("k", k)
	rt.Reach("hist")
}

// The published count follows inserts, deletes and expiry.
//gosym: reach=end budget=300
//bound: 3 inserts (thorough 4) with any lifetime up to 2^40 s or none, one of which may be deleted again, a pass before and a pass after any time step; also a second pass, due by time only
func Check_Count() {
	dt := hkit.Plain()
	const start = 1000000000
	rt.SetClock(start)
	n := rt.Bound(3, 4)
	ttl := make([]uint64, n)
	for i := range ttl {
		ttl[i] = rt.U64("ttl")
		rt.Assume(ttl[i] < 1<<40)
		insert(dt, i, []float32{float32(i)}, ttl[i])
	}
	info := pass(dt)
	rt.Assert(info.N == uint64(n), "the published count is the number of live entries")
	del := rt.Choose("delete", 2) == 1
	if del {
		rt.Assert(dt.Delete(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{0}, Dim1: 0}}) == nil, "delete is accepted")
	}
	step := rt.U64("step")
	rt.Assume(step < 1<<40)
	rt.SetClock(start + int64(step))
	forced := rt.Choose("forced", 2) == 1
	if !forced {
		rt.Assume(step >= 600)
	}
	rt.Assert(dt.Process(forced) == nil, "the maintenance pass succeeds")
	want := 0
	for i := range ttl {
		if i == 0 && del {
			continue
		}
		want += rt.IteI(rt.Or(ttl[i] == 0, ttl[i] > step), 1, 0)
	}
	got := dt.GetDataInfo().N
	rt.Assert(got == uint64(want), "the published count is the number of live entries")
	rt.Observe("n", got)
	rt.Reach("end")
}
