// Package c08: grouped search returns each group once, by its best member.
package c08

import (
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func datum(g, j int) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}, GroupLabel: []byte{byte('a' + g)}, Dim1: uint32(j)}, Value: &pb.DatumValue{Label: []byte{byte('A' + j)}}}
}

// member scores of one group
type group struct {
	have []bool
	best []float64
}

func (g *group) count() int {
	n := 0
	for _, h := range g.have {
		if h {
			n++
		}
	}
	return n
}

// scores of the members offered
func (g *group) list() (r []float64) {
	for j, h := range g.have {
		if h {
			r = append(r, g.best[j])
		}
	}
	return
}

func pick(higher bool, a, b float64) (better, worse float64) {
	c := hkit.Better(higher, b, a)
	return rt.IteF(c, b, a), rt.IteF(c, a, b)
}

// bestK: the k best of the scores, best first, by symbolic selection
func bestK(higher bool, l []float64, k int) []float64 {
	l = append([]float64{}, l...)
	for i := 0; i < len(l) && i < k; i++ {
		for j := i + 1; j < len(l); j++ {
			l[i], l[j] = pick(higher, l[i], l[j])
		}
	}
	if len(l) > k {
		l = l[:k]
	}
	return l
}

func groupScore(higher bool, top []float64) float64 {
	sum := top[0]
	for _, s := range top[1:] {
		sum += s
	}
	if !higher {
		n := float64(len(top))
		sum = sum / n / n
	}
	return sum
}

func grouped(m, k, members, groupLimit, limit, resultLimit int, higher bool, score func() float64) {
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: higher, Limit: uint32(limit), GroupLimit: uint32(groupLimit), ResultLimit: uint64(resultLimit)}
	agg := data.NewAggrator(cfg, true, nil)
	gs := make([]*group, k)
	for i := range gs {
		gs[i] = &group{make([]bool, members), make([]float64, members)}
	}
	for i := 0; i < m; i++ {
		g, j := rt.Choose("group", k), rt.Choose("member", members)
		s := score()
		rt.Assert(agg.Insert(&pb.ScoredDatum{Score: s, Datum: datum(g, j)}) == nil, "an offer is accepted")
		if gs[g].have[j] {
			gs[g].best[j], _ = pick(higher, gs[g].best[j], s)
		} else {
			gs[g].best[j] = s
		}
		gs[g].have[j] = true
	}
	want := make([]float64, k)
	have := make([]bool, k)
	for i, g := range gs {
		if g.count() > 0 {
			have[i] = true
			// a mean of three is rounded: how depends on the order of operations
			rt.Assume(higher || g.count() != 3 || groupLimit < 3)
			want[i] = groupScore(higher, bestK(higher, g.list(), groupLimit))
		}
		if g.count() > groupLimit {
			rt.Reach("over")
		}
	}
	if resultLimit > 0 && resultLimit < limit {
		limit = resultLimit
	}
	var ids []int
	var got []float64
	for _, s := range agg.Result() {
		g := int(s.Datum.Key.GroupLabel[0] - 'a')
		rt.Assert(g >= 0 && g < k && have[g], "every result stands for one of the groups")
		ids = append(ids, g)
		got = append(got, s.Score)
		j := int(s.Datum.Key.Dim1)
		rt.Assert(gs[g].have[j], "the representative is one of the group's datums")
		for _, o := range gs[g].list() {
			rt.Assert(rt.Not(hkit.Better(higher, o, gs[g].best[j])), "the representative is the group's best datum")
		}
	}
	hkit.TopK("grouped answer", higher, limit, ids, got, want, have)
	rt.Reach("end")
	for _, g := range got {
		rt.ObserveF("score", g)
	}
}

func free() float64 { return hkit.Whole("score") }

// Two groups, room for all.
//gosym: reach=end budget=240 maporder
//bound: 3 offers over 2 groups with 2 datums each (thorough 4 offers), group limit 1 or 2, limit 1..2, both directions, scores any whole numbers of 16 bits (sums exact)
func Check_Groups() {
	grouped(rt.Bound(3, 4), 2, 2, 1+rt.Choose("grouplimit", 2), 1+rt.Choose("limit", 2), 0, rt.Choose("higher", 2) == 1, free)
}

// More members than the group limit: only the best count.
//gosym: reach=end,over budget=240
//bound: 4 offers to 1 group with up to 3 datums (thorough 4), group limit 1, 2 or 4, both directions (lower is better: groups counting 1, 2 or 4 members, where the mean is exact), scores any whole numbers of 16 bits
func Check_GroupLimit() {
	gl := []int{1, 2, 4}[rt.Choose("grouplimit", 3)]
	grouped(4, 1, rt.Bound(3, 4), gl, 2, 0, rt.Choose("higher", 2) == 1, free)
}

// Groups are told apart by every byte of their label.
//gosym: reach=end
//bound: two groups with labels of up to 2 arbitrary bytes each that differ, 1 offer each, both directions, any whole scores
func Check_GroupLabels() {
	a, b := rt.Bytes("a", rt.Choose("lena", 3)), rt.Bytes("b", rt.Choose("lenb", 3))
	if len(a) == len(b) {
		rt.Assume(rt.Not(rt.BytesEq(a, b)))
	}
	higher := rt.Choose("higher", 2) == 1
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", HigherIsBetter: higher, Limit: 5, GroupLimit: 3}
	agg := data.NewAggrator(cfg, true, nil)
	s := []float64{free(), free()}
	for i, l := range [][]byte{a, b} {
		d := datum(0, i)
		d.Key.GroupLabel = l
		rt.Assert(agg.Insert(&pb.ScoredDatum{Score: s[i], Datum: d}) == nil, "an offer is accepted")
	}
	var ids []int
	var got []float64
	for _, r := range agg.Result() {
		ids = append(ids, int(r.Datum.Key.Dim1))
		got = append(got, r.Score)
	}
	hkit.TopK("grouped answer", higher, 5, ids, got, s, []bool{true, true})
	rt.Reach("end")
}

// Result limit and limit over more groups.
//gosym: reach=end budget=240 maporder
//bound: 3 offers to up to 3 groups, limit 1..3, result limit 0..3, both directions, scores any whole numbers of 16 bits
func Check_Limits() {
	grouped(3, 3, 1, 1, 1+rt.Choose("limit", 3), rt.Choose("resultlimit", 4), rt.Choose("higher", 2) == 1, free)
}
