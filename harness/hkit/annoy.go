package hkit

import (
	"github.com/bgokden/veri/annoyindex"
	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

// FakeIndex stands in for the native nearest-neighbour index: it answers what the harness decided.
type FakeIndex struct {
	annoyindex.AnnoyIndexAngular
	Answer   []int
	Asked    int
	NoAnswer bool
}

func (f *FakeIndex) GetNnsByVector(a ...interface{}) {
	f.Asked++
	if f.NoAnswer {
		return
	}
	var res *[]int
	var dist *[]float32
	for _, x := range a {
		if r, ok := x.(*[]int); ok {
			res = r
		}
		if r, ok := x.(*[]float32); ok {
			dist = r
		}
	}
	if res != nil {
		*res = append([]int{}, f.Answer...)
	}
	if dist != nil {
		*dist = make([]float32, len(f.Answer))
	}
}
func (f *FakeIndex) Unload()        {}
func (f *FakeIndex) GetNItems() int { return 0 }

// SetIndex installs an index over the given datums, as a maintenance pass would.
func SetIndex(dt *data.Data, f *FakeIndex, datums []*pb.Datum) {
	l := append([]*pb.Datum{}, datums...)
	dt.Annoyer.AnnoyIndex = f
	dt.Annoyer.DataIndex = &l
}
