package verifrt

import "github.com/bgokden/veri/annoyindex"

// Index stands in for the native nearest-neighbour index (both symbolically and in native replays): it records what is
// added and answers what the harness decides.
type Index struct {
	annoyindex.AnnoyIndexAngular
	Dim      int
	Ids      []int
	Vecs     [][]float32
	Built    bool
	Unloaded bool
	Deleted  bool
	Answer   []int
	NoAnswer bool
	Asked    int
	AskedN   int
	AskedVec []float32
}

// AnswerFirst makes an index without prescribed answer give the item added first; Answered is that item's vector.
var AnswerFirst bool
var Answered []float32

func NewIndex(dim int) annoyindex.AnnoyIndexAngular { return &Index{Dim: dim} }

func DeleteIndex(a annoyindex.AnnoyIndexAngular) {
	if x, ok := a.(*Index); ok {
		x.Deleted = true
	}
}

func (x *Index) AddItem(id int, v []float32) {
	Assert(!x.Deleted && !x.Built, "items are added to an index that is being built")
	Assert(len(v) >= x.Dim, "the native index is not made to read beyond the end of a vector (adding)")
	x.Ids = append(x.Ids, id)
	x.Vecs = append(x.Vecs, append([]float32(nil), v...))
}
func (x *Index) Build(n int) { x.Built = true }
func (x *Index) OnDiskBuild(name string) bool { return true }
func (x *Index) Unload() { x.Unloaded = true }
func (x *Index) GetNItems() int { return len(x.Ids) }
func (x *Index) Swigcptr() uintptr { return 1 }
func (x *Index) SwigIsAnnoyIndexAngular() {}
func (x *Index) GetNnsByVector(a ...interface{}) {
	Assert(!x.Deleted && !x.Unloaded, "a discarded index is not searched")
	Assert(x.Built, "an index is searched after it was built")
	x.Asked++
	var res *[]int
	var dist *[]float32
	ints := 0
	for _, y := range a {
		switch r := y.(type) {
		case *[]int:
			res = r
		case *[]float32:
			dist = r
		case []float32:
			x.AskedVec = r
		case int:
			if ints == 0 {
				x.AskedN = r
			}
			ints++
		}
	}
	Assert(len(x.AskedVec) >= x.Dim, "the native index is not made to read beyond the end of a vector (searching)")
	if x.NoAnswer {
		return
	}
	if AnswerFirst && x.Answer == nil && len(x.Ids) > 0 {
		Answered = x.Vecs[0]
		*res = []int{x.Ids[0]}
		*dist = []float32{0}
		return
	}
	if res != nil {
		*res = append([]int{}, x.Answer...)
	}
	if dist != nil {
		*dist = make([]float32, len(x.Answer))
	}
}
