// Package c24: removing a dataset touches only its own folder.
package c24

import (
	"path"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// child says whether p is directly below dir, and what it is called there.
func child(dir, p string) (string, bool) {
	p = path.Clean(p)
	if len(p) <= len(dir)+1 || p[:len(dir)] != dir || p[len(dir)] != '/' {
		return "", false
	}
	rest := p[len(dir)+1:]
	for i := 0; i < len(rest); i++ {
		if rest[i] == '/' {
			return "", false
		}
	}
	return rest, rest != "" && rest != "." && rest != ".."
}

func removedSince(n int) []string { return rt.RemovedPaths()[n:] }

// contained returns the names of the removed folders and checks that nothing else was touched.
func contained(n int) []string {
	root := path.Join(rt.Scratch(), "data")
	var names []string
	for _, r := range removedSince(n) {
		c, ok := child(root, r)
		rt.Assert(ok, "only a folder directly below the data folder is removed")
		names = append(names, c)
	}
	for _, m := range rt.MadeDirs() {
		m = path.Clean(m)
		_, ok := child(root, m)
		rt.Assert(ok || m == root || m == rt.Scratch(), "no folders are made elsewhere")
	}
	return names
}

func anyName(label string, max int) string { return rt.String(label, rt.Choose(label+"len", max+1)) }

// segName is a name put together from the pieces that matter to path handling and a free byte.
func segName(label string, max int) string {
	s := ""
	for i, n := 0, rt.Choose(label+"segs", max+1); i < n; i++ {
		switch rt.Choose(label+"seg", 4) {
		case 0:
			s += "/"
		case 1:
			s += ".."
		case 2:
			s += rt.String(label+"c", 1)
		case 3:
			s += "data"
		}
	}
	return s
}

// drop removes a dataset in one of the ways there are.
func drop(dts *data.Dataset, dt *data.Data, name string, how int) {
	switch how {
	case 0:
		rt.Assert(dts.Delete(name) == nil, "the dataset is deleted")
	case 1:
		dt.Close()
	case 2:
		if rt.Symbolic() {
			rt.Advance(3600 * 24 * 30)
			dts.DataList.DeleteExpired()
		} else {
			dts.DataList.Delete(name) // evicts as the expiration would
		}
	case 3:
		dts.ReloadRuns()
	case 4:
		dts.Close()
	}
}

// Any name, removed in any way.
//gosym: reach=end budget=200
//gosym:thorough budget=600
//bound: any name of up to 4 bytes (thorough 6); deleted, closed, expired, dropped as inactive or closed with all datasets
func Check_AnyName() {
	rt.SetClock(1000000000)
	dts := data.NewDataset(rt.Scratch())
	name := anyName("name", rt.Bound(4, 6))
	n := len(rt.RemovedPaths())
	how := rt.Choose("how", 5)
	rt.NoPreempt(func() {
		rt.Assert(dts.CreateIfNotExists(&pb.DataConfig{Name: name, Retention: 3600}) == nil, "the dataset is created")
		dt, err := dts.Get(name)
		rt.Assert(err == nil, "the dataset is found")
		drop(dts, dt, name, how)
	})
	contained(n)
	hkit.Settle()
	rt.Reach("end")
}

// Longer names made of path pieces.
//gosym: reach=end budget=200
//gosym:thorough budget=600
//bound: names of up to 4 (thorough 6) pieces, each "/", "..", "data" or any byte
func Check_Pieces() {
	rt.SetClock(1000000000)
	dts := data.NewDataset(rt.Scratch())
	name := segName("name", rt.Bound(4, 6))
	n := len(rt.RemovedPaths())
	rt.NoPreempt(func() {
		rt.Assert(dts.CreateIfNotExists(&pb.DataConfig{Name: name}) == nil, "the dataset is created")
		rt.Assert(dts.Delete(name) == nil, "the dataset is deleted")
	})
	contained(n)
	hkit.Settle()
	rt.Reach("end")
}

// Two datasets never share a folder.
//gosym: reach=end budget=200
//gosym:thorough budget=600
//bound: two different names of up to 2 (thorough 3) bytes each, and one of up to 3 pieces against one of up to 1 (2) pieces
func Check_TwoNames() {
	rt.SetClock(1000000000)
	dts := data.NewDataset(rt.Scratch())
	var a, b string
	if rt.Choose("kind", 2) == 0 {
		a, b = anyName("a", rt.Bound(2, 3)), anyName("b", rt.Bound(2, 3))
	} else {
		a, b = segName("a", 3), segName("b", rt.Bound(1, 2))
	}
	rt.Assume(!rt.StrEq(a, b))
	n := len(rt.RemovedPaths())
	var first, second []string
	rt.NoPreempt(func() {
		for _, s := range []string{a, b} {
			rt.Assert(dts.CreateIfNotExists(&pb.DataConfig{Name: s}) == nil, "the dataset is created")
		}
		rt.Assert(dts.Delete(a) == nil, "the dataset is deleted")
		first = contained(n)
		n = len(rt.RemovedPaths())
		rt.Assert(dts.Delete(b) == nil, "the dataset is deleted")
		second = contained(n)
	})
	for _, x := range first {
		for _, y := range second {
			rt.Assert(!rt.StrEq(x, y), "removing a dataset does not remove another one's folder")
		}
	}
	hkit.Settle()
	rt.Reach("end")
}

// The same through the constructor of a single dataset.
//gosym: reach=end budget=100
//bound: any name of up to 3 (thorough 4) bytes, and names of up to 3 pieces
func Check_NewData() {
	rt.SetClock(1000000000)
	name := ""
	if rt.Choose("kind", 2) == 0 {
		name = anyName("name", rt.Bound(3, 4))
	} else {
		name = segName("name", 3)
	}
	n := len(rt.RemovedPaths())
	rt.NoPreempt(func() {
		dt, err := data.NewData(&pb.DataConfig{Name: name}, path.Join(rt.Scratch(), "data"))
		rt.Assert(err == nil, "the dataset is created")
		dt.Close()
	})
	contained(n)
	hkit.Settle()
	rt.Reach("end")
}
