package hkit

import (
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// NewData is an initialised dataset whose maintenance loop is not running (harnesses call Process themselves).
func NewData(cfg *pb.DataConfig) *data.Data {
	return &data.Data{
		Config:      cfg,
		Sources:     cache.New(10*time.Minute, 1*time.Minute),
		QueryCache:  cache.New(5*time.Minute, 1*time.Minute),
		Initialized: true,
		Alive:       true,
		DBPath:      rt.Scratch() + "/data/" + cfg.Name,
	}
}

// Plain is a dataset without size target and without replication.
func Plain() *data.Data {
	return NewData(&pb.DataConfig{Name: "d", NoTarget: true})
}

// All enumerates the dataset.
func All(dt *data.Data, room int) []*pb.Datum {
	ch := make(chan *pb.Datum, room)
	err := dt.StreamAll(ch)
	rt.Assert(err == nil, "enumeration does not fail")
	close(ch)
	var out []*pb.Datum
	for d := range ch {
		out = append(out, d)
	}
	return out
}

// SearchAll finds everything by exact search.
func SearchAll(dt *data.Data, limit int) []*pb.Datum {
	q := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}}
	c := dt.Search(q, &pb.SearchConfig{ScoreFuncName: "VectorMultiplication", Limit: uint32(limit)}, nil)
	var out []*pb.Datum
	for _, s := range c.List {
		out = append(out, s.Datum)
	}
	return out
}

// Count counts true terms without splitting paths.
func Count(bs ...bool) int {
	n := 0
	for _, b := range bs {
		n += rt.IteI(b, 1, 0)
	}
	return n
}
