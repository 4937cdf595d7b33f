package hkit

import (
	"errors"
	"sync"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

// Peer is a stand-in for a remote copy of the dataset.
type Peer struct {
	ID       string
	Ack      func(d *pb.Datum, c *pb.InsertConfig) error
	Info     func() *pb.DataInfo
	Answer   func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	Got      []*pb.Datum
	TTL      []uint64
	Count    []uint64
	NilCfg   []bool
	Acked    []bool
	Searches int
}

func (p *Peer) StreamSearch(q *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	p.Searches++
	if p.Answer != nil {
		p.Answer(q, out, c)
	}
	return nil
}

func (p *Peer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	p.Got = append(p.Got, d)
	p.NilCfg = append(p.NilCfg, c == nil)
	ttl, n := uint64(0), uint64(0)
	if c != nil {
		ttl, n = c.TTL, c.Count
	}
	p.TTL = append(p.TTL, ttl)
	p.Count = append(p.Count, n)
	var err error
	if p.Ack != nil {
		err = p.Ack(d, c)
	}
	p.Acked = append(p.Acked, err == nil)
	return err
}

func (p *Peer) GetDataInfo() *pb.DataInfo {
	if p.Info != nil {
		return p.Info()
	}
	return nil
}
func (p *Peer) GetID() string { return p.ID }

// Errors a peer may answer with.
func PeerError(kind int) error {
	switch kind {
	case 1:
		return errors.New("Number of elements is over the target")
	case 2:
		return errors.New("rpc error: code = Unknown desc = Node is in drain mode")
	case 3:
		return errors.New("Connection failure")
	}
	return nil
}

// AddPeer adds a peer to the dataset's sources.
func AddPeer(dt *data.Data, p *Peer) {
	rt.Assert(dt.AddSource(p) == nil, "a source is accepted")
}

// keep the import of the cache library
var _ = cache.NoExpiration
