package hkit

import (
	"context"
	"sync/atomic"

	"github.com/bgokden/veri/node"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// NewNode starts a node in the scratch folder, without services to join, and lets it settle.
func NewNode(advertised ...string) *node.Node {
	var n *node.Node
	rt.NoPreempt(func() {
		n = node.NewNode(&node.NodeConfig{Port: 10000, Folder: rt.Scratch(), AdvertisedIds: advertised})
		rt.Quiesce()
	})
	return n
}

// Room waits until everything started so far has come to rest, without preemptions.
func Settle() { rt.NoPreempt(rt.Quiesce) }

// DatumStream records what a data stream sends, and whether sends overlap.
type DatumStream struct {
	grpc.ServerStream
	busy    int32
	Overlap bool
	Sent    []*pb.Datum
	Err     error
}

func (s *DatumStream) Context() context.Context { return context.Background() }
func (s *DatumStream) Send(d *pb.Datum) error {
	if atomic.AddInt32(&s.busy, 1) != 1 {
		s.Overlap = true
	}
	s.Sent = append(s.Sent, d)
	if atomic.AddInt32(&s.busy, -1) != 0 {
		s.Overlap = true
	}
	return s.Err
}

// ScoredStream records what a search stream sends.
type ScoredStream struct {
	grpc.ServerStream
	busy    int32
	Overlap bool
	Sent    []*pb.ScoredDatum
	Err     error
}

func (s *ScoredStream) Context() context.Context { return context.Background() }
func (s *ScoredStream) Send(d *pb.ScoredDatum) error {
	if atomic.AddInt32(&s.busy, 1) != 1 {
		s.Overlap = true
	}
	s.Sent = append(s.Sent, d)
	if atomic.AddInt32(&s.busy, -1) != 0 {
		s.Overlap = true
	}
	return s.Err
}
