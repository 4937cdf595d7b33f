// Package c21: a draining node accepts no data and never looks ready.
package c21

import (
	"context"
	"net/http"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	veriserviceserver "github.com/bgokden/veri/server"
	"github.com/bgokden/veri/state"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

type response struct {
	code int
	body []byte
	h    http.Header
}

func (r *response) Header() http.Header { return r.h }
func (r *response) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func ready() int {
	w := &response{h: http.Header{}}
	veriserviceserver.GetReady(w, nil)
	return w.code
}

func healthy() int {
	w := &response{h: http.Header{}}
	veriserviceserver.GetHeath(w, nil)
	return w.code
}

func insert(n *node.Node, i int) error {
	d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}}, Value: &pb.DatumValue{Version: uint64(i)}}
	_, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: "d", Datum: d})
	return err
}

func fresh() (*node.Node, *data.Data) {
	rt.SetClock(1000000000)
	state.Health, state.Ready, state.Drain = true, false, false
	rt.Assert(ready() == 503, "before the first synchronisation the node is not ready")
	n := hkit.NewNode("me:1")
	rt.Assert(ready() == 200, "after the first synchronisation the node is ready")
	var dt *data.Data
	rt.NoPreempt(func() {
		var err error
		dt, err = n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
		rt.Assert(err == nil, "the dataset is created")
		rt.Quiesce()
	})
	return n, dt
}

// The health endpoint.
//gosym: reach=end
//bound: all values of the three state flags
func Check_Endpoints() {
	h, r := rt.Bool("health"), rt.Bool("ready")
	state.Health, state.Ready, state.Drain = h, r, false
	rt.Assert((healthy() == 200) == h, "the health endpoint answers 200 exactly while the node is healthy")
	code := ready()
	rt.Assert(code == 200 || code == 503, "the readiness endpoint answers 200 or 503")
	rt.Assert((code == 200) == r, "the readiness endpoint follows the state while in service")
	rt.Reach("end")
}

// Shutdown against synchronisation.
//gosym: preempt=2 race reach=end budget=300
//gosym:thorough preempt=3 budget=900
//bound: shutdown concurrent with a synchronisation with up to 1 known peer and with the periodic task's parts: all schedules with up to 2 preemptions (thorough 3)
func Check_CloseWhileSyncing() {
	n, _ := fresh()
	rt.HookDial(func(string) bool { return false })
	if rt.Choose("peer", 2) == 1 {
		_, err := n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"p:1"}, Timestamp: 1000000000}})
		rt.Assert(err == nil, "the peer is accepted")
	}
	done := make(chan bool, 1)
	go func() { n.SyncWithPeers(); done <- true }()
	rt.Assert(n.Close() == nil, "closing succeeds")
	rt.Assert(ready() == 503, "a node that is shut down is not ready")
	rt.Assert(insert(n, 1) != nil, "an insert after shutdown began is refused")
	<-done
	rt.Preempt(0)
	rt.Assert(ready() == 503, "a node that is shut down never gets ready again")
	hkit.Settle()
	rt.Assert(ready() == 503, "a node that is shut down never gets ready again")
	n.SyncWithPeers()
	hkit.Settle()
	rt.Assert(ready() == 503, "a node that is shut down never gets ready again")
	rt.Assert(insert(n, 2) != nil, "an insert after shutdown began is refused")
	rt.Reach("end")
}

// What others see from the moment shutdown has begun.
//gosym: preempt=2 race reach=during,before budget=300
//gosym:thorough preempt=3 budget=900
//bound: a client that inserts and then looks at the endpoints while another goroutine shuts the node down: all schedules with up to 2 preemptions (thorough 3)
func Check_InsertWhileClosing() {
	n, dt := fresh()
	begun := false
	done := make(chan bool, 1)
	go func() {
		n.Close()
		done <- true
	}()
	// seen by a refused insert, shutdown has begun
	err1 := insert(n, 1)
	if err1 != nil {
		begun = true
	}
	code := ready()
	err2 := insert(n, 2)
	if begun {
		rt.Assert(code == 503, "once an insert was refused for shutdown the node is not ready")
		rt.Assert(err2 != nil, "once an insert was refused for shutdown all later ones are")
		rt.Reach("during")
	} else {
		rt.Reach("before")
	}
	<-done
	rt.Preempt(0)
	hkit.Settle()
	for _, d := range hkit.All(dt, 8) {
		rt.Assert(d.Value.Version != 1 || err1 == nil, "a refused insert stores nothing")
		rt.Assert(d.Value.Version != 2 || err2 == nil, "a refused insert stores nothing")
	}
	rt.Assert(insert(n, 3) != nil && ready() == 503, "after shutdown inserts are refused and the node is not ready")
}

// What is seen while the node hands its data over.
//gosym: reach=during fair=20000 budget=100
//bound: 1..2 entries handed over to one peer by shutdown; during each hand-over an insert and a look at the endpoints
func Check_HandingOver() {
	n, dt := fresh()
	k := 1 + rt.Choose("n", 2)
	for i := 0; i < k; i++ {
		rt.Assert(insert(n, i) == nil, "an insert in service is accepted")
	}
	dt.N = uint64(k)
	p := &hkit.Peer{ID: "p", Info: func() *pb.DataInfo { return &pb.DataInfo{N: 0, Avg: []float32{9}} }}
	p.Ack = func(*pb.Datum, *pb.InsertConfig) error {
		rt.Assert(insert(n, 7) != nil, "an insert after shutdown began is refused")
		rt.Assert(ready() == 503, "a node that is shutting down is not ready")
		rt.Reach("during")
		return nil
	}
	hkit.AddPeer(dt, p)
	rt.Assert(n.Close() == nil, "closing succeeds")
	hkit.Settle()
}

// A refused insert does not even create the dataset.
//gosym: reach=end
//bound: any dataset name of 1 byte, any lifetime
func Check_RefusedLeavesNothing() {
	n, dt := fresh()
	rt.Assert(insert(n, 7) == nil, "an insert in service is accepted")
	rt.Assert(n.Close() == nil, "closing succeeds")
	hkit.Settle()
	before, entries := len(n.Dataset.List()), len(hkit.All(dt, 8))
	name := rt.String("name", 1)
	d := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{3}}, Value: &pb.DatumValue{}}
	_, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: name, Datum: d, Config: &pb.InsertConfig{TTL: rt.U64("ttl"), Count: uint64(rt.U32("count"))}})
	rt.Assert(err != nil, "an insert after shutdown began is refused")
	hkit.Settle()
	rt.Assert(len(n.Dataset.List()) == before && len(hkit.All(dt, 8)) == entries, "a refused insert changes nothing")
	rt.Reach("end")
}

// Readiness only comes with the end of the synchronisation.
//gosym: reach=asked nonative
//bound: a synchronisation with one reachable peer, looked at during each of its calls to the peer
func Check_ReadyAfterSync() {
	n, _ := fresh()
	_, err := n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"p:1"}, Timestamp: 1000000000, DataList: []*pb.DataConfig{{Name: "e"}}}})
	rt.Assert(err == nil, "the peer is accepted")
	_, err = n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"p:2"}, Timestamp: 1000000000}})
	rt.Assert(err == nil, "the peer is accepted")
	state.Ready = false
	syncing := true
	rt.HookDial(func(string) bool { return true })
	rt.HookInvoke(func(addr, method string, in interface{}, out interface{}) error {
		if syncing {
			rt.Assert(ready() == 503, "during the first synchronisation the node is not ready")
			rt.Reach("asked")
		}
		return nil
	})
	n.SyncWithPeers()
	syncing = false
	rt.Assert(ready() == 200, "after the first synchronisation the node is ready")
	hkit.Settle()
}
