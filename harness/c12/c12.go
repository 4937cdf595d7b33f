// Package c12: an acknowledged insert is on as many replicas as configured.
package c12

import (
	"context"

	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

func key(b byte) string { return "p" + string([]byte{'0' + b}) }

func run(np int) {
	enforce := rt.Choose("enforce", 2) == 1
	repl := rt.U32("replicas")
	count := rt.U64("count")
	ttl := rt.U64("ttl")
	rt.Assume(ttl <= 1<<40)
	withConfig := rt.Choose("config", 2) == 1
	rt.SetClock(1000000000)
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: true, EnforceReplicationOnInsert: enforce, ReplicationOnInsert: repl})
	var peers []*hkit.Peer
	for i := 0; i < np; i++ {
		kind := rt.Choose("answer", 3)
		if kind == 2 {
			kind = 3
		}
		p := &hkit.Peer{ID: key(byte(i)), Ack: func(d *pb.Datum, c *pb.InsertConfig) error { return hkit.PeerError(kind) }}
		peers = append(peers, p)
		hkit.AddPeer(dt, p)
	}
	k := &pb.DatumKey{Feature: []float32{rt.F32("f")}, GroupLabel: rt.Bytes("g", 1), Dim1: rt.U32("dim")}
	v := &pb.DatumValue{Label: rt.Bytes("l", 1), Version: rt.U64("v")}
	d := &pb.Datum{Key: hkit.CopyKey(k), Value: hkit.CopyValue(v)}
	var cfg *pb.InsertConfig
	first := true // the insert comes from a client
	if withConfig {
		cfg = &pb.InsertConfig{TTL: ttl, Count: count}
		first = count == 0
	}
	err := dt.Insert(d, cfg)
	all := hkit.All(dt, 3)
	rt.Assert(len(all) == 1 && hkit.SameKey(all[0].Key, k) && hkit.SameValue(all[0].Value, v), "the datum is stored locally")
	sent, acks := 0, 0
	for _, p := range peers {
		rt.Assert(len(p.Got) <= 1, "a peer is sent at most one copy")
		for i := range p.Got {
			sent++
			if p.Acked[i] {
				acks++
			}
			rt.Assert(hkit.SameKey(p.Got[i].Key, k), "a copy carries the same key")
			rt.Assert(hkit.SameValue(p.Got[i].Value, v), "a copy carries the same value")
			if withConfig {
				rt.Assert(p.TTL[i] == ttl, "a copy carries the same lifetime")
			} else {
				rt.Assert(p.TTL[i] == 0, "a copy carries the same lifetime")
			}
			rt.Assert(p.Count[i] != 0, "a copy is marked as forwarded")
		}
	}
	if enforce && first {
		rt.Reach("replicated")
		rt.Assert((err == nil) == (uint64(acks)+1 >= uint64(repl)), "success means at least the configured number of replicas acknowledged, and conversely")
		if sent < np && err != nil && np <= 5 {
			rt.Assert(false, "every peer is tried before the insert fails for lack of replicas")
		}
	} else {
		rt.Reach("local")
		rt.Assert(err == nil, "a local insert succeeds on its own")
		rt.Assert(sent == 0, "no copy is sent for a forwarded insert or without enforcement")
	}
	rt.ObserveB("ok", err == nil)
	rt.ObserveI("acks", acks)
}

// No or few peers, each acknowledging or refusing.
//gosym: reach=replicated,local budget=200
//bound: 0..2 peers (thorough 0..4) answering ok, over target or unreachable; any replica count, forward count, lifetime, datum; enforcement on or off; with or without options
func Check_Replication() { run(rt.Choose("peers", rt.Bound(3, 5))) }

// Peers visited in any order.
//gosym: reach=replicated,local budget=200 maporder
//bound: 2 peers (thorough 3) in any order
func Check_Order() { run(rt.Bound(2, 3)) }

// Many peers (more than are contacted).
//gosym: reach=end budget=200
//bound: 7 peers that all acknowledge, all refuse, or one of which does either, any replica count
func Check_Many() {
	repl := rt.U32("replicas")
	dt := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: true, EnforceReplicationOnInsert: true, ReplicationOnInsert: repl})
	base := rt.Choose("base", 2)
	odd := rt.Choose("odd", 8)
	var peers []*hkit.Peer
	for i := 0; i < 7; i++ {
		kind := base * 3
		if i == odd {
			kind = 3 - kind
		}
		p := &hkit.Peer{ID: key(byte(i)), Ack: func(d *pb.Datum, c *pb.InsertConfig) error { return hkit.PeerError(kind) }}
		peers = append(peers, p)
		hkit.AddPeer(dt, p)
	}
	err := dt.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{}}, &pb.InsertConfig{TTL: 7})
	acks := 0
	for _, p := range peers {
		for i := range p.Got {
			rt.Assert(p.Count[i] != 0 && p.TTL[i] == 7, "a copy is marked as forwarded and keeps its lifetime")
			if p.Acked[i] {
				acks++
			}
		}
	}
	rt.Assert((err == nil) == (uint64(acks)+1 >= uint64(repl)), "success means at least the configured number of replicas acknowledged, and conversely")
	rt.Reach("end")
}

// A peer dataset that receives the copy stores it and does not replicate further.
//gosym: reach=end
//bound: two real datasets joined, each with a further peer, any lifetime
func Check_NoFurther() {
	rt.SetClock(1000000000)
	a := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: true, EnforceReplicationOnInsert: true, ReplicationOnInsert: 2})
	b := hkit.NewData(&pb.DataConfig{Name: "d", NoTarget: true, EnforceReplicationOnInsert: true, ReplicationOnInsert: 2})
	back := &hkit.Peer{ID: "back"}
	hkit.AddPeer(b, back)
	ttl := rt.U64("ttl")
	rt.Assume(ttl < 1<<40)
	fwd := &hkit.Peer{ID: "b", Ack: func(d *pb.Datum, c *pb.InsertConfig) error {
		var cc *pb.InsertConfig
		if c != nil {
			cc = &pb.InsertConfig{TTL: c.TTL, Count: c.Count}
		}
		return b.Insert(d, cc)
	}}
	hkit.AddPeer(a, fwd)
	err := a.Insert(&pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{}}, &pb.InsertConfig{TTL: ttl})
	rt.Assert(err == nil, "the insert succeeds")
	rt.Assert(len(hkit.All(b, 2)) == 1, "the replica stored the datum")
	rt.Assert(len(back.Got) == 0, "the replica did not replicate further")
	rt.Reach("end")
}

// The same over the service: a client's insert request to a node whose copies go to remote peers.
//gosym: reach=ok,short,local nonative budget=200
//bound: 0..2 remote peers, each unreachable, failing, refusing or acknowledging; any replica count, forward count and lifetime; enforcement on or off
func Check_Service() {
	rt.SetClock(1000000000)
	repl := rt.U32("replicas")
	count, ttl := rt.U64("count"), rt.U64("ttl")
	rt.Assume(ttl <= 1<<40)
	enforce := rt.Choose("enforce", 2) == 1
	n := hkit.NewNode()
	dt, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true, EnforceReplicationOnInsert: enforce, ReplicationOnInsert: repl})
	rt.Assert(err == nil, "the dataset is created")
	cc := util.NewConnectionCache()
	hkit.Settle()
	mode := map[string]int{}
	for i := 0; i < rt.Choose("peers", 3); i++ {
		a := key(byte(i)) + ":1"
		mode[a] = rt.Choose("mode", 4)
		rt.Assert(dt.AddSource(node.GetDataSourceClient(&pb.Peer{}, "d", a, cc)) == nil, "a source is accepted")
	}
	k := &pb.DatumKey{Feature: []float32{rt.F32("f")}, GroupLabel: rt.Bytes("g", 1), Dim1: rt.U32("dim")}
	v := &pb.DatumValue{Label: rt.Bytes("l", 1), Version: rt.U64("v")}
	acks, sent := 0, 0
	rt.HookDial(func(a string) bool { return mode[a] != 0 })
	rt.HookInvoke(func(a, method string, in interface{}, out interface{}) error {
		r, ok := in.(*pb.InsertionRequest)
		if !ok { // the peer's statistics
			return hkit.PeerError(3)
		}
		sent++
		rt.Assert(r.GetDataName() == "d", "a copy goes to the same dataset")
		rt.Assert(hkit.SameKey(r.GetDatum().GetKey(), k), "a copy carries the same key")
		rt.Assert(hkit.SameValue(r.GetDatum().GetValue(), v), "a copy carries the same value")
		rt.Assert(r.GetConfig().GetTTL() == ttl, "a copy carries the same lifetime")
		rt.Assert(r.GetConfig().GetCount() != 0, "a copy is marked as forwarded")
		switch mode[a] {
		case 1:
			return hkit.PeerError(3)
		case 2:
			return hkit.PeerError(1)
		}
		acks++
		return nil
	})
	resp, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: "d", Datum: &pb.Datum{Key: hkit.CopyKey(k), Value: hkit.CopyValue(v)}, Config: &pb.InsertConfig{TTL: ttl, Count: count}})
	rt.Assert((err == nil) == (resp != nil), "an insert is answered or fails")
	rt.Assert(err != nil || resp.GetCode() == 0, "a successful insert has code 0")
	all := hkit.All(dt, 3)
	rt.Assert(len(all) == 1 && hkit.SameKey(all[0].Key, k) && hkit.SameValue(all[0].Value, v), "the datum is stored locally")
	if enforce && count == 0 {
		rt.Assert((err == nil) == (uint64(acks)+1 >= uint64(repl)), "success means at least the configured number of replicas acknowledged, and conversely")
		if err == nil {
			rt.Reach("ok")
		} else {
			rt.Reach("short")
		}
	} else {
		rt.Assert(err == nil, "a local insert succeeds on its own")
		rt.Assert(sent == 0, "no copy is sent for a forwarded insert or without enforcement")
		rt.Reach("local")
	}
}
