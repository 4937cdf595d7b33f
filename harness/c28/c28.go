// Package c28: synchronisation spreads datasets, peers and services.
package c28

import (
	"context"
	"errors"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
	grpcpeer "google.golang.org/grpc/peer"
)

const start = 1000000000

// net records what the node sends, and to whom.
type net struct {
	down map[string]bool
	adds map[string][]*pb.Peer // announcements of peers sent to an address
	join map[string][]*pb.Peer // own announcements sent to an address
	info map[string][]string   // datasets whose statistics an address was asked for
	held uint64                // entries peers report, 0: no answer
}

func listen(down map[string]bool, answer string) *net {
	w := &net{down: down, adds: map[string][]*pb.Peer{}, join: map[string][]*pb.Peer{}, info: map[string][]string{}}
	rt.HookDial(func(a string) bool { return !w.down[a] })
	rt.HookInvoke(func(a, method string, in interface{}, out interface{}) error {
		switch r := in.(type) {
		case *pb.AddPeerRequest:
			w.adds[a] = append(w.adds[a], r.GetPeer())
		case *pb.JoinRequest:
			w.join[a] = append(w.join[a], r.GetPeer())
			if o, ok := out.(*pb.JoinResponse); ok {
				o.Address = answer
			}
		case *pb.GetDataRequest:
			w.info[a] = append(w.info[a], r.GetName())
			if o, ok := out.(*pb.DataInfo); ok && w.held > 0 {
				o.N, o.Name, o.Avg = w.held, r.GetName(), []float32{1}
				return nil
			}
			return errors.New("unavailable")
		default:
			return errors.New("unavailable")
		}
		return nil
	})
	return w
}

// a peer's announcement: addresses, and the address the node uses for it ("" if none)
type who struct {
	addrs []string
	via   string
}

var peers = []who{
	{[]string{"p:1"}, "p:1"},
	{[]string{"p:2", "q:2"}, "p:2"},
	{[]string{"me:1", "r:3"}, "r:3"},
	{[]string{"me:1"}, ""},
	{[]string{"me:2", "p:1", "me:1"}, "p:1"},
}

func announce(n *node.Node, w who, ts uint64, datas []*pb.DataConfig, services []string) {
	p := &pb.Peer{AddressList: append([]string{}, w.addrs...), Timestamp: ts, DataList: datas, ServiceList: services}
	rt.Assert(n.AddPeerElement(p) == nil, "an announcement is accepted")
}

func sources(dt *data.Data) map[string]int {
	m := map[string]int{}
	if dt == nil || dt.Sources == nil {
		return m
	}
	for _, it := range dt.Sources.Items() {
		m[it.Object.(data.DataSource).GetID()]++
	}
	return m
}

func get(n *node.Node, name string) *data.Data {
	dt, err := n.Dataset.GetNoCreate(name)
	if err != nil {
		return nil
	}
	return dt
}

type known struct {
	who
	ts    uint64
	names []string
	vers  []uint64
}

// table announces k different peers and lets time pass.
func table(n *node.Node, k int) (ks []*known, now uint64) {
	next := 0
	for i := 0; i < k; i++ {
		x := next + rt.Choose("peer", len(peers)-(k-1-i)-next)
		next = x + 1
		p := &known{who: peers[x], ts: uint64(start)}
		if i == 0 {
			p.ts = rt.U64("timestamp")
			rt.Assume(rt.And(p.ts > start-300, p.ts <= start))
		}
		var ds []*pb.DataConfig
		for _, name := range [][]string{nil, {"d"}, {"d", "e"}, {"e"}}[rt.Choose("datasets", 4-i)] {
			v := rt.U64("version")
			p.names, p.vers = append(p.names, name), append(p.vers, v)
			ds = append(ds, &pb.DataConfig{Name: name, NoTarget: true, Version: v})
		}
		announce(n, p.who, p.ts, ds, []string{service(i)})
		ks = append(ks, p)
	}
	d := rt.U64("delay")
	rt.Assume(d < 299)
	now = start + d
	rt.SetClock(int64(now))
	return
}

func service(i int) string { return "s:" + string([]byte{byte('0' + i)}) }

func listed(l []*pb.Peer, k *known) int {
	c := 0
	for _, p := range l {
		if node.GetIdOfPeer(p) == node.GetIdOfPeer(&pb.Peer{AddressList: append([]string{}, k.addrs...)}) {
			c++
		}
	}
	return c
}

// A synchronisation round with any peers.
//gosym: reach=linked,old,down,higher nonative budget=300
//gosym:thorough budget=900
//bound: 2 peers of 5 kinds (one or two addresses, sharing some or all addresses with the node), the second reachable or not, the first announcement of any age below 600 s, announcing 0..2 of 2 datasets with any configuration versions, one of which the node may have already; one round or two
func Check_Sync() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1", "me:2")
	version := map[string]uint64{}
	own := rt.Choose("own", 2) == 1
	if own {
		version["d"] = rt.U64("version")
		_, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true, Version: version["d"]})
		rt.Assert(err == nil, "the dataset is created")
	}
	hkit.Settle()
	ks, now := table(n, 2)
	down := map[string]bool{}
	if ks[1].via != "" && rt.Choose("down", 2) == 1 {
		down[ks[1].via] = true
		rt.Reach("down")
	}
	w := listen(down, "")
	for i, rounds := 0, 1+rt.Choose("again", 2); i < rounds; i++ {
		n.SyncWithPeers()
		hkit.Settle()
	}
	want := map[string]map[string]bool{"d": {}, "e": {}}
	have := map[string]bool{"d": own}
	for i, k := range ks {
		if k.ts+300 <= now {
			rt.Assert(listed(n.PeerListItems(), k) == 0, "a peer that was not heard of for 300 seconds is dropped")
			rt.Reach("old")
			continue
		}
		rt.Assert(listed(n.PeerListItems(), k) == 1, "a recent peer stays listed")
		if k.via == "" {
			continue
		}
		rt.Assert(node.Find(n.ServiceListKeys(), service(i)), "a service a peer announces is known")
		for j, name := range k.names {
			want[name][k.via] = true
			if !have[name] || k.vers[j] > version[name] {
				if have[name] {
					rt.Reach("higher")
				}
				version[name] = k.vers[j]
			}
			have[name] = true
		}
		if down[k.via] {
			rt.Assert(len(w.adds[k.via]) == 0, "nothing reaches an unreachable peer")
			continue
		}
		for _, o := range ks {
			if o == k {
				rt.Assert(listed(w.adds[k.via], o) == 0, "a peer is not told of itself")
			} else if o.ts+300 > now && !node.Find(o.addrs, k.via) {
				rt.Assert(listed(w.adds[k.via], o) > 0, "a reachable peer is told of every other recent peer")
			}
		}
		for _, p := range w.adds[k.via] {
			for _, o := range ks {
				rt.Assert(listed([]*pb.Peer{p}, o) == 0 || p.Timestamp == o.ts, "an announcement is passed on with its own timestamp")
			}
		}
	}
	for _, name := range []string{"d", "e"} {
		dt := get(n, name)
		rt.Assert((dt != nil) == have[name], "exactly the datasets of the node and its recent peers exist")
		got := sources(dt)
		rt.Assert(len(got) == len(want[name]), "exactly the recent peers that announce a dataset are its sources")
		for via := range want[name] {
			rt.Assert(got[via] == 1, "a recent peer that announces a dataset is its source once, under a foreign address")
			rt.Reach("linked")
		}
		if dt != nil {
			w.info = map[string][]string{}
			for _, it := range dt.Sources.Items() {
				it.Object.(data.DataSource).GetDataInfo()
			}
			for via := range want[name] {
				if !down[via] {
					rt.Assert(len(w.info[via]) == 1 && w.info[via][0] == name, "a source of a dataset asks its peer about that very dataset")
				}
			}
		}
		if dt != nil {
			rt.Assert(dt.GetConfig().Version == version[name], "the highest announced configuration version is in force")
		}
	}
}

// A joining round.
//gosym: reach=learned nonative budget=300
//gosym:thorough budget=900
//bound: 0..2 configured services, one of which may be unreachable, 1 peer of 5 kinds; the others answer with no address, a new one or one the node has; one round or two
func Check_Join() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1", "me:2")
	ks := rt.Choose("services", 3)
	for i := 0; i < ks; i++ {
		rt.Assert(n.AddStaticService(service(i)) == nil, "a service is accepted")
	}
	peer := peers[rt.Choose("peer", len(peers))]
	announce(n, peer, start, nil, nil)
	answer := []string{"", "10.0.0.1", "me"}[rt.Choose("answer", 3)]
	n.Port = uint32(1 + rt.Choose("port", 2)*9)
	down := map[string]bool{}
	if ks > 0 && rt.Choose("down", 2) == 1 {
		down[service(0)] = true
	}
	w := listen(down, answer)
	rounds := 1 + rt.Choose("again", 2)
	for i := 0; i < rounds; i++ {
		rt.Assert(n.JoinToPeers() == nil, "joining does not fail")
		hkit.Settle()
	}
	asked := 0
	must := func(a string) {
		if down[a] {
			rt.Assert(len(w.join[a]) == 0, "nothing reaches an unreachable service")
			return
		}
		asked++
		rt.Assert(len(w.join[a]) == rounds, "every known service and foreign peer address is asked to take the node in, once a round")
		for _, p := range w.join[a] {
			rt.Assert(node.Find(p.GetAddressList(), "me:1") && node.Find(p.GetAddressList(), "me:2") && p.GetTimestamp() == start, "the node announces its own addresses at the present time")
		}
	}
	for i := 0; i < ks; i++ {
		must(service(i))
	}
	for _, a := range peer.addrs {
		if a != "me:1" && a != "me:2" {
			must(a)
		}
	}
	rt.Assert(len(w.join) == asked, "nobody else is asked")
	addrs := n.GetNodeInfo().GetAddressList()
	seen := map[string]bool{}
	for _, a := range addrs {
		rt.Assert(!seen[a], "an own address is listed once")
		seen[a] = true
	}
	extra := 0
	if answer != "" && asked > 0 {
		a := answer + ":" + map[uint32]string{1: "1", 10: "10"}[n.Port]
		rt.Assert(seen[a], "an address learned from a peer is the node's own")
		if a != "me:1" {
			extra = 1
		}
		rt.Reach("learned")
	}
	rt.Assert(len(addrs) == 2+extra, "the node has its advertised and learned addresses and no others")
}

// origin is a context that knows where a request comes from.
type origin struct {
	context.Context
	p *grpcpeer.Peer
}

func (o origin) Value(interface{}) interface{} { return o.p }

type address string

func (a address) Network() string { return "tcp" }
func (a address) String() string  { return string(a) }

// What a node that joins is told.
//gosym: reach=known,unknown
//bound: joins from addresses of 9 forms, announcing one peer
func Check_Answer() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1")
	forms := []struct{ from, want string }{
		{"10.1.2.3:4567", "10.1.2.3"}, {"127.0.0.1:80", "localhost"}, {"127.9.9.9:80", "localhost"}, {"[::1]:9", "localhost"}, {"[2001:db8::7]:65535", "[2001:db8::7]"},
		{"host.example:1", "host.example"}, {"@", ""}, {"", ""}, {"255.255.255.255:1", "255.255.255.255"},
	}
	f := forms[rt.Choose("from", len(forms))]
	ctx := origin{context.Background(), &grpcpeer.Peer{Addr: address(f.from)}}
	r, err := n.Join(ctx, &pb.JoinRequest{Peer: &pb.Peer{AddressList: []string{"p:1"}, Timestamp: start}})
	rt.Assert(err == nil && r != nil, "joining is answered")
	rt.Assert(r.GetAddress() == f.want, "a node that joins is told the address it was seen from")
	rt.Assert(len(n.PeerListItems()) == 1, "a node that joins is listed")
	if f.want != "" {
		rt.Reach("known")
	} else {
		rt.Reach("unknown")
	}
}

// The rounds take place at the start and then again and again.
//gosym: reach=started,again nonative budget=100
//bound: 0..2 configured services, a peer of 5 kinds with a dataset that becomes known before or after the start's rounds; 1..3 minutes
func Check_Periodic() {
	rt.SetClock(start)
	w := listen(map[string]bool{}, "")
	w.held = 5 // an empty dataset without entries elsewhere goes again (C30)
	ks := rt.Choose("services", 3)
	var services []string
	for i := 0; i < ks; i++ {
		services = append(services, service(i))
	}
	var n *node.Node
	rt.NoPreempt(func() {
		n = node.NewNode(&node.NodeConfig{Port: 10000, Folder: rt.Scratch(), AdvertisedIds: []string{"me:1", "me:2"}, ServiceList: services})
		rt.Quiesce()
	})
	for _, s := range services {
		rt.Assert(len(w.join[s]) == 1, "a node that starts asks every configured service to take it in")
		rt.Reach("started")
	}
	k := peers[rt.Choose("peer", len(peers))]
	announce(n, k, start, []*pb.DataConfig{{Name: "d", NoTarget: true}}, []string{"service:99"})
	minutes := 1 + rt.Choose("minutes", 3)
	for i := 1; i <= minutes; i++ {
		rt.NoPreempt(func() {
			rt.FireTickers(60)
			rt.Quiesce()
		})
		for _, s := range services {
			rt.Assert(len(w.join[s]) == 1+i, "every minute every known service is asked to take the node in")
		}
		if k.via != "" {
			rt.Assert(len(w.join[k.via]) == i, "every minute every listed peer is asked to take the node in")
			rt.Assert(node.Find(n.ServiceListKeys(), "service:99"), "within a minute a service a peer announces is known")
			rt.Assert(sources(get(n, "d"))[k.via] == 1, "within a minute a peer that announces a dataset is its source")
			rt.Reach("again")
		}
	}
}
