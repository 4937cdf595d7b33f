// Package c19: the peer table keeps the newest, recent, foreign announcements.
package c19

import (
	"context"

	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

const start = 1000000000

// address sets a peer may announce, and which peer they mean
var sets = []struct {
	id    int
	addrs []string
}{
	{0, []string{"p:1"}},
	{1, []string{"p:2", "q:2"}},
	{1, []string{"q:2", "p:2"}},
	{2, []string{"me:1", "me:2"}},
	{2, []string{"me:2", "me:1"}},
	{3, []string{"p:1", "me:1"}},
}

type announcement struct {
	id   int
	peer *pb.Peer
	ts   uint64
}

func announce(set int, version string) *announcement {
	s := sets[set]
	ts := rt.U64("timestamp")
	rt.Assume(ts < 1<<62)
	return &announcement{id: s.id, ts: ts, peer: &pb.Peer{AddressList: append([]string{}, s.addrs...), Timestamp: ts, Version: version}}
}

func send(n *node.Node, a *announcement, how int) {
	var err error
	if how == 0 {
		_, err = n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: a.peer})
	} else {
		_, err = n.Join(context.Background(), &pb.JoinRequest{Peer: a.peer})
	}
	rt.Assert(err == nil, "an announcement is answered without error")
}

// table returns for every peer the announcement listed.
func table(n *node.Node) map[int]*pb.Peer {
	t := map[int]*pb.Peer{}
	for _, p := range n.PeerListItems() {
		id := -1
		for _, s := range sets {
			if len(s.addrs) != len(p.AddressList) {
				continue
			}
			same := true
			for _, a := range s.addrs {
				same = same && node.Find(p.AddressList, a)
			}
			if same {
				id = s.id
			}
		}
		rt.Assert(id >= 0, "only announced peers are listed")
		rt.Assert(id != 2, "a node never lists itself")
		rt.Assert(t[id] == nil, "a peer is listed once")
		t[id] = p
	}
	return t
}

// Any sequence of announcements.
//gosym: reach=listed,ignored budget=300
//gosym:thorough budget=900
//bound: 3 announcements (thorough 4) over 6 address lists (4 peers, one of them the node itself), any timestamps, by AddPeer or Join, time going on by 0..200 s in between but not so far that entries expire
func Check_Sequence() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1", "me:2")
	now := uint64(start)
	held := map[int]*announcement{}
	k := rt.Bound(3, 4)
	for i := 0; i < k; i++ {
		if i > 0 && rt.Choose("later", 2) == 1 {
			d := rt.U64("delay")
			rt.Assume(d <= uint64(240/k))
			now += d
			rt.SetClock(int64(now))
		}
		a := announce(rt.Choose("who", len(sets)), string([]byte{byte('0' + i)}))
		send(n, a, rt.Choose("how", 2))
		if a.id == 2 {
			rt.Reach("ignored")
			continue
		}
		h := held[a.id]
		if (h == nil || a.ts > h.ts) && a.ts+300 > now {
			held[a.id] = a
		} else {
			rt.Reach("ignored")
		}
	}
	t := table(n)
	rt.Assert(len(t) == len(held), "exactly the peers with a recent announcement are listed")
	for id, h := range held {
		p := t[id]
		rt.Assert(p != nil && p.Timestamp == h.ts && p.Version == h.peer.Version, "the newest recent announcement of a peer is held")
		rt.Reach("listed")
	}
	rt.ObserveI("listed", len(t))
}

// Which announcements mean the same peer.
//gosym: reach=same,different budget=100
//bound: all pairs of 12 address lists, some of which look alike when run together, any timestamps; the node known by advertised and by learned addresses
func Check_Identity() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1")
	n.KnownIds = append(n.KnownIds, "me:2")
	lists := [][]string{{"p:1"}, {"p:1", "q:2"}, {"q:2", "p:1"}, {"q:2"}, {"1a:1", "2b:2"}, {"1a:12", "b:2"}, {"p:1", "q:2", "r:3"}, {"r:3", "p:1", "q:2"}, {"me:1"}, {"me:2"}, {"me:1", "me:2"}, {"me:2", "me:1"}}
	keys := []int{0, 1, 1, 2, 3, 4, 5, 5, 6, 7, -1, -1}
	i, j := rt.Choose("first", len(lists)), rt.Choose("second", len(lists))
	mk := func(k int) *announcement {
		ts := rt.U64("timestamp")
		rt.Assume(rt.And(ts+300 > start, ts < 2*start))
		return &announcement{ts: ts, peer: &pb.Peer{AddressList: append([]string{}, lists[k]...), Timestamp: ts}}
	}
	a, b := mk(i), mk(j)
	send(n, a, 0)
	send(n, b, 0)
	var want []uint64
	switch {
	case keys[i] < 0 && keys[j] < 0:
	case keys[i] < 0:
		want = []uint64{b.ts}
	case keys[j] < 0:
		want = []uint64{a.ts}
	case keys[i] == keys[j]:
		rt.Reach("same")
		want = []uint64{rt.IteU(a.ts > b.ts, a.ts, b.ts)}
	default:
		rt.Reach("different")
		want = []uint64{a.ts, b.ts}
	}
	l := n.PeerListItems()
	rt.Assert(len(l) == len(want), "announcements mean the same peer exactly if they have the same addresses, and a node never lists itself")
	for _, p := range l {
		ok := false
		for _, w := range want {
			ok = rt.Or(ok, w == p.Timestamp)
		}
		rt.Assert(ok, "the newest recent announcement of a peer is held")
	}
}

// Concurrent announcements.
//gosym: preempt=2 race reach=end budget=300
//gosym:thorough preempt=3 budget=900
//bound: two concurrent announcements of the same peer (either address order) with any timestamps, possibly one held already: all schedules with up to 2 preemptions (thorough 3)
func Check_Concurrent() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1")
	mk := func(name string, set int) *announcement {
		a := announce(set, name)
		rt.Assume(rt.And(a.ts+300 > start, a.ts < 2*start))
		return a
	}
	var max uint64
	if rt.Choose("held", 2) == 1 {
		h := mk("h", 1)
		max = h.ts
		send(n, h, 0)
	}
	a, b := mk("a", 1), mk("b", 1+rt.Choose("order", 2))
	max = rt.IteU(a.ts > max, a.ts, max)
	max = rt.IteU(b.ts > max, b.ts, max)
	done := make(chan bool, 1)
	go func() { send(n, a, 0); done <- true }()
	send(n, b, 1)
	<-done
	rt.Preempt(0)
	t := table(n)
	rt.Assert(len(t) == 1 && t[1] != nil, "the peer is listed once")
	rt.Assert(t[1].Timestamp == max, "the newest recent announcement of a peer is held")
	rt.Reach("end")
}

// An announcement while the table is cleaned of old ones.
//gosym: preempt=2 race reach=kept,old budget=300
//gosym:thorough preempt=3 budget=900
//bound: a held announcement that may have become too old, a new recent one arriving while the node synchronises: all schedules with up to 2 preemptions (thorough 3)
func Check_WhileCleaned() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1")
	rt.HookDial(func(string) bool { return false })
	old := announce(0, "old")
	rt.Assume(rt.And(old.ts+300 > start, old.ts < start))
	send(n, old, 0)
	rt.SetClock(start + 200)
	fresh := announce(0, "new")
	rt.Assume(rt.And(fresh.ts > start, fresh.ts < start+200))
	done := make(chan bool, 1)
	go func() { send(n, fresh, 1); done <- true }()
	n.SyncWithPeers()
	<-done
	rt.Preempt(0)
	hkit.Settle()
	t := table(n)
	rt.Assert(len(t) == 1 && t[0] != nil && t[0].Timestamp == fresh.ts, "the newest recent announcement of a peer is held")
	if old.ts+300 > start+200 {
		rt.Reach("kept")
	} else {
		rt.Reach("old")
	}
}

// Old announcements go when the node synchronises, recent ones stay.
//gosym: reach=gone,stays
//bound: one announcement with any timestamp that was recent when it came, synchronisation at any second up to 250 s later
func Check_Clean() {
	rt.SetClock(start)
	n := hkit.NewNode("me:1")
	rt.HookDial(func(string) bool { return false })
	a := announce(0, "a")
	rt.Assume(a.ts+300 > start)
	send(n, a, 0)
	d := rt.U64("delay")
	rt.Assume(d <= 250)
	rt.SetClock(start + int64(d))
	n.SyncWithPeers()
	hkit.Settle()
	t := table(n)
	if a.ts+300 > start+d {
		rt.Assert(len(t) == 1, "a recent announcement stays")
		rt.Reach("stays")
	} else {
		rt.Assert(len(t) == 0, "an old announcement is dropped when the node synchronises")
		rt.Reach("gone")
	}
}
