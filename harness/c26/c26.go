// Package c26: the connection pool hands out only usable connections.
package c26

import (
	"fmt"

	"github.com/bgokden/veri/util"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	"google.golang.org/grpc/connectivity"
)

const addr = "p:1"

// world decides how dials and connections fare, and remembers what was seen.
type world struct {
	dials int
	limit int // no more dials than this are expected so far
	last  map[int]connectivity.State
}

func newWorld(anyState bool) *world {
	w := &world{limit: 1 << 30, last: map[int]connectivity.State{}}
	rt.HookDial(func(string) bool {
		w.dials++
		rt.Assert(w.dials <= w.limit, "no connections are opened through a removed pool, and only a few to serve a request")
		return rt.Bool("dial")
	})
	rt.HookState(func(a string, id int) connectivity.State {
		if !anyState {
			return connectivity.Ready
		}
		s := connectivity.State(rt.Int("state", 0, 3)) // idle, connecting, ready or failing
		w.last[id] = s
		return s
	})
	return w
}

func shut(c *util.Connection) bool { return c.Conn.GetState() == connectivity.Shutdown }

// usable checks a connection as it is handed out.
func usable(c *util.Connection, address string) {
	if c == nil {
		rt.Reach("nothing")
		return
	}
	rt.Reach("connection")
	rt.Assert(c.Conn != nil, "a connection handed out is connected to something")
	rt.Assert(c.Address == address, "a connection handed out goes to the requested address")
	rt.Assert(!rt.ConnClosed(rt.ConnID(c.Conn)), "a connection handed out is not shut down")
}

// Any sequence of operations on one pool.
//gosym: reach=nothing,connection,unhealthy,closed nonative budget=300
//bound: 4 operations (thorough 5) on a pool of up to 2 connections to begin with: get, return, close, a connection shut down by others, removal; every outcome of dials and of state queries; the pool giving any of its items or none
//
//gosym:thorough budget=900
func Check_Pool() {
	w := newWorld(true)
	cp := util.NewConnectionPool(addr)
	rt.PoolAny(2)
	var held []*util.Connection
	for i, k := 0, rt.Choose("initial", 3); i < k; i++ {
		if c := cp.NewConnection(addr); c != nil {
			cp.Put(c)
			held = append(held, c)
		}
	}
	bad := map[int]bool{}
	closed := false
	for i, k := 0, rt.Bound(4, 5); i < k; i++ {
		switch op := rt.Choose("op", 5); {
		case op == 0:
			if !closed {
				w.limit = w.dials + 10
			}
			c := cp.Get()
			usable(c, addr)
			if c != nil {
				rt.Assert(!bad[rt.ConnID(c.Conn)], "a connection returned unhealthy is not handed out again")
				held = append(held, c)
			}
		case op == 1 && len(held) > 0:
			c := held[len(held)-1]
			held = held[:len(held)-1]
			id := rt.ConnID(c.Conn)
			w.last[id] = connectivity.Shutdown
			cp.PutIfHealthy(c)
			if w.last[id] != connectivity.Ready {
				rt.Reach("unhealthy")
				bad[id] = true
			}
		case op == 2 && len(held) > 0:
			cp.Close(held[len(held)-1])
			held = held[:len(held)-1]
		case op == 3 && len(held) > 0:
			held[0].Conn.Close()
		case op == 4 && !closed:
			w.limit = w.dials
			rt.PoolAny(1)
			cp.CloseAll()
			rt.PoolAny(2)
			closed = true
			rt.Reach("closed")
		}
	}
}

// Removal closes everything that is pooled.
//gosym: reach=end nonative budget=200
//bound: a pool holding 0..3 (thorough 5) connections, given in any order, some of them shut down or pooled twice; then removal, and two requests
//
//gosym:thorough budget=600
func Check_Removal() {
	w := newWorld(true)
	cp := util.NewConnectionPool(addr)
	var all []*util.Connection
	for i, k := 0, rt.Choose("n", rt.Bound(4, 6)); i < k; i++ {
		c := cp.NewConnection(addr)
		if c == nil {
			continue
		}
		all = append(all, c)
		switch rt.Choose("how", 3) {
		case 0:
			cp.Put(c)
		case 1:
			cp.Put(c)
			c.Conn.Close()
		case 2:
			cp.Put(c)
			cp.Put(c)
		}
	}
	w.limit = w.dials
	rt.PoolAny(1)
	cp.CloseAll()
	for _, c := range all {
		rt.Assert(rt.ConnClosed(rt.ConnID(c.Conn)), "removal closes every pooled connection")
	}
	for i := 0; i < 2; i++ {
		usable(cp.Get(), addr)
	}
	rt.Reach("end")
}

// Nobody answers at an address.
//gosym: reach=nothing nonative budget=100
//bound: no dial succeeds; 0..2 pooled connections, shut down by others
func Check_Refused() {
	ok := true
	dials := 0
	rt.HookDial(func(string) bool {
		dials++
		rt.Assert(dials <= 50, "a connection is tried for only a few times")
		return ok
	})
	rt.HookState(func(string, int) connectivity.State { return connectivity.TransientFailure })
	cp := util.NewConnectionPool(addr)
	for i, k := 0, rt.Choose("n", 3); i < k; i++ {
		c := cp.NewConnection(addr)
		cp.Put(c)
		c.Conn.Close()
	}
	ok = false
	for i := 0; i < 3; i++ {
		rt.Assert(cp.Get() == nil, "no connection is handed out when there is none")
	}
	rt.Reach("nothing")
}

// Many users at once share connections; all of them are closed on removal.
//gosym: reach=end nonative budget=100
//bound: 45 users holding connections at the same time and returning them, all healthy; then removal
func Check_ManyUsers() {
	rt.HookDial(func(string) bool { return true })
	rt.HookState(func(string, int) connectivity.State { return connectivity.Ready })
	cp := util.NewConnectionPool(addr)
	var held []*util.Connection
	for i := 0; i < 45; i++ {
		c := cp.Get()
		rt.Assert(c != nil, "a connection is found when dialling succeeds")
		usable(c, addr)
		held = append(held, c)
	}
	for _, c := range held {
		cp.PutIfHealthy(c)
	}
	cp.CloseAll()
	for _, c := range held {
		rt.Assert(rt.ConnClosed(rt.ConnID(c.Conn)), "removal closes every pooled connection")
	}
	rt.Reach("end")
}

// The cache of pools.
//gosym: reach=nothing,connection,removed,end nonative budget=300
//bound: 4 operations (thorough 5) over two addresses: get, return, close, removal of an address or of all; every outcome of dials, states all healthy or all broken; the cache has done its bookkeeping before the next operation
//
//gosym:thorough budget=900
func Check_Cache() {
	good := true
	dials := map[string]int{}
	rt.HookDial(func(a string) bool { dials[a]++; return rt.Bool("dial") })
	rt.HookState(func(string, int) connectivity.State {
		if good {
			return connectivity.Ready
		}
		return connectivity.TransientFailure
	})
	rt.NoPreempt(func() {
		cc := util.NewConnectionCache()
		addrs := []string{"p:1", "q:2"}
		type use struct {
			c *util.Connection
			a string
		}
		var held []use
		pooled := map[string][]int{}
		gone := map[int]bool{}
		for i, k := 0, rt.Bound(4, 5); i < k; i++ {
			switch op := rt.Choose("op", 6); {
			case op == 0:
				a := addrs[rt.Choose("addr", 2)]
				c := cc.Get(a)
				rt.Quiesce()
				usable(c, a)
				if c != nil {
					rt.Assert(!gone[rt.ConnID(c.Conn)], "a connection of a removed address is not handed out")
					held = append(held, use{c, a})
				}
			case op == 1 && len(held) > 0:
				h := held[len(held)-1]
				held = held[:len(held)-1]
				cc.Put(h.c)
				rt.Quiesce()
				if good {
					pooled[h.a] = append(pooled[h.a], rt.ConnID(h.c.Conn))
				}
			case op == 2 && len(held) > 0:
				cc.Close(held[len(held)-1].c)
				held = held[:len(held)-1]
			case op == 3:
				good = !good
			case op >= 4:
				var as []string
				if op == 4 {
					as = []string{addrs[rt.Choose("addr", 2)]}
					cc.Provider.Invalidate(as[0])
				} else {
					as = addrs
					cc.Provider.InvalidateAll()
				}
				rt.Quiesce()
				rt.Reach("removed")
				for _, a := range as {
					for _, id := range pooled[a] {
						rt.Assert(rt.ConnClosed(id), "removing an address closes its pooled connections")
						gone[id] = true
					}
					pooled[a] = nil
				}
			}
		}
	})
	rt.Reach("end")
}

// More addresses than the cache keeps.
//gosym: reach=end nonative steps=20000000 budget=200
//bound: 103 addresses, one connection each, all healthy
func Check_Overflow() {
	rt.HookDial(func(a string) bool { return true })
	rt.HookState(func(string, int) connectivity.State { return connectivity.Ready })
	rt.NoPreempt(func() {
		cc := util.NewConnectionCache()
		for i := 0; i < 103; i++ {
			a := fmt.Sprintf("p:%d", i)
			c := cc.Get(a)
			rt.Assert(c != nil, "a connection is found when dialling succeeds")
			usable(c, a)
			cc.Put(c)
			rt.Quiesce()
		}
		open := 0
		for i, k := 0, rt.ConnCount(); i < k; i++ {
			if !rt.ConnClosed(i) {
				open++
			}
		}
		rt.Assert(open <= 101, "connections of addresses dropped from the cache are closed")
	})
	rt.Reach("end")
}

// Users, failures and removal at the same time.
//gosym: preempt=1 reach=end nonative budget=300
//bound: two users getting and returning a connection, and (or not) a removal at the same time, every interleaving with at most 1 (thorough 2) preemptions
//
//gosym:thorough preempt=2 budget=900
func Check_AtOnce() {
	dials := 0
	rt.HookDial(func(string) bool { rt.NoPreempt(func() { dials++ }); return true })
	rt.HookState(func(string, int) connectivity.State { return connectivity.Ready })
	cp := util.NewConnectionPool(addr)
	done := make(chan bool, 3)
	user := func() {
		c := cp.Get()
		if c != nil {
			rt.Assert(c.Address == addr && c.Conn != nil, "a connection handed out goes to the requested address")
			cp.PutIfHealthy(c)
		}
		done <- true
	}
	go user()
	go user()
	removal := rt.Choose("removal", 2) == 1
	if removal {
		cp.CloseAll()
	}
	<-done
	<-done
	hkit.Settle()
	rt.Preempt(0)
	before := dials
	c := cp.Get()
	usable(c, addr)
	if removal {
		rt.Assert(dials == before, "a removed pool opens no connections")
	} else {
		rt.Assert(c != nil, "a connection is found when dialling succeeds")
	}
	rt.Reach("end")
}
