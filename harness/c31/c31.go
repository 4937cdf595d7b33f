// Package c31: the server runs as configured and stops in order.
package c31

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"syscall"

	"github.com/bgokden/veri/data"
	veriserviceserver "github.com/bgokden/veri/server"
	"github.com/bgokden/veri/state"
	"github.com/bgokden/veri/verifh/hkit"
	rt "github.com/bgokden/veri/verifrt"
	pb "github.com/bgokden/veri/veriservice"
)

const start = 1000000000

// world is what the server process does to its surroundings.
type world struct {
	listened []string                // addresses listened on
	service  pb.VeriServiceServer    // what is served
	http     map[string]http.Handler // by address
	joins    map[string]*pb.Peer     // last announcement sent to an address
	dialed   map[string]int
	signals  []chan<- os.Signal
	sigs     []map[os.Signal]bool
	inserted map[string][]*pb.Datum // by dataset
	counted  map[string]int         // entries of a peer, for its statistics
}

// surround starts recording. canListen: the port is free; serve is what serving does.
func surround(canListen bool, serve func() error) *world {
	rt.SetClock(start)
	state.Health, state.Ready, state.Drain = false, true, false
	w := &world{http: map[string]http.Handler{}, joins: map[string]*pb.Peer{}, dialed: map[string]int{}, inserted: map[string][]*pb.Datum{}, counted: map[string]int{}}
	rt.HookListen(func(network, address string) bool {
		rt.Assert(network == "tcp" || network == "tcp4", "the server listens on TCP")
		w.listened = append(w.listened, address)
		return canListen
	})
	rt.HookRegister(func(s interface{}) { w.service = s.(pb.VeriServiceServer) })
	rt.HookServe(serve)
	rt.HookHTTP(func(a string, h http.Handler) error {
		w.http[a] = h
		select {}
	})
	rt.HookNotify(func(c chan<- os.Signal, sigs ...os.Signal) {
		m := map[os.Signal]bool{}
		for _, s := range sigs {
			m[s] = true
		}
		w.signals = append(w.signals, c)
		w.sigs = append(w.sigs, m)
	})
	rt.HookDial(func(a string) bool { w.dialed[a]++; return true })
	rt.HookInvoke(func(a, method string, in interface{}, out interface{}) error {
		switch r := in.(type) {
		case *pb.JoinRequest:
			w.joins[a] = r.GetPeer()
			return nil
		case *pb.AddPeerRequest, *pb.PingRequest:
			return nil
		case *pb.GetDataRequest:
			if o, ok := out.(*pb.DataInfo); ok {
				o.Name, o.N, o.Avg = r.GetName(), uint64(w.counted[r.GetName()]), []float32{9}
			}
			return nil
		case *pb.InsertionRequest:
			w.inserted[r.GetDataName()] = append(w.inserted[r.GetDataName()], r.GetDatum())
			return nil
		}
		return errors.New("unavailable")
	})
	return w
}

// signal delivers a signal to everybody who asked for it.
func (w *world) signal(s os.Signal) {
	for i, c := range w.signals {
		if len(w.sigs[i]) == 0 || w.sigs[i][s] {
			select {
			case c <- s:
			default:
			}
		}
	}
}

func config(services, broadcast, directory string, port int) map[string]interface{} {
	return map[string]interface{}{"services": services, "broadcast": broadcast, "directory": directory, "port": port}
}

func forever() error { select {} }

func broken() error { return errors.New("serving failed") }

func has(l []string, s string) bool {
	r := false
	for _, x := range l {
		r = rt.Or(r, rt.StrEq(x, s))
	}
	return r
}

// What the configuration says reaches the node.
//gosym: reach=withport,without,several nonative budget=200
//gosym:thorough budget=900
//bound: 0..2 services, 4 ports, a broadcast list of 0..5 (thorough 7) arbitrary printable bytes split into addresses at its commas; served until the first synchronisation is over
func Check_Config() {
	w := surround(true, forever)
	services := [][]string{{}, {"s:1"}, {"s:1", "t:2"}}[rt.Choose("services", 3)]
	port := []int{1, 80, 10000, 65535}[rt.Choose("port", 4)]
	b := rt.Bytes("broadcast", rt.Choose("length", rt.Bound(6, 8)))
	var addrs []string
	cur, colon := []byte{}, false
	end := func() {
		rt.Assume(len(cur) > 0)
		s := string(cur)
		if !colon {
			s += ":" + strconv.Itoa(port)
			rt.Reach("without")
		} else {
			rt.Reach("withport")
		}
		addrs = append(addrs, s)
		cur, colon = []byte{}, false
	}
	for _, c := range b {
		rt.Assume(rt.And(c > 32, c < 127))
		if c == ',' {
			end()
			continue
		}
		colon = colon || c == ':'
		cur = append(cur, c)
	}
	if len(b) > 0 {
		end()
	}
	if len(addrs) > 1 {
		rt.Reach("several")
	}
	returned := false
	rt.NoPreempt(func() {
		go func() {
			veriserviceserver.RunServer(config(strings.Join(services, ","), string(b), rt.Scratch()+"/data", port))
			returned = true
		}()
		rt.Quiesce()
	})
	rt.Assert(!returned && w.service != nil, "the server serves")
	rt.Assert(len(w.listened) == 1 && strings.HasSuffix(w.listened[0], ":"+strconv.Itoa(port)), "the server listens on the configured port")
	rt.Assert(len(w.joins) == len(services), "exactly the configured services are joined")
	for _, s := range services {
		p := w.joins[s]
		rt.Assert(p != nil, "every configured service is joined")
		for _, a := range addrs {
			rt.Assert(has(p.AddressList, a), "every broadcast address is announced, with the server's port if it has none")
		}
		for _, a := range p.AddressList {
			rt.Assert(has(addrs, a), "nothing but the broadcast addresses is announced")
		}
		rt.Assert(len(p.ServiceList) == len(services), "the configured services are announced")
		for _, t := range services {
			rt.Assert(has(p.ServiceList, t), "the configured services are announced")
		}
	}
	// the same to whoever asks later
	for _, p := range w.joins {
		rt.Assert(p.Timestamp == start, "an announcement carries the current time")
	}
}

// names of the datasets stored in a directory
func stored(dir string) (l []string) {
	rt.NoPreempt(func() {
		dts := data.NewDataset(dir)
		for _, c := range dts.DataConfigList() {
			l = append(l, c.GetName())
		}
		rt.Quiesce()
	})
	return
}

// A server that cannot serve leaves the data where they are.
//gosym: reach=given,temporary nonative budget=200
//bound: data directory given or not, 0..2 datasets stored in it by an earlier run; the port is taken, or serving stops with an error or without
func Check_DirectoryKept() {
	rt.SetClock(start)
	dir := rt.Scratch() + "/data"
	n := rt.Choose("stored", 3)
	rt.NoPreempt(func() {
		dts := data.NewDataset(dir)
		for i := 0; i < n; i++ {
			rt.Assert(dts.CreateIfNotExists(&pb.DataConfig{Name: []string{"a", "b"}[i], NoTarget: true}) == nil, "the dataset is created")
		}
		dts.SaveIndex()
		rt.Quiesce()
	})
	canListen, serve := false, broken
	switch rt.Choose("failure", 3) {
	case 1:
		canListen = true
	case 2:
		canListen, serve = true, func() error { return nil }
	}
	surround(canListen, serve)
	given := rt.Choose("given", 2) == 1
	c := ""
	if given {
		c = dir
		rt.Reach("given")
	} else {
		rt.Reach("temporary")
	}
	rt.NoPreempt(func() {
		veriserviceserver.RunServer(config("", "", c, 10000))
		rt.Quiesce()
	})
	for _, p := range rt.RemovedPaths() {
		rt.Assert(!strings.HasPrefix(dir+"/", strings.TrimSuffix(p, "/")+"/"), "the data directory is not removed")
	}
	l := stored(dir)
	rt.Assert(len(l) == n, "a restart finds the datasets that were stored")
}

// A server that starts again serves and announces what the directory has.
//gosym: reach=end nonative budget=200
//bound: 0..2 datasets with any target stored in the given directory by an earlier run, one dataset created while serving; the index as the periodic task saves it
func Check_Restart() {
	rt.SetClock(start)
	dir := rt.Scratch() + "/data"
	n := rt.Choose("stored", 3)
	target := rt.U64("target")
	names := []string{"a", "b"}[:n]
	rt.NoPreempt(func() {
		dts := data.NewDataset(dir)
		for _, s := range names {
			rt.Assert(dts.CreateIfNotExists(&pb.DataConfig{Name: s, TargetN: target}) == nil, "the dataset is created")
		}
		dts.SaveIndex()
		rt.Quiesce()
	})
	w := surround(true, forever)
	rt.NoPreempt(func() {
		go veriserviceserver.RunServer(config("s:1", "me:1", dir, 10000))
		rt.Quiesce()
	})
	rt.Assert(w.service != nil && w.joins["s:1"] != nil, "the server serves and joins")
	l := w.joins["s:1"].DataList
	rt.Assert(len(l) == n, "exactly the stored datasets are announced")
	for _, s := range names {
		ok := false
		for _, c := range l {
			if c.GetName() == s {
				rt.Assert(c.GetTargetN() == target, "a stored dataset keeps its configuration")
				ok = true
			}
		}
		rt.Assert(ok, "every stored dataset is announced")
	}
	ctx := context.Background()
	rt.NoPreempt(func() {
		_, err := w.service.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: "c", NoTarget: true})
		rt.Assert(err == nil, "the dataset is created")
		_, err = w.service.Insert(ctx, &pb.InsertionRequest{DataName: "c", Datum: &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}, Value: &pb.DatumValue{}}})
		rt.Assert(err == nil, "an insert in service is accepted")
		rt.Quiesce()
	})
	ok := false
	for _, s := range stored(dir) {
		ok = ok || s == "c"
	}
	rt.Assert(ok, "what is created while serving is stored in the given directory")
	rt.Reach("end")
}

// A signal makes the node hand over its data before it exits.
//gosym: reach=exit,handed nonative fair=20000 hang budget=300
//bound: SIGINT or SIGTERM, once or twice, a node with 1..2 (thorough 3) entries, of any lifetime above 10 s or none, in 1..2 datasets and one peer that has both datasets and accepts everything
func Check_Signal() {
	w := surround(true, forever)
	exited := 0
	type stored struct {
		name string
		v    uint64
	}
	var all []stored
	rt.HookExit(func(code int) {
		rt.Assert(code == 0, "an orderly exit has code 0")
		rt.Assert(get(w, "/ready") != 200, "a node that exits is not ready")
		for _, s := range all {
			got := false
			for _, d := range w.inserted[s.name] {
				got = got || d.GetValue().GetVersion() == s.v
			}
			rt.Assert(got, "before the node exits every entry is handed over")
			rt.Reach("handed")
		}
		exited++
		rt.Reach("exit")
		select {}
	})
	ctx := context.Background()
	n := 1 + rt.Choose("n", rt.Bound(2, 3))
	sets := []string{"a", "b"}[:1+rt.Choose("sets", 2)]
	rt.NoPreempt(func() {
		go veriserviceserver.RunServer(config("", "me:1", rt.Scratch()+"/data", 10000))
		rt.Quiesce()
		rt.Assert(w.service != nil && get(w, "/ready") == 200 && get(w, "/health") == 200, "the node is in service")
		var cs []*pb.DataConfig
		for _, s := range sets {
			c := &pb.DataConfig{Name: s, NoTarget: true}
			_, err := w.service.CreateDataIfNotExists(ctx, c)
			rt.Assert(err == nil, "the dataset is created")
			cs = append(cs, c)
		}
		for i := 0; i < n; i++ {
			s := sets[i%len(sets)]
			v := uint64(i + 1)
			ttl := rt.U64("ttl")
			rt.Assume(rt.Or(ttl == 0, rt.And(ttl > 10, ttl < 1<<40)))
			_, err := w.service.Insert(ctx, &pb.InsertionRequest{DataName: s, Datum: &pb.Datum{Key: &pb.DatumKey{Feature: []float32{float32(i)}}, Value: &pb.DatumValue{Version: v}}, Config: &pb.InsertConfig{TTL: ttl}})
			rt.Assert(err == nil, "an insert in service is accepted")
			all = append(all, stored{s, v})
		}
		_, err := w.service.AddPeer(ctx, &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"p:1"}, Timestamp: start, DataList: cs}})
		rt.Assert(err == nil, "the peer is accepted")
		rt.FireTickers(60)
		rt.Quiesce()
	})
	rt.Assert(exited == 0 && get(w, "/ready") == 200, "without a signal the node stays in service")
	s := []os.Signal{os.Interrupt, syscall.SIGTERM}[rt.Choose("signal", 2)]
	w.signal(s)
	if rt.Choose("again", 2) == 1 {
		w.signal(s)
	}
	rt.Quiesce() // the hand-over is awaited by looking again and again
	rt.Assert(exited == 1, "a node that was told to stop exits once everything is handed over")
}

type response struct {
	code int
	body []byte
	h    http.Header
}

func (r *response) Header() http.Header { return r.h }
func (r *response) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func request(w *world, method, path string) int {
	h := w.http[":8000"]
	rt.Assert(h != nil, "the endpoints are served")
	r := &response{h: http.Header{}}
	h.ServeHTTP(r, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Host: "localhost", RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1})
	return r.code
}

func get(w *world, path string) int { return request(w, "GET", path) }

// The endpoints.
//gosym: reach=end nonative budget=100
//bound: GET of 4 paths, all values of the three state flags
func Check_Endpoints() {
	w := surround(true, forever)
	rt.NoPreempt(func() {
		go veriserviceserver.RunServer(config("", "", rt.Scratch()+"/data", 10000))
		rt.Quiesce()
	})
	rt.Assert(state.Health, "a started server is healthy")
	h, r, d := rt.Bool("health"), rt.Bool("ready"), rt.Bool("drain")
	state.Health, state.Ready, state.Drain = h, r, d
	rt.Assert((get(w, "/health") == 200) == h, "the health endpoint answers 200 exactly while the node is healthy")
	rt.Assert((get(w, "/") == 200) == h, "the root answers as the health endpoint does")
	rt.Assert((get(w, "/ready") == 200) == rt.And(r, !d), "the readiness endpoint answers 200 exactly while the node is ready and not draining")
	rt.Assert(get(w, "/other") == 404, "other paths do not exist")
	rt.Reach("end")
	hkit.Settle()
}
