// Package verifrt is the runtime of the check harnesses. The solver-based engine gives every function here its
// symbolic meaning; the bodies below are the native meaning, used when a counterexample (or a sampled path) is
// replayed against the real compiled code with concrete inputs.
package verifrt

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
)

// RuntimeError is the type of run-time panics raised by interpreted code.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

type assumeFail struct{}
type assertFail struct{ msg string }

var (
	mu      sync.Mutex
	inputs  map[string]uint64
	cnt     map[string]int
	obs     []ObsRec
	missing []string
	tier    string
	scratch string
	removed []string
	made    []string
	fails   []string
	clockOn bool
	clock   time.Time
	tickMax uint64
	mainGID int64
)

type ObsRec struct {
	Name string
	V    uint64
}

// Case is one native run.
type Case struct {
	Harness string
	Inputs  map[string]uint64
	Tier    string
}

// Outcome is what happened.
type Outcome struct {
	Status  string // ok, violation, panic, assume
	Msg     string
	Obs     []ObsRec
	Missing []string
}

// RunCase runs f with the given inputs.
func RunCase(c Case, f func()) (o Outcome) {
	mu.Lock()
	inputs, cnt, obs, missing, tier = c.Inputs, map[string]int{}, nil, nil, c.Tier
	removed, made, fails = nil, nil, nil
	clockOn, tickMax = false, 0
	mainGID = goid()
	region = nil
	if base := os.Getenv("VERIFRT_SCRATCH"); base != "" {
		d, err := os.MkdirTemp(base, "case")
		if err == nil {
			scratch = d
		}
	}
	mu.Unlock()
	defer func() {
		r := recover()
		mu.Lock()
		defer mu.Unlock()
		o.Obs, o.Missing = obs, missing
		switch x := r.(type) {
		case nil:
			o.Status = "ok"
		case assumeFail:
			o.Status = "assume"
		case assertFail:
			o.Status, o.Msg = "violation", x.msg
		default:
			o.Status, o.Msg = "panic", fmt.Sprint(r)
		}
		if len(fails) > 0 {
			o.Status, o.Msg = "violation", strings.Join(fails, "; ")
		}
	}()
	f()
	return
}

// MainLoop is the body of the generated native program: cases on stdin, outcomes on stdout.
func MainLoop(table map[string]func()) {
	var cs []Case
	if err := json.NewDecoder(os.Stdin).Decode(&cs); err != nil {
		fmt.Println("bad input:", err)
		os.Exit(3)
	}
	enc := json.NewEncoder(os.NewFile(3, "out"))
	for _, c := range cs {
		f, ok := table[c.Harness]
		if !ok {
			enc.Encode(Outcome{Status: "unknown"})
			continue
		}
		enc.Encode(RunCase(c, f))
	}
}

func input(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, cnt[name])
	cnt[name]++
	v, ok := inputs[k]
	if !ok {
		missing = append(missing, k)
	}
	return v
}

func U8(name string) uint8   { return uint8(input(name)) }
func U16(name string) uint16 { return uint16(input(name)) }
func U32(name string) uint32 { return uint32(input(name)) }
func U64(name string) uint64 { return input(name) }
func I64(name string) int64  { return int64(input(name)) }

// Int is an integer in lo..hi.
func Int(name string, lo, hi int) int {
	v := int(input(name))
	if v < lo || v > hi {
		panic(assumeFail{})
	}
	return v
}
func Bool(name string) bool   { return input(name) == 1 }
func F32(name string) float32 { return math.Float32frombits(uint32(input(name))) }
func F64(name string) float64 { return math.Float64frombits(input(name)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(input(name))
	}
	return b
}
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose is a case split 0..n-1.
func Choose(name string, n int) int { return int(input(name)) % n }

func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}
func Assert(b bool, msg string) {
	if !b {
		if goid() == mainGID {
			panic(assertFail{msg})
		}
		mu.Lock()
		fails = append(fails, msg)
		mu.Unlock()
	}
}
func Reach(label string) {}

// Connectives that do not split paths.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func StrEq(a, b string) bool      { return a == b }
func BytesEq(a, b []byte) bool    { return string(a) == string(b) }
func F32BitsEq(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func F64BitsEq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// SetClock sets the wall clock (unix seconds) seen by the code under test.
func SetClock(sec int64) {
	mu.Lock()
	clockOn, clock = true, time.Unix(sec, 0)
	mu.Unlock()
}

// Tick lets the clock advance by up to max seconds at every reading by repository code.
func Tick(max int) { mu.Lock(); tickMax = uint64(max); mu.Unlock() }

func NowUnix() int64 { return NowLib().Unix() }

// NowLib is the clock as dependencies see it.
func NowLib() time.Time {
	mu.Lock()
	defer mu.Unlock()
	if !clockOn {
		return time.Now()
	}
	return clock
}

// Now is the clock as repository code sees it.
func Now() time.Time {
	mu.Lock()
	on, tm := clockOn, tickMax
	mu.Unlock()
	if !on {
		return time.Now()
	}
	if tm > 0 {
		t := input("tick")
		mu.Lock()
		clock = clock.Add(time.Duration(t) * time.Second)
		mu.Unlock()
	}
	return NowLib()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func RandFloat64() float64 { return float64(input("rand")) / 65536 }

func RandIntn(n int) int       { return int(input("rand")) }
func RandInt63n(n int64) int64 { return int64(input("rand")) }
func RandInt31n(n int32) int32 { return int32(input("rand")) }

func Observe(name string, v uint64) {
	mu.Lock()
	obs = append(obs, ObsRec{name, v})
	mu.Unlock()
}
func ObserveF(name string, v float64) { Observe(name, math.Float64bits(v)) }
func ObserveI(name string, v int)     { Observe(name, uint64(v)) }
func ObserveB(name string, v bool)    { Observe(name, IteU(v, 1, 0)) }

func Thorough() bool { return tier == "thorough" }
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}
func Symbolic() bool { return false }

// LimitAlloc makes an allocation of more than n elements a violation.
func LimitAlloc(n int) {}

// Quiesce lets all other goroutines run until they block.
func Quiesce() {
	runtime.Gosched()
	time.Sleep(30 * time.Millisecond)
}

// FireTickers lets every running ticker with a period of at most sec seconds fire once.
func FireTickers(sec int) {}

// Advance lets timers due within the next sec seconds fire.
func Advance(sec int) { time.Sleep(30 * time.Millisecond) }

func Concrete(n int) int             { return n }
func IsConcreteString(s string) bool { return true }
func RemovedPaths() []string         { mu.Lock(); defer mu.Unlock(); return append([]string(nil), removed...) }
func MadeDirs() []string             { mu.Lock(); defer mu.Unlock(); return append([]string(nil), made...) }
func Scratch() string                { return scratch }
func FileContent(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

func Preempt(n int)          {}
func NoPreempt(f func())     { f() }
func Goroutines() int        { return 0 }
func Running(sub string) int { return 0 }

// Hooks into the transport: only meaningful symbolically.
func HookDial(f func(address string) bool)                                             {}
func HookState(f func(address string, id int) connectivity.State)                      {}
func HookInvoke(f func(address, method string, in interface{}, out interface{}) error) {}
func HookStream(f func(address, method string) (grpc.ClientStream, error))             {}

// ... and those of the process and its servers.
func HookNotify(f func(c chan<- os.Signal, sigs ...os.Signal))    {}
func HookExit(f func(code int))                                   {}
func HookListen(f func(network, address string) bool)             {}
func HookRegister(f func(service interface{}))                    {}
func HookServe(f func() error)                                    {}
func HookHTTP(f func(address string, handler http.Handler) error) {}

// PoolAny: a sync.Pool returns the most recently put item (0), any item (1), or any or none of them (2).
func PoolAny(mode int)         {}
func ConnCount() int           { return 0 }
func ConnClosed(i int) bool    { return false }
func ConnID(c interface{}) int { return 0 }

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var id int64
	fmt.Sscanf(string(b[:n]), "goroutine %d", &id)
	return id
}

// ---- crash regions and file wrappers (native)
type crashT struct {
	ops, max int
	at, cut  uint64
	crashed  bool
	ch       chan bool
}

var region *crashT

// Crash runs f as a process that may stop for good at any file operation; reports whether it did.
func Crash(max int, f func()) bool {
	r := &crashT{max: max, at: input("crashat"), cut: input("crashcut"), ch: make(chan bool, 2)}
	mu.Lock()
	region = r
	mu.Unlock()
	go func() {
		f()
		r.ch <- false
	}()
	return <-r.ch
}
func KillProcess() {
	mu.Lock()
	if region != nil {
		region.crashed = true
	}
	mu.Unlock()
}

// crashPoint returns how many bytes may still be written (-1: all) and blocks the dead process for good.
func crashPoint(n int) (cut int, die func()) {
	mu.Lock()
	r := region
	if r == nil || goid() == mainGID {
		mu.Unlock()
		return -1, nil
	}
	if r.crashed {
		mu.Unlock()
		select {}
	}
	i := r.ops
	r.ops++
	if (r.max > 0 && i >= r.max) || uint64(i) != r.at {
		mu.Unlock()
		return -1, nil
	}
	r.crashed = true
	mu.Unlock()
	if n > 1 {
		switch r.cut {
		case 1:
			cut = n / 2
		case 2:
			cut = n - 1
		}
	}
	return cut, func() { r.ch <- true; select {} }
}

func op() {
	if _, die := crashPoint(0); die != nil {
		die()
	}
}

func inScratch(p string) bool {
	return scratch != "" && strings.HasPrefix(filepath.Clean(p)+"/", scratch+"/")
}

// File stands in for os.File in the rewritten packages.
type File struct{ F *os.File }

func (f *File) Write(b []byte) (int, error) {
	cut, die := crashPoint(len(b))
	if die != nil {
		f.F.Write(b[:cut])
		die()
	}
	return f.F.Write(b)
}
func (f *File) WriteString(s string) (int, error)  { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (int, error)         { return f.F.Read(b) }
func (f *File) Close() error                       { return f.F.Close() }
func (f *File) Sync() error                        { return f.F.Sync() }
func (f *File) Name() string                       { return f.F.Name() }
func (f *File) Chmod(m os.FileMode) error          { return f.F.Chmod(m) }
func (f *File) Truncate(n int64) error             { op(); return f.F.Truncate(n) }
func (f *File) Seek(o int64, w int) (int64, error) { return f.F.Seek(o, w) }
func (f *File) Stat() (os.FileInfo, error)         { return f.F.Stat() }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if flag&(os.O_TRUNC|os.O_CREATE) != 0 {
		if _, err := os.Stat(name); err != nil || flag&os.O_TRUNC != 0 {
			op()
		}
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func TempFile(dir, pattern string) (*File, error) {
	if dir == "" && scratch != "" {
		dir = scratch
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}
func MkdirAll(p string, m os.FileMode) error {
	mu.Lock()
	made = append(made, p)
	mu.Unlock()
	if inScratch(p) {
		return os.MkdirAll(p, m)
	}
	return nil
}
func RemoveAll(p string) error {
	op()
	mu.Lock()
	removed = append(removed, p)
	mu.Unlock()
	if inScratch(p) && filepath.Clean(p) != scratch {
		return os.RemoveAll(p)
	}
	return nil
}
func Remove(p string) error {
	mu.Lock()
	removed = append(removed, p)
	mu.Unlock()
	if inScratch(p) {
		op()
		return os.Remove(p)
	}
	return os.ErrNotExist
}
func Rename(a, b string) error {
	op()
	if !inScratch(a) || !inScratch(b) {
		return os.ErrPermission
	}
	return os.Rename(a, b)
}
func ReadFile(p string) ([]byte, error) { return os.ReadFile(p) }
func WriteFile(p string, b []byte, m os.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
