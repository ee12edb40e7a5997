// Package zzverif is the vocabulary of the verification harnesses. The symbolic engine
// intercepts these functions; the bodies below replay recorded values on the real code.
package zzverif

import (
	"bufio"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

type jval struct {
	N string `json:"n"`
	W int    `json:"w"`
	V string `json:"v"`
}

type request struct {
	H        string `json:"h"`
	Thorough bool   `json:"thorough"`
	Vals     []jval `json:"vals"`
	Search   int    `json:"search"`
}

type response struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Vals   []jval   `json:"vals,omitempty"`
}

type stop struct{ status, msg string }

var (
	vals     []jval
	pos      int
	obs      []string
	thorough bool
	allocLim uint64
	alloc0   uint64
)

func take(name string, w int) string {
	if pos >= len(vals) {
		panic(stop{"desync", "no value for " + name})
	}
	for name != "clock" && vals[pos].N == "clock" && pos+1 < len(vals) {
		pos++ // the real clock is read
	}
	v := vals[pos]
	pos++
	if v.N != name || v.W != w {
		panic(stop{"desync", fmt.Sprintf("want %s/%d have %s/%d", name, w, v.N, v.W)})
	}
	return v.V
}

func num(name string, w int) uint64 {
	s := take(name, w)
	b, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(stop{"desync", "bad value for " + name})
	}
	return b.Uint64()
}

// Symbolic tells whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// Thorough selects the deeper bounds.
func Thorough() bool { return thorough }

func U8(name string) uint8   { return uint8(num(name, 8)) }
func U16(name string) uint16 { return uint16(num(name, 16)) }
func U32(name string) uint32 { return uint32(num(name, 32)) }
func U64(name string) uint64 { return num(name, 64) }
func I64(name string) int64  { return int64(num(name, 64)) }
func I32(name string) int32  { return int32(num(name, 32)) }
func Int(name string) int    { return int(num(name, 64)) }
func Bool(name string) bool  { return num(name, 0) != 0 }

// IntIn is an int in [lo,hi], left symbolic.
func IntIn(name string, lo, hi int) int {
	v := int(num(name, 64))
	Assume(lo <= v && v <= hi)
	return v
}

// Bytes are n symbolic bytes.
func Bytes(name string, n int) []byte {
	b, err := hex.DecodeString(take(name, 8))
	if err != nil || len(b) != n {
		panic(stop{"desync", "length of " + name})
	}
	return b
}

// Str is a string of n symbolic bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose is an int in [lo,hi], enumerated (concrete on each path).
func Choose(name string, lo, hi int) int { return int(num(name, 64)) }

// Concrete forces the engine to enumerate a value.
func Concrete(v int) int { return v }

func Assume(b bool) {
	if !b {
		panic(stop{"assume", ""})
	}
}

func Assert(b bool, label string) {
	if !b {
		panic(stop{"assert", label})
	}
}

func Reach(label string)     {}
func Bound(text string)      {}
func Assumption(text string) {}
func MaxSteps(n int)         {}
func Abstract(name string) {
	if name == "paillier" { // runs for real when replayed
		rand.Reader = realRand
	}
}

func AllocLimit(n int) {
	allocLim = uint64(n)
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	alloc0 = ms.TotalAlloc
}

func checkAlloc() {
	if allocLim == 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if d := ms.TotalAlloc - alloc0; d > allocLim {
		panic(stop{"alloc", fmt.Sprintf("allocated %d bytes (limit %d)", d, allocLim)})
	}
}

// Observe records a value for translator validation.
func Observe(label string, v int) { obs = append(obs, fmt.Sprintf("%s=%016x", label, uint64(v))) }

// ObserveBytes records bytes for translator validation.
func ObserveBytes(label string, b []byte) { obs = append(obs, fmt.Sprintf("%s=%x", label, b)) }

// Eq, EqStr, And, Or do not branch.
func Eq(a, b []byte) bool    { return string(a) == string(b) }
func EqStr(a, b string) bool { return a == b }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

var realRand = rand.Reader

type randReader struct{}

func (randReader) Read(p []byte) (int, error) {
	b, err := hex.DecodeString(take("rand", 8))
	if err != nil || len(b) != len(p) {
		panic(stop{"desync", "rand length"})
	}
	copy(p, b)
	return len(p), nil
}

// Main serves replay requests (one JSON object per line).
func Main(tab map[string]func()) {
	rand.Reader = randReader{}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		if strings.TrimSpace(line) != "" {
			var rq request
			if e := json.Unmarshal([]byte(line), &rq); e != nil {
				fmt.Println(`{"status":"desync","msg":"request"}`)
			} else {
				rs := serve(tab, &rq)
				if rq.Search > 0 {
					rs = search(tab, &rq, rs)
				}
				b, _ := json.Marshal(rs)
				fmt.Println(string(b))
			}
		}
		if err != nil {
			return
		}
	}
}

// search retries a counterexample that depends on what a hash gives, which the solver is free to choose: inputs whose
// name starts with ~ are drawn at random until the real code fails too.
func search(tab map[string]func(), rq *request, rs response) response {
	rnd := mrand.New(mrand.NewSource(1))
	end := time.Now().Add(time.Duration(rq.Search) * time.Second)
	for i := 0; i < 20000 && (rs.Status == "ok" || rs.Status == "assume" || rs.Status == "desync") && time.Now().Before(end); i++ {
		r2 := *rq
		r2.Vals = append([]jval{}, rq.Vals...)
		for j := range r2.Vals {
			v := &r2.Vals[j]
			if strings.HasPrefix(v.N, "~") {
				b := []byte(v.V)
				for k := range b {
					b[k] = "0123456789abcdef"[rnd.Intn(16)]
				}
				v.V = string(b)
			}
		}
		if x := serve(tab, &r2); x.Status != "ok" && x.Status != "assume" && x.Status != "desync" {
			x.Vals = r2.Vals
			return x
		}
	}
	return rs
}

func serve(tab map[string]func(), rq *request) (rs response) {
	f := tab[rq.H]
	if f == nil {
		return response{Status: "desync", Msg: "no harness " + rq.H}
	}
	vals, pos, obs, thorough, allocLim = rq.Vals, 0, nil, rq.Thorough, 0
	defer func() {
		rs.Obs = obs
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				rs.Status, rs.Msg = s.status, s.msg
				return
			}
			if _, ok := r.(runtime.Error); ok && strings.Contains(fmt.Sprint(r), "zzverif") {
				rs.Status = "desync"
			}
			rs.Status, rs.Msg = "panic", fmt.Sprint(r)
			if os.Getenv("ZZ_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	checkAlloc()
	rs.Status = "ok"
	return rs
}

// Task is something that is done at the same time as what the harness does.
type Task struct {
	f    func()
	done chan struct{}
	pan  any
	left bool
}

// Go starts f. When Go returns, f is done or waits for a lock.
// (In the engine, a task that has to wait is started anew by Wait; taking the lock must be the first thing it does.)
func Go(f func()) *Task {
	t := &Task{f: f}
	if Symbolic() {
		t.left = !tryRun(f)
		return t
	}
	t.done = make(chan struct{})
	go func() {
		defer close(t.done)
		defer func() { t.pan = recover() }()
		f()
	}()
	select {
	case <-t.done:
	case <-time.After(300 * time.Millisecond):
	}
	return t
}

// Wait waits until the task is done.
func (t *Task) Wait() {
	if Symbolic() {
		if t.left {
			t.left = false
			t.f()
		}
		return
	}
	<-t.done
	if t.pan != nil {
		panic(t.pan)
	}
}

// JSONFirst is for stand-ins in the engine: the length of the first JSON value, and whether more text is needed.
func JSONFirst(b []byte) (used int, more bool) { panic("engine only") }
