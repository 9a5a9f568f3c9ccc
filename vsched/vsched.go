// Package vsched runs the real code natively under a recorded schedule: one
// goroutine at a time, from one synchronisation point to the next, in the
// order the engine chose. Its functions are invisible to the race detector and
// add no happens-before edges, so a data race found by the engine shows.
package vsched

import (
	"encoding/json"
	"math/rand"
	"os"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/miniLCT/gosb/verifh/vsym"
)

type step struct {
	G, Q, C, QC int
	Kind        string
	Pos         string
}

const (
	stNone = iota
	stNew  // ready to run, waiting for its turn
	stRun
	stPark
	stDone
)

const maxG = 256

type gor struct {
	goid   uint64
	state  int
	kind   string
	choice int
	pair   int // partner of the rendezvous under way, -1 none
	order  int // 1: must let the partner block in its operation first
	posted bool
}

var debug = os.Getenv("VSCHED_DEBUG") != ""

const maxIDs = 1 << 14

var (
	gs    [maxG]gor
	ng    int
	steps []step
	at    int
	free  bool
	multi bool
	gen   int
	prog  uint64
	seed  int
	why   string
	// identities of goroutines, also of earlier jobs
	idGoid [maxIDs]uint64
	idGen  [maxIDs]int
	idIdx  [maxIDs]int
	nids   int
	rnd    uint64
	ended  atomic.Int64 // orders ended goroutines before what follows a quiesce
)

//go:norace
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

// self: index of the goroutine, -1 unknown, -2 left over from an earlier job.
//
//go:norace
func self() int {
	id := goid()
	for i := nids - 1; i >= 0; i-- {
		if idGoid[i] == id {
			if idGen[i] != gen {
				return -2
			}
			return idIdx[i]
		}
	}
	return -1
}

//go:norace
func register(i int) {
	id := goid()
	gs[i].goid = id
	if nids < maxIDs {
		idGoid[nids], idGen[nids], idIdx[nids] = id, gen, i
		nids++
	}
}

// Start begins a job: the calling goroutine is number 0.
func Start(raw json.RawMessage, sd int) {
	var s []step
	if len(raw) > 0 {
		json.Unmarshal(raw, &s)
	}
	begin(s, sd)
	vsym.Hook = Point
	vsym.QuiesceF = quiesce
	vsym.BlockedF = blocked
	if len(s) > 0 && sd == 0 {
		go watch(gen)
	}
}

//go:norace
func begin(s []step, sd int) {
	gen++
	for i := range gs {
		gs[i] = gor{pair: -1}
	}
	ng = 1
	gs[0].state = stRun
	register(0)
	steps, at, free, multi, seed = s, 0, false, false, sd
	rnd = uint64(sd)*2654435761 + 88172645463325252
	why = ""
	if len(s) == 0 || sd != 0 {
		free = true
	}
}

// Stop ends the job; goroutines still parked stay parked for good.
//
//go:norace
func Stop() {
	if debug {
		println("vsched: followed", at, "of", len(steps), "steps;", why)
	}
	gen++
	free = true
}

//go:norace
func setFree(w string) {
	if !free {
		why = w
		free = true
	}
}

//go:norace
func watch(g int) {
	last := prog
	idle := 0
	for {
		time.Sleep(5 * time.Millisecond)
		if gen != g || free {
			return
		}
		if prog != last || !multi {
			last, idle = prog, 0
			continue
		}
		idle++
		if idle > 200 {
			setFree("no progress")
			return
		}
	}
}

//go:norace
func random() uint64 {
	rnd ^= rnd << 13
	rnd ^= rnd >> 7
	rnd ^= rnd << 17
	return rnd
}

// jitter perturbs a run that follows no schedule.
//
//go:norace
func jitter() {
	if seed == 0 || !multi {
		return
	}
	switch rand.Intn(5) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.Intn(60)) * time.Microsecond)
	}
}

// dispatch hands the turn on; the caller no longer holds it.
//
//go:norace
func dispatch() {
	prog++
	for i := 0; i < ng; i++ {
		if gs[i].state == stNew {
			gs[i].state = stRun
			return
		}
	}
	if at >= len(steps) {
		setFree("schedule done")
		return
	}
	s := &steps[at]
	if s.G >= ng || gs[s.G].state != stPark || !same(gs[s.G].kind, s.Kind) ||
		s.Q >= 0 && (s.Q >= ng || gs[s.Q].state != stPark) {
		setFree("diverged at step " + s.Kind + " " + s.Pos)
		return
	}
	at++
	if debug {
		println("vsched: g", s.G, s.Q, s.Kind, s.Pos)
	}
	g := &gs[s.G]
	g.choice = s.C
	if s.Q >= 0 {
		q := &gs[s.Q]
		q.choice = s.QC
		g.pair, q.pair = s.Q, s.G
		g.posted, q.posted = false, false
		g.order = 1
		q.order = 0
		q.state = stRun
	}
	g.state = stRun
}

//go:norace
func same(a, b string) bool {
	if len(a) >= 6 && a[:6] == "atomic" {
		return len(b) >= 5 && (b[:5] == "atomi" || b[:5] == "value")
	}
	return a == b
}

// await parks the goroutine until it is granted; reports whether a schedule is
// still followed.
//
//go:norace
func await(i, g int) bool {
	for n := 0; ; n++ {
		if gen != g {
			select {}
		}
		if free {
			if gs[i].kind != "rwlock-wait" && gs[i].state == stPark && seed == 0 {
				// writers that wait for readers announce themselves first
				for k := 0; k < ng; k++ {
					if gs[k].state == stPark && gs[k].kind == "rwlock-wait" {
						time.Sleep(30 * time.Millisecond)
						break
					}
				}
			}
			gs[i].state = stRun
			return false
		}
		if gs[i].state == stRun {
			return true
		}
		if n > 1000 {
			time.Sleep(20 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

// Point is passed before every visible operation.
//
//go:norace
func Point(kind string) {
	if free || !multi {
		if free {
			stale()
			jitter()
		}
		return
	}
	i := self()
	if i == -2 {
		select {}
	}
	if i < 0 {
		return
	}
	g := gen
	gs[i].kind = kind
	gs[i].choice = -2
	gs[i].pair = -1
	gs[i].state = stPark
	dispatch()
	if await(i, g) && gs[i].pair >= 0 && gs[i].order == 1 {
		waitBlocked(gs[gs[i].pair].goid)
	}
}

// stale stops goroutines of earlier jobs.
//
//go:norace
func stale() {
	if self() == -2 {
		select {}
	}
}

// waitBlocked returns when the goroutine waits in a channel operation.
//
//go:norace
func waitBlocked(id uint64) {
	buf := make([]byte, 1<<18)
	for try := 0; try < 2000 && !free; try++ {
		n := runtime.Stack(buf, true)
		if chanWait(buf[:n], id) {
			return
		}
		runtime.Gosched()
	}
}

//go:norace
func chanWait(b []byte, id uint64) bool {
	const p = "goroutine "
	for i := 0; i+len(p) < len(b); i++ {
		if i > 0 && b[i-1] != '\n' || string(b[i:i+len(p)]) != p {
			continue
		}
		j := i + len(p)
		var n uint64
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			n = n*10 + uint64(b[j]-'0')
			j++
		}
		if n != id {
			continue
		}
		k := j
		for k < len(b) && b[k] != '\n' {
			k++
		}
		s := string(b[j:k])
		for _, w := range []string{"[chan send", "[chan receive", "[select"} {
			for x := 0; x+len(w) <= len(s); x++ {
				if s[x:x+len(w)] == w {
					return true
				}
			}
		}
		return false
	}
	return false
}

// Post is passed after a channel operation: the two sides of a rendezvous go
// on one after the other, the lower number first.
//
//go:norace
func Post() {
	if free || !multi {
		return
	}
	i := self()
	if i < 0 || gs[i].pair < 0 {
		return
	}
	g := gen
	p := gs[i].pair
	gs[i].posted = true
	for n := 0; !gs[p].posted; n++ {
		if free || gen != g {
			return
		}
		runtime.Gosched()
	}
	gs[i].pair = -1
	if i < p {
		// goes on first; the partner waits for its turn
		for gs[p].state != stNew && !free {
			runtime.Gosched()
		}
		gs[p].posted = false
		return
	}
	// both have arrived: the lower one (which sees posted) runs
	gs[i].state = stNew
	await(i, g)
}

// NewG announces a goroutine; its number follows the order of go statements.
//
//go:norace
func NewG() int {
	multi = true
	if ng >= maxG {
		setFree("too many goroutines")
		return -1
	}
	i := self()
	if i < 0 && !free {
		return -1
	}
	h := ng
	gs[h] = gor{pair: -1, state: stNew}
	ng++
	return h
}

//go:norace
func Enter(h int) {
	if h < 0 {
		return
	}
	g := gen
	register(h)
	if free {
		gs[h].state = stRun
		jitter()
		return
	}
	await(h, g)
}

//go:norace
func Exit(h int) {
	if h < 0 {
		return
	}
	i := self()
	if i != h {
		return
	}
	ended.Add(1)
	gs[h].state = stDone
	if !free {
		dispatch()
	}
}

// quiesce waits until all other goroutines are done or blocked for good.
//
//go:norace
func quiesce() {
	defer ended.Load()
	if !free && multi {
		Point("quiesce")
		if !free {
			return
		}
	}
	for n := 0; n < 2000 && (n < 60 || blocked() > 0); n++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

//go:norace
func blocked() int {
	n := 0
	for i := 1; i < ng; i++ {
		if gs[i].state != stDone {
			n++
		}
	}
	return n
}

// ---- channels ----

func Recv[T any](ch <-chan T) T {
	Point("recv")
	v := <-ch
	Post()
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	Point("recv")
	v, ok := <-ch
	Post()
	return v, ok
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		Point("send")
		ch <- v
		Post()
	}
}

func Close[T any](ch chan<- T) {
	Point("close")
	close(ch)
}

// Sel is passed before a select statement, C wraps the channel of each case.
//
//go:norace
func Sel() {
	Point("select")
}

//go:norace
func chosen(i int) bool {
	if free || !multi {
		return true
	}
	g := self()
	if g < 0 {
		return true
	}
	return gs[g].choice == -2 || gs[g].choice == i
}

func C[T any](i int, ch <-chan T) <-chan T {
	if chosen(i) {
		return ch
	}
	return nil
}

func CS[T any](i int, ch chan<- T) chan<- T {
	if chosen(i) {
		return ch
	}
	return nil
}
