// Package simrt is the deterministic scheduler the instrumented library code
// runs under.
//
// Tasks are real goroutines, but exactly one of them owns the token at any
// time; every other one is parked in a futex. Ownership moves only here, and
// only because a pseudo-random (or, on replay, recorded) decision says so.
// The scheduler itself is compiled without race instrumentation and uses no
// synchronisation the race detector knows of, so that handing over the token
// creates no happens-before edge: in a -race build the detector still sees
// the unsynchronised accesses of tasks that never really ran in parallel.
package simrt

import (
	"fmt"
	"os"
	"reflect"
	"sync"
	"syscall"
	"unsafe"
)

const (
	MaxTasks = 32   // tasks whose order is tracked for the C side
	maxSlots = 4096 // tasks there can be, see Limit
	maxRec   = 1 << 16
	never    = int64(1) << 60
)

const (
	stFree = iota
	stRunnable
	stBlocked
	stSleeping
	stDone
	stJoin
)

type task struct {
	state   int32
	primary bool
	wakeAt  int64
	site    uint32
	tag     int32
}

// Decision is one deviation of the schedule from "run on": at global step
// Step of the episode the token went to task To.
type Decision struct {
	Step int64  `json:"step"`
	To   int32  `json:"to"`
	Kind int32  `json:"kind"` // 0 preempted, 1 blocked, 2 finished, 3 start
	From int32  `json:"from"`
	Site uint32 `json:"site"`
}

// Config of one episode's schedule.
type Config struct {
	Seed      uint64     // PRNG seed of the schedule
	Mean      int64      // mean distance of random preemptions, 0: none
	SyncPct   int        // chance in % of a preemption at a sync operation
	OpPct     int        // chance in % of a preemption between operations
	MaxSteps  int64      // more steps than this is reported as no progress
	Replay    []Decision // recorded decisions to follow instead of the PRNG
	UseReplay bool
	Quiet     bool // no mark in the stream of decisions: not an episode
}

var (
	cd      int64 = never
	cdSet   int64 = never
	stepsAt int64 // steps done when cd was last loaded

	active  bool
	cur     int32 = -1
	tasks   [maxSlots]task
	word    [maxSlots + 1]uint32
	ntasks  int32
	primary int32 // primary tasks still running

	rng      uint64
	cfg      Config
	rec      [maxRec]Decision
	nrec     int
	repIdx   int
	clock    int64
	hash     uint64
	lastSite uint32

	// Counters of the whole process.
	Switches   int64
	Preempts   int64
	BlockedCnt int64
	TotalSteps int64
	SyncOps    int64
	Spawned    int64
	PoolDrops  int64
)

// Limit is how many tasks there may be at a time; the others wait. Without C
// code to judge it may be more than MaxTasks.
var Limit int32 = MaxTasks

// Idle, when set, is told that nobody can run before the given time.
var Idle func(until int64)

// Now is the simulated time, in nanoseconds since the start of the episode.
//
//go:norace
func Now() int64 { return clock }

// CountdownPtr is the address of the countdown to the next scheduling point,
// which the simulated C side decrements as well.
func CountdownPtr() unsafe.Pointer { return unsafe.Pointer(&cd) }

// CurPtr is the address of the number of the running task.
func CurPtr() unsafe.Pointer { return unsafe.Pointer(&cur) }

//go:norace
func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SplitMix advances a splitmix64 state; the generators share it.
func SplitMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func futexWait(p *uint32) {
	for *p == 0 {
		syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(p)), 128 /* WAIT|PRIVATE */, 0, 0, 0, 0)
	}
	*p = 0
}

//go:norace
func futexWake(p *uint32) {
	*p = 1
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(p)), 129 /* WAKE|PRIVATE */, 1, 0, 0, 0)
}

//go:norace
func step() int64 { return stepsAt + (cdSet - cd) }

//go:norace
func reload() {
	stepsAt += cdSet - cd
	n := never
	if active {
		if cfg.UseReplay {
			if repIdx < len(cfg.Replay) && cfg.Replay[repIdx].Kind == 0 {
				n = cfg.Replay[repIdx].Step - stepsAt
				if n < 1 {
					n = 1
				}
			}
		} else if cfg.Mean > 0 {
			// geometric-ish: uniform product keeps both short and long gaps likely
			u := next()
			n = 1 + int64(u%uint64(cfg.Mean*2))
			if (u>>40)&7 == 0 {
				n = 1 + int64((u>>44)%8)
			}
		}
		if left := cfg.MaxSteps - stepsAt + 1; n > left {
			n = left
			if n < 1 {
				n = 1
			}
		}
	}
	cd, cdSet = n, n
}

// Y is called before every statement of instrumented code.
//
//go:norace
func Y(site uint32) {
	lastSite = site
	cd--
	if cd <= 0 {
		Slow()
	}
}

// L is Y for code that runs very many statements (the ANTLR runtime).
//
//go:norace
func L(site uint32) {
	low++
	if low&31 == 0 {
		Y(site)
	}
}

var low uint32

// VC is what an object that synchronises tasks knows: for every task, how far
// it had come when it last released the object.
type VC struct{ c [MaxTasks]uint32 }

// The happens-before relation of the tasks, for the race detection on the C
// side: vcs[a][b] is how much of what task b did is ordered before what task a
// does next. hbOn is set while tasks run.
var (
	vcs  [MaxTasks][MaxTasks]uint32
	hbOn int32
	// HBSyncs counts the synchronisations seen.
	HBSyncs int64
)

// VCPtr and HBPtr are the addresses of the relation and its switch.
func VCPtr() unsafe.Pointer { return unsafe.Pointer(&vcs) }
func HBPtr() unsafe.Pointer { return unsafe.Pointer(&hbOn) }

// Acquire orders all that was done before the releases of v before what the
// running task does next.
//
//go:norace
func (v *VC) Acquire() {
	if !active || cur < 0 || cur >= MaxTasks {
		return
	}
	HBSyncs++
	for i := range v.c {
		if v.c[i] > vcs[cur][i] {
			vcs[cur][i] = v.c[i]
		}
	}
}

// Release records how far the running task has come.
//
//go:norace
func (v *VC) Release() {
	if !active || cur < 0 || cur >= MaxTasks {
		return
	}
	HBSyncs++
	for i := range v.c {
		if vcs[cur][i] > v.c[i] {
			v.c[i] = vcs[cur][i]
		}
	}
	vcs[cur][cur]++
}

//go:norace
func hbFork(child int32) {
	if !active || cur < 0 || cur >= MaxTasks || child >= MaxTasks {
		return
	}
	for i := range vcs[child] {
		if vcs[cur][i] > vcs[child][i] {
			vcs[child][i] = vcs[cur][i]
		}
	}
	vcs[cur][cur]++
	vcs[child][child]++
}

// hbJoin orders all that was done before all that comes.
//
//go:norace
func hbJoin() {
	var all [MaxTasks]uint32
	for t := range vcs {
		for i, c := range vcs[t] {
			if c > all[i] {
				all[i] = c
			}
		}
	}
	for t := range vcs {
		vcs[t] = all
		vcs[t][t]++
	}
}

var chanVC VC

// Slow is the scheduling point proper: reached when the countdown is used up.
//
//go:norace
func Slow() {
	if !active {
		reload()
		return
	}
	s := step()
	if s > cfg.MaxSteps {
		Fail("no-progress", fmt.Sprintf("the episode did not finish within %d steps", cfg.MaxSteps))
	}
	to := int32(-1)
	if cfg.UseReplay {
		if repIdx < len(cfg.Replay) && cfg.Replay[repIdx].Kind == 0 && cfg.Replay[repIdx].Step <= s {
			to = cfg.Replay[repIdx].To
			repIdx++
			if to < 0 || to >= ntasks || tasks[to].state != stRunnable {
				to = -1
			}
		}
	} else {
		to = pickOther()
	}
	if to >= 0 && to != cur {
		record(s, to, 0)
		Preempts++
		switchTo(to)
		return
	}
	reload()
}

//go:norace
func pickOther() int32 {
	n := 0
	for i := int32(0); i < ntasks; i++ {
		if i != cur && tasks[i].state == stRunnable {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(next() % uint64(n))
	for i := int32(0); i < ntasks; i++ {
		if i != cur && tasks[i].state == stRunnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// StreamFD, if set, receives every decision as it is taken, so that they
// survive a crash.
var StreamFD int

//go:norace
func stream(s int64, to, kind int32) {
	b := fmt.Sprintf("%d %d %d %d %d\n", s, to, kind, cur, lastSite)
	syscall.Write(StreamFD, []byte(b))
}

//go:norace
func record(s int64, to int32, kind int32) {
	Switches++
	hash = (hash ^ uint64(s)*0x9e3779b97f4a7c15 ^ uint64(to)<<48 ^ uint64(kind)<<56) * 0x100000001b3
	if StreamFD > 0 && !cfg.Quiet {
		stream(s, to, kind)
	}
	if nrec < maxRec {
		rec[nrec] = Decision{Step: s, To: to, Kind: kind, From: cur, Site: lastSite}
		nrec++
	}
}

//go:norace
func switchTo(to int32) {
	me := cur
	tasks[me].site = lastSite
	cur = to
	lastSite = tasks[to].site
	reload()
	futexWake(&word[to])
	futexWait(&word[me])
}

// pickNext chooses who runs when the running task cannot go on.
//
//go:norace
func pickNext(kind int32) int32 {
	for {
		n := 0
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state == stRunnable {
				n++
			}
		}
		if n > 0 {
			if cfg.UseReplay {
				to := int32(-1)
				s := step()
				// skip preemptions that are already behind us
				for repIdx < len(cfg.Replay) && cfg.Replay[repIdx].Kind == 0 && cfg.Replay[repIdx].Step < s {
					repIdx++
				}
				if repIdx < len(cfg.Replay) && cfg.Replay[repIdx].Kind == kind {
					to = cfg.Replay[repIdx].To
					repIdx++
				}
				if to >= 0 && to < ntasks && tasks[to].state == stRunnable {
					return to
				}
				for i := int32(0); i < ntasks; i++ {
					if tasks[i].state == stRunnable {
						return i
					}
				}
			}
			k := int(next() % uint64(n))
			for i := int32(0); i < ntasks; i++ {
				if tasks[i].state == stRunnable {
					if k == 0 {
						return i
					}
					k--
				}
			}
		}
		// nobody runnable: the simulated clock jumps to the next sleeper
		best := int32(-1)
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state == stSleeping && (best < 0 || tasks[i].wakeAt < tasks[best].wakeAt) {
				best = i
			}
		}
		if best < 0 && joiner >= 0 && joined == 0 {
			tasks[joiner].state = stRunnable
			joiner = -1
			continue
		}
		if t := firstTimer(); t >= 0 && primary > 0 && (best < 0 || timers[t].at < tasks[best].wakeAt) {
			if Idle != nil && timers[t].at > clock {
				Idle(timers[t].at)
			}
			fire(t)
			continue
		}
		if best < 0 {
			return -1
		}
		if tasks[best].wakeAt > clock {
			if Idle != nil {
				Idle(tasks[best].wakeAt)
			}
			clock = tasks[best].wakeAt
		}
		tasks[best].state = stRunnable
	}
}

// Block parks the calling task until somebody calls WakeAll.
//
//go:norace
func Block() {
	BlockedCnt++
	if !active {
		if t := firstTimer(); t >= 0 {
			fire(t)
			return
		}
		Fail("deadlock", "the only caller waits for a lock nobody will ever release")
	}
	tasks[cur].state = stBlocked
	to := pickNext(1)
	if to < 0 {
		if primary > 0 {
			Fail("deadlock", "every task waits")
		}
		// only background tasks are left, all waiting: the episode is over
		mainWake()
		me := cur
		futexWait(&word[me])
		return
	}
	if to == cur {
		reload()
		return
	}
	record(step(), to, 1)
	switchTo(to)
}

// Sleep parks the calling task for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	if d < 0 {
		d = 0
	}
	if !active {
		clock += d
		return
	}
	tasks[cur].state = stSleeping
	tasks[cur].wakeAt = clock + d
	to := pickNext(1)
	if to == cur || to < 0 {
		tasks[cur].state = stRunnable
		reload()
		return
	}
	record(step(), to, 1)
	switchTo(to)
}

// A timer does something at a simulated time. Time passes when nobody can run.
type timer struct {
	at  int64
	id  int64
	run func()
}

var (
	timers  []timer
	ntimers int
	timerID int64
)

// AddTimer has f, which must not wait, called after d nanoseconds.
//
//go:norace
func AddTimer(d int64, f func()) int64 {
	if ntimers == 1_000_000 {
		Fail("sim-limit", "too many timers for the simulator")
	}
	if d < 0 {
		d = 0
	}
	timerID++
	if ntimers == len(timers) {
		timers = append(timers, make([]timer, 64+len(timers))...)
	}
	timers[ntimers] = timer{clock + d, timerID, f}
	ntimers++
	return timerID
}

// DelTimer says whether the timer was still to fire.
//
//go:norace
func DelTimer(id int64) bool {
	for i := 0; i < ntimers; i++ {
		if timers[i].id == id {
			dropTimer(i)
			return true
		}
	}
	return false
}

//go:norace
func dropTimer(i int) {
	ntimers--
	timers[i] = timers[ntimers]
	timers[ntimers] = timer{}
}

//go:norace
func firstTimer() int {
	best := -1
	for i := 0; i < ntimers; i++ {
		if best < 0 || timers[i].at < timers[best].at || timers[i].at == timers[best].at && timers[i].id < timers[best].id {
			best = i
		}
	}
	return best
}

//go:norace
func fire(i int) {
	t := timers[i]
	dropTimer(i)
	if t.at > clock {
		clock = t.at
	}
	t.run()
	WakeAll()
}

// WakeAll makes every blocked task look again at what it waits for.
//
//go:norace
func WakeAll() {
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stBlocked {
			tasks[i].state = stRunnable
		}
	}
}

// SyncPoint is called around synchronisation operations: places where a
// preemption is most likely to matter.
//
//go:norace
func SyncPoint() {
	SyncOps++
	extraPoint(cfg.SyncPct)
}

// OpPoint is called by the workload between two operations of a task.
//
//go:norace
func OpPoint() { extraPoint(cfg.OpPct) }

//go:norace
func extraPoint(pct int) {
	if !active {
		return
	}
	cd--
	if cd > 0 && !cfg.UseReplay && pct > 0 && int(next()%100) < pct {
		stepsAt += cdSet - cd
		cd, cdSet = 0, 0
	}
	if cd <= 0 {
		Slow()
	}
}

//go:norace
func mainWake() { futexWake(&word[maxSlots]) }

// goroutines that wait for a free place among the tasks
type pending struct {
	word uint32
	slot int32
	tag  int32
	next *pending
}

var pendFirst, pendLast *pending

//go:norace
func finish() {
	me := cur
	tasks[me].state = stDone
	if tasks[me].primary {
		primary--
	}
	if q := pendFirst; q != nil {
		if pendFirst = q.next; pendFirst == nil {
			pendLast = nil
		}
		tasks[me] = task{state: stRunnable, tag: q.tag}
		word[me] = 0
		q.slot = me
		futexWake(&q.word)
	}
	WakeAll()
	to := pickNext(2)
	if to < 0 {
		if primary > 0 {
			Fail("deadlock", "every remaining task waits")
		}
		mainWake()
		return
	}
	record(step(), to, 2)
	cur = to
	lastSite = tasks[to].site
	reload()
	futexWake(&word[to])
}

//go:norace
func newSlot(prim bool) int32 {
	if !prim {
		Spawned++
	}
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stDone || tasks[i].state == stFree {
			tasks[i] = task{state: stRunnable, primary: prim, tag: Tag()}
			word[i] = 0
			return i
		}
	}
	if ntasks == Limit {
		return -1
	}
	i := ntasks
	ntasks++
	tasks[i] = task{state: stRunnable, primary: prim, tag: Tag()}
	word[i] = 0
	return i
}

//go:norace
func enter(i int32) { futexWait(&word[i]) }

// Go is the simulated go statement.
func Go(f func()) {
	// Outside an episode the new task waits for the next one to start.
	i := newSlot(false)
	if i < 0 {
		if !active {
			Fail("sim-limit", "too many goroutines for the simulator")
		}
		q := later()
		go func() {
			futexWait(&q.word)
			enter(q.slot)
			f()
			finish()
		}()
		SyncPoint()
		return
	}
	hbFork(i)
	go func() {
		enter(i)
		f()
		finish()
	}()
	SyncPoint()
}

//go:norace
func later() *pending {
	q := &pending{tag: Tag()}
	if pendLast == nil {
		pendFirst = q
	} else {
		pendLast.next = q
	}
	pendLast = q
	return q
}

// Spawn is Go without a scheduling point.
func Spawn(f func()) {
	i := newSlot(false)
	if i < 0 {
		Fail("sim-limit", "too many goroutines for the simulator")
	}
	go func() {
		enter(i)
		f()
		finish()
	}()
}

// GoCall is go f(args...) with the arguments evaluated now.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if v.Type() != pt && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() { fv.Call(in) })
}

// Result of an episode.
type Result struct {
	Steps     int64
	Decisions []Decision
	Hash      uint64
}

// Run executes the given bodies as tasks 0..n-1 of one episode.
func Run(c Config, bodies []func()) Result {
	var wg sync.WaitGroup
	start(c, len(bodies))
	for i := range bodies {
		i := i
		wg.Add(1)
		slot := newSlot(true)
		go func() {
			enter(slot)
			bodies[i]()
			wg.Done()
			finish()
		}()
	}
	begin()
	wg.Wait()
	return end()
}

//go:norace
func start(c Config, n int) {
	cfg = c
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	low = 0
	rng = c.Seed
	nrec, repIdx = 0, 0
	for i := 0; i < ntimers; i++ {
		timers[i].at -= clock
	}
	clock = 0
	hash = 14695981039346656037
	selRng = c.Seed ^ 0x5e1ec7
	primary = int32(n)
}

//go:norace
func begin() {
	hbJoin()
	active = true
	hbOn = 1
	stepsAt = 0
	cd, cdSet = 0, 0
	if StreamFD > 0 && !cfg.Quiet {
		syscall.Write(StreamFD, []byte("E\n"))
	}
	to := pickNext(3)
	cur = to
	record(0, to, 3)
	reload()
	futexWake(&word[to])
	futexWait(&word[maxSlots])
}

//go:norace
func end() Result {
	active = false
	hbOn = 0
	s := step()
	TotalSteps += s
	cur = -1
	cd, cdSet = never, never
	r := Result{Steps: s, Hash: hash}
	r.Decisions = copyRec()
	return r
}

func copyRec() []Decision {
	out := make([]Decision, nrec)
	for i := 0; i < nrec; i++ {
		out[i] = rec[i]
	}
	return out
}

// A task that runs others and waits for them, and how many it waits for.
var (
	joiner int32 = -1
	joined int
)

// Sub runs the given bodies as tasks of a schedule of its own while the calling
// task, which must be the only primary one, waits for them and for everybody
// else to come to rest.
//
//go:norace
func Sub(c Config, bodies []func()) Result {
	s := step()
	TotalSteps += s
	cfg = c
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	low, rng, nrec, repIdx = 0, c.Seed, 0, 0
	hash = 14695981039346656037
	selRng = c.Seed ^ 0x5e1ec7
	stepsAt, cd, cdSet = 0, 0, 0
	reload()
	joiner, joined = cur, len(bodies)
	var wg sync.WaitGroup
	wg.Add(len(bodies))
	for _, f := range bodies {
		i := newSlot(true)
		if i < 0 {
			Fail("sim-limit", "too many tasks for the simulator")
		}
		primary++
		go sub(i, f, &wg)
	}
	tasks[cur].state = stJoin
	to := pickNext(3)
	if to != cur {
		record(step(), to, 3)
		switchTo(to)
	}
	r := Result{Steps: step(), Hash: hash, Decisions: copyRec()}
	wg.Wait() // for the race detector
	return r
}

//go:norace
func sub(i int32, f func(), wg *sync.WaitGroup) {
	enter(i)
	f()
	wg.Done()
	joined--
	finish()
}

// Tag is a number of the running task, which those it starts inherit.
//
//go:norace
func Tag() int32 {
	if cur < 0 {
		return 0
	}
	return tasks[cur].tag
}

//go:norace
func SetTag(n int32) { tasks[cur].tag = n }

// Advance moves the clock on to t, without anybody waiting for it.
//
//go:norace
func Advance(t int64) {
	if t > clock {
		clock = t
	}
}

// Cur is the task that owns the token, -1 outside an episode.
//
//go:norace
func Cur() int32 {
	if !active {
		return -1
	}
	return cur
}

// Active says whether an episode is running.
//
//go:norace
func Active() bool { return active }

// Decisions taken so far in this episode.
func Decisions() []Decision { return copyRec() }

// FailHook reports a violation the scheduler itself found and ends the process.
var FailHook func(class, msg string)

//go:norace
func Fail(class, msg string) {
	if FailHook != nil {
		FailHook(class, msg)
	}
	fmt.Fprintln(os.Stderr, "simrt:", class, msg)
	os.Exit(97)
}

// Send, Recv, Recv2, Close replace channel operations of instrumented code.
// Unbuffered channels are created with capacity one by the instrumenter.
func Send[T any](ch chan<- T, v T) {
	SyncPoint()
	chanVC.Release()
	for {
		select {
		case ch <- v:
			chanVC.Acquire()
			WakeAll()
			SyncPoint()
			return
		default:
			Block()
		}
	}
}

// SendTo lets the compiler infer the element type from the channel alone.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	SyncPoint()
	for {
		select {
		case v, ok := <-ch:
			chanVC.Acquire()
			chanVC.Release()
			WakeAll()
			SyncPoint()
			return v, ok
		default:
			Block()
		}
	}
}

// SelStart, SelWait and SelDone stand around a select of instrumented code,
// which is turned into a loop over a select that does not wait. Which of
// several cases that can go on does is up to the seed.
func SelStart() {
	SyncPoint()
	chanVC.Release()
	selNext()
}

func SelWait() {
	Block()
	selNext()
}

var selRng uint64 // not the schedule's: replays do not draw from that

//go:norace
func selNext() { selSeed(SplitMix(&selRng)) }

func SelDone() {
	chanVC.Acquire()
	chanVC.Release()
	WakeAll()
	SyncPoint()
}

func Close[T any](ch chan<- T) {
	chanVC.Release()
	close(ch)
	WakeAll()
	SyncPoint()
}

// Outside runs f with scheduling switched off and leaves the step counter as
// it was: for work of the runtime (finalizers) that is no task's.
//
//go:norace
func Outside(f func()) {
	a, b, c, l := active, cd, cdSet, low
	h := hbOn
	active, cd, cdSet, hbOn = false, never, never, 0
	s := stepsAt
	f()
	active, cd, cdSet, stepsAt, low, hbOn = a, b, c, s, l, h
}
