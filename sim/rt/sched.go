// Package rt is the simulator's run time: a seeded scheduler which decides
// every interleaving of the tasks of the system under test, and a simulated
// kernel (files, clock, faults). One task runs at a time; tasks give up the
// processor only here. The package is compiled without race instrumentation
// and creates no happens-before edges of its own, so that the race detector
// sees only the synchronisation of the system under test.
package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"unsafe"

	"verif.local/sim/scen"
)

type (
	Point  = scen.Point
	Sched  = scen.Sched
	Result = scen.RunResult
)

const (
	stRun = iota
	stWait
	stSleep
	stDone
)

type task struct {
	id    int
	g     unsafe.Pointer
	gid   uint64
	state int
	gen   uint64 // value of the change counter when it started waiting
	until int64
	held  int64 // not before this step, unless nothing else can go on
	fn    func()
	panic string
	why   string
	timer bool // belongs to the clock, not to the program
}

const maxTasks = 4096
const maxPoints = 1 << 15
const never = int64(1) << 62

// scheduler state; only ever touched by the goroutine which is running
var (
	active   bool
	left     int64 = never
	quota    int64 = never
	steps    int64
	capSteps int64
	killStep int64
	cur      *task
	tasks    [maxTasks]*task
	ntasks   int
	gen      uint64 // counts changes which may let a waiting task go on
	rng      uint64
	selRng   uint64
	mean     int64
	starve   int
	stall    int64
	hold     int64
	replay   bool
	points   []Point
	npoint   int
	rec      [maxPoints]Point
	nrec     int
	switches int64
	hash     uint64
	lastSw   int64
	mainG    unsafe.Pointer
	mainDone bool // the run ends with task 0
	status   string
	exitCode int
	panicTxt string
	panicTid int
	hangs    int
	single   bool
	joinAddr [8]byte
	Foreign  int64 // yields by goroutines the simulator did not start
)

//go:norace
func next64() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is a point at which the scheduler may run another task.
//
//go:norace
func Y() {
	left--
	if left < 0 {
		slow()
	}
}

// Hot marks an operation other tasks can notice. The task may be held up right
// after it, as if its processor were taken away for long.
//
//go:norace
func Hot() {
	if stall == 0 || !active || single || runtime.SimGID() != cur.gid {
		return
	}
	if next64()%uint64(stall) != 0 {
		return
	}
	cur.held = now64() + 1 + int64(next64()%uint64(2*hold))
	if left > 0 {
		quota -= left
		left = 0
	}
}

// YS is Y at a synchronisation.
//
//go:norace
func YS() {
	Hot()
	Y()
}

// Hang is the panic value which aborts a run out of steps.
type Hang struct{}

//go:norace
func (Hang) Error() string { return "simulator: step budget exceeded" }

//go:norace
func now64() int64 { return steps + quota - left }

//go:norace
func setQuota(n int64) {
	// never run past the budget or the kill
	if capSteps > 0 && steps+n >= capSteps {
		n = capSteps - steps - 1
	}
	if killStep > 0 && steps < killStep && steps+n >= killStep {
		n = killStep - steps - 1
	}
	if n < 0 {
		n = 0
	}
	quota, left = n, n
}

//go:norace
func account() {
	steps += quota - left
	quota, left = 0, 0
}

//go:norace
func slow() {
	if !active {
		left, quota = never, never
		return
	}
	if runtime.SimGID() != cur.gid {
		left = 0
		Foreign++
		return
	}
	left = -1
	account()
	if killStep > 0 && steps >= killStep {
		finish("killed")
	}
	if capSteps > 0 && steps >= capSteps {
		if single {
			hangs++
			if hangs > 2000 {
				finish("hang")
			}
			left, quota = 0, 0
			panic(Hang{})
		}
		finish("hang")
	}
	if single {
		setQuota(1 << 40)
		return
	}
	schedule()
}

//go:norace
func mix(v uint64) {
	hash ^= v
	hash *= 0x100000001b3
	hash ^= hash >> 29
}

//go:norace
func drawQuota() int64 {
	if mean <= 0 {
		return 1 << 40
	}
	r := next64()
	if r&3 == 0 {
		return int64(r>>8) % 4
	}
	return int64((r >> 8) % uint64(2*mean))
}

// replayQuota is the number of steps before the next recorded decision.
//
//go:norace
func replayQuota() int64 {
	for i := npoint; i < len(points); i++ {
		if d := points[i].Step - steps; d > 0 {
			return d - 1
		}
	}
	return 1 << 40
}

//go:norace
func canRun(t *task) bool {
	switch t.state {
	case stRun:
		return true
	case stWait:
		return t.gen != gen
	case stSleep:
		return clock >= t.until
	}
	return false
}

// schedule picks the next task; the current one stays a candidate when it can run.
//
//go:norace
func schedule() {
	for {
		n := 0
		var only *task
		for i := 0; i < ntasks; i++ {
			if canRun(tasks[i]) {
				n++
				only = tasks[i]
			}
		}
		if n == 0 {
			// let time pass
			var first *task
			for i := 0; i < ntasks; i++ {
				if t := tasks[i]; t.state == stSleep && (first == nil || t.until < first.until) {
					first = t
				}
			}
			if first == nil {
				finish("deadlock")
			}
			clock = first.until
			continue
		}
		pick := only
		if replay {
			pick = nil
			for npoint < len(points) && points[npoint].Step < steps {
				npoint++
			}
			if npoint < len(points) && points[npoint].Step == steps {
				if id := points[npoint].Task; id < ntasks && canRun(tasks[id]) {
					pick = tasks[id]
				}
				npoint++
			}
			if pick == nil {
				pick = cur
				if !canRun(pick) {
					for i := 0; i < ntasks; i++ {
						if canRun(tasks[i]) {
							pick = tasks[i]
							break
						}
					}
				}
			}
			setQuota(replayQuota())
		} else {
			free := n
			if stall != 0 && n > 0 {
				free = 0
				for i := 0; i < ntasks; i++ {
					if tasks[i].held <= steps && canRun(tasks[i]) {
						free++
						only = tasks[i]
					}
				}
				if free == 0 { // all are held up
					for i := 0; i < ntasks; i++ {
						tasks[i].held = 0
					}
					free = n
				}
			}
			if free == 1 {
				pick = only
			} else {
				k := int(next64() % uint64(free))
				for try := 0; try < 2; try++ {
					j := 0
					for i := 0; i < ntasks; i++ {
						if tasks[i].held <= steps && canRun(tasks[i]) {
							if j == k {
								pick = tasks[i]
								break
							}
							j++
						}
					}
					if pick.id != starve-1 || next64()%64 == 0 {
						break
					}
					k = (k + 1) % free
				}
			}
			setQuota(drawQuota())
		}
		if nrec < maxPoints && (n > 1 || !canRun(cur)) {
			rec[nrec] = Point{steps, pick.id}
			nrec++
		}
		switchTo(pick)
		return
	}
}

//go:norace
func switchTo(t *task) {
	t.state = stRun
	if t == cur {
		return
	}
	switches++
	mix(uint64(t.id)<<40 ^ uint64(steps-lastSw))
	lastSw = steps
	prev := cur
	cur = t
	if prev.state == stDone {
		runtime.SimReady(t.g)
		return
	}
	runtime.SimSwitch(t.g)
}

// finish ends the run from inside a task and does not return.
//
//go:norace
func finish(st string) {
	if status == "" {
		status = st
	}
	active = false
	left, quota = never, never
	if mainG == nil {
		// in the middle of nowhere: cannot happen
		os.Stderr.WriteString("simulator: finish without a run\n")
		os.Exit(99)
	}
	g := mainG
	mainG = nil
	runtime.SimSwitch(g)
	select {} // abandoned
}

// Alive is the number of tasks which have not finished.
//
//go:norace
func Alive() (n int) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state != stDone && !tasks[i].timer {
			n++
		}
	}
	return
}

// Settle lets the other tasks run until none of them can (or for a long time).
//
//go:norace
func Settle() {
	if !active || single {
		return
	}
	was := stall
	stall = 0
	for j := 0; j < ntasks; j++ {
		tasks[j].held = 0
	}
	for i := 0; i < 100000; i++ {
		busy := false
		for j := 0; j < ntasks; j++ {
			if t := tasks[j]; t != cur && !t.timer && canRun(t) {
				busy = true
			}
		}
		if !busy {
			break
		}
		Yield()
	}
	stall = was
}

// Yield gives other tasks a chance to run.
//
//go:norace
func Yield() {
	if !active {
		return
	}
	Y()
	if single {
		return
	}
	account()
	schedule()
}

// Block waits until some other task has changed something.
//
//go:norace
func Block(why string) {
	if !active || runtime.SimGID() != cur.gid {
		runtime.Gosched()
		return
	}
	account()
	if killStep > 0 && steps >= killStep {
		finish("killed")
	}
	if single {
		status = "deadlock"
		cur.why = why
		finish("deadlock")
	}
	cur.state = stWait
	cur.gen = gen
	cur.why = why
	schedule()
}

// Changed wakes the tasks which wait for a change.
//
//go:norace
func Changed() { gen++ }

// Active reports whether the caller is a task of a run.
//
//go:norace
func Active() bool { return active }

// TaskID identifies the running task.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// StepsNow is the number of steps so far.
//
//go:norace
func StepsNow() int64 { return now64() }

// Sleep lets simulated time pass.
//
//go:norace
func Sleep(ns int64) {
	if !active || single {
		clock += ns
		return
	}
	account()
	cur.state = stSleep
	cur.until = clock + ns
	schedule()
}

// Go starts a task.
//
//go:norace
func Go(fn func()) {
	if !active || runtime.SimGID() != cur.gid {
		go fn()
		return
	}
	single = false
	newTask(fn)
	YS()
}

// Timer is a pending action of the simulated clock.
type Timer struct {
	t       *task
	stopped bool
}

// At has fn run when ns of simulated time have passed, and then again every
// "every" ns if that is not zero; fn has to be short and must not wait.
//
//go:norace
func At(ns, every int64, fn func()) *Timer {
	tm := &Timer{}
	if !active || runtime.SimGID() != cur.gid {
		return tm
	}
	single = false
	if ns < 0 {
		ns = 0
	}
	tm.t = newTask(func() {
		for !tm.stopped {
			tm.t.timer = false // from now on an action of the program
			fn()
			if every <= 0 {
				return
			}
			tm.t.timer = true
			Sleep(every)
		}
	})
	tm.t.timer = true
	tm.t.state = stSleep
	tm.t.until = clock + ns
	return tm
}

// Stop forgets the action and reports whether it had not begun.
//
//go:norace
func (tm *Timer) Stop() bool {
	tm.stopped = true
	if t := tm.t; t != nil && t.timer && t.state == stSleep {
		t.state = stDone
		return true
	}
	return false
}

//go:norace
func newTask(fn func()) *task {
	if ntasks == maxTasks {
		finish("tasks")
	}
	t := &task{id: ntasks, state: stRun, fn: fn}
	tasks[ntasks] = t
	ntasks++
	t.g = runtime.SimNewG(func() { taskMain(t) })
	return t
}

//go:norace
func taskMain(t *task) {
	t.gid = runtime.SimGID()
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.panic = fmt.Sprint(e)
				stack := string(debug.Stack())
				if _, ok := e.(Hang); ok {
					status = "hang"
				} else {
					status = "panic"
				}
				panicTxt = t.panic + "\n" + stack
				panicTid = t.id
			}
		}()
		t.fn()
	}()
	raceReleaseMerge(unsafe.Pointer(&joinAddr))
	account()
	t.state = stDone
	gen++
	alive := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state != stDone && !tasks[i].timer {
			alive++
		}
	}
	if status != "" || alive == 0 || (mainDone && t.id == 0) {
		if status == "" {
			status = "ok"
		}
		active = false
		left, quota = never, never
		g := mainG
		mainG = nil
		runtime.SimReady(g)
		return
	}
	schedule()
}

// Run executes the functions as tasks until all are done (or the first one,
// if mainOnly). With exactly one function and no spawned task nothing is
// ever preempted and running out of steps aborts it with a Hang panic.
//
//go:norace
func Run(cfg Sched, mainOnly bool, fns ...func()) Result {
	for i := range tasks[:ntasks] {
		tasks[i] = nil
	}
	ntasks = 0
	steps, gen, rng, selRng = 0, 1, cfg.Seed, cfg.Seed
	capSteps, killStep = cfg.Cap, cfg.Kill
	mean, starve = cfg.Mean, cfg.Starve
	stall, hold = int64(cfg.Stall), cfg.Hold
	if hold <= 0 {
		hold = 1
	}
	if replay {
		stall = 0
	}
	replay, points, npoint = cfg.Replay, cfg.Points, 0
	nrec, switches, hash, lastSw = 0, 0, 0xcbf29ce484222325, 0
	mainDone, status, exitCode, panicTxt, hangs = mainOnly, "", 0, "", 0
	single = len(fns) == 1
	chans = nil
	mainG = runtime.SimG()
	for _, f := range fns {
		newTask(f)
	}
	cur = tasks[0]
	if replay {
		if len(points) > 0 && points[0].Step == 0 && points[0].Task < ntasks {
			cur = tasks[points[0].Task]
			npoint = 1
		}
		setQuota(replayQuota())
	} else if single {
		setQuota(1 << 40)
	} else {
		cur = tasks[int(next64()%uint64(ntasks))]
		setQuota(drawQuota())
		rec[0] = Point{0, cur.id}
		nrec = 1
	}
	active = true
	runtime.SimSwitch(cur.g)
	raceAcquire(unsafe.Pointer(&joinAddr))
	res := Result{Status: status, Exit: exitCode, Steps: steps, Switches: switches, Hash: hash, Panic: panicTxt, PanicTask: panicTid, Spawned: ntasks}
	res.Points = make([]Point, nrec)
	copy(res.Points, rec[:nrec])
	for i := 0; i < ntasks; i++ {
		if tasks[i].state != stDone && !tasks[i].timer {
			res.Left++
			if i < len(fns) {
				res.MainLeft++
			}
			if tasks[i].state == stWait {
				res.Waiting += fmt.Sprintf("task %d: %s; ", i, tasks[i].why)
			}
		}
	}
	return res
}
