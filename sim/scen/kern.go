// Package scen holds the explicit description of one simulated execution
// (everything that decides it) and of its outcome.
package scen

// Point is a scheduling decision: at the given step, Task runs next.
type Point struct {
	Step int64 `json:"s"`
	Task int   `json:"t"`
}

// Sched configures the scheduler of one run.
type Sched struct {
	Seed   uint64  `json:"seed,omitempty"`
	Mean   int64   `json:"mean,omitempty"`   // mean steps between preemptions, 0 = never preempt
	Starve int     `json:"starve,omitempty"` // 1+task which runs only when nothing else can
	Stall  int     `json:"stall,omitempty"`  // one in so many system calls and synchronisations holds its task up (0 = none)
	Hold   int64   `json:"hold,omitempty"`   // for how many steps on average
	Replay bool    `json:"replay,omitempty"` // take decisions from Points instead of Seed
	Points []Point `json:"points,omitempty"`
	Cap    int64   `json:"cap,omitempty"`  // step budget
	Kill   int64   `json:"kill,omitempty"` // the process is killed at this step (0 = never)
}

// RunResult is what the scheduler reports about a run.
type RunResult struct {
	Status    string  `json:"status"` // ok, hang, deadlock, panic, killed, exit, tasks
	Exit      int     `json:"exit,omitempty"`
	Steps     int64   `json:"steps"`
	Switches  int64   `json:"switches"`
	Hash      uint64  `json:"hash"` // of the interleaving
	Points    []Point `json:"points,omitempty"`
	Panic     string  `json:"panic,omitempty"`
	PanicTask int     `json:"panictask,omitempty"`
	MainLeft  int     `json:"main_left,omitempty"` // of the tasks the run began with
	Left      int     `json:"left,omitempty"`      // tasks still unfinished at the end
	Spawned   int     `json:"spawned"`
	Waiting   string  `json:"waiting,omitempty"`
}

// File is a file (or directory) of the simulated file system.
type File struct {
	Path string `json:"path"`
	Data []byte `json:"data,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
}

// Fault is one injected fault: the Nth (from 0) operation Op on a path
// ending in Path, and the Count-1 following ones, are hit.
type Fault struct {
	Op    string `json:"op"`   // open create read pread seek fstat stat close write mkdir ... or "any"
	Path  string `json:"path"` // suffix; "" = any
	Nth   int    `json:"nth"`
	Count int    `json:"count,omitempty"` // 0 = 1, -1 = forever
	Kind  string `json:"kind"`            // errno name, "short", "shrink", "jump" (wall clock), "stall" (slow call), "replace"
	Arg   int64  `json:"arg,omitempty"`
}

// Delivery shapes successful reads.
type Delivery struct {
	Chunks []int `json:"chunks,omitempty"` // maximum sizes, used in rotation; 0 = no limit
	Eintr  []int `json:"eintr,omitempty"`  // every n-th call (rotation) is interrupted first
}

// Kern configures the simulated kernel.
type Kern struct {
	Faults   []Fault  `json:"faults,omitempty"`
	Delivery Delivery `json:"delivery,omitempty"`
	MaxFDs   int      `json:"maxfds,omitempty"`
	DiskFree int64    `json:"diskfree,omitempty"` // bytes; 0 = unlimited
	MaxOut   int64    `json:"maxout,omitempty"`   // a run which writes more than this does not end (0 = no limit)
	DiskDir  string   `json:"diskdir,omitempty"`  // the disk which fills up is mounted here ("" = everywhere)
	Start    int64    `json:"start,omitempty"`    // clock at start (unix seconds)
	Tick     int64    `json:"tick,omitempty"`     // ns per system call
}
