// Package plan is the explicit form of one simulated execution of the
// library: a scenario decides everything, the outcome reports what happened.
package plan

import (
	"encoding/json"
	"fmt"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
)

// Op is one step of a task.
type Op struct {
	Op     string      `json:"op"`
	S      int         `json:"s,omitempty"`      // source (or stream, or decryptor) slot of the task
	T      int         `json:"t,omitempty"`      // table slot of the task
	File   int         `json:"file,omitempty"`   // index of a file
	Opener string      `json:"opener,omitempty"` // "" = grate.Open, xls, xlsx, csv, tsv
	Name   int         `json:"name,omitempty"`   // which table; -1 = one which does not exist
	Obs    string      `json:"obs,omitempty"`    // observers: s text, t types, f formats, c scan, e empty, r error
	N      int         `json:"n,omitempty"`      // count, size or offset
	W      int         `json:"w,omitempty"`      // whence
	Dmg    *gen.Damage `json:"dmg,omitempty"`
	Data   []byte      `json:"data,omitempty"`
}

// Scenario is one execution.
type Scenario struct {
	Prop   string         `json:"prop"`
	Index  int            `json:"index"`           // which scenario of the search (information only)
	Mode   string         `json:"mode,omitempty"`  // variant of the property's oracle
	Race   bool           `json:"race,omitempty"`  // runs in the build with the race detector
	Files  []gen.FileSpec `json:"files,omitempty"` // as stored, before damage during the run
	Kern   scen.Kern      `json:"kern"`
	Sched  scen.Sched     `json:"sched"`
	Seed   uint64         `json:"seed,omitempty"` // of the runtime's randomness (map order, hash seeds, math/rand)
	CPUs   int            `json:"cpus,omitempty"`
	Pool   string         `json:"pool,omitempty"` // what recycled memory is handed out: lifo fifo new random
	Tasks  [][]Op         `json:"tasks,omitempty"`
	Before [][]Op         `json:"before,omitempty"` // earlier activity in the same process
	Debug  bool           `json:"debug,omitempty"`  // with the library's logging switched on
	Limit  int64          `json:"limit,omitempty"`  // allocation budget, bytes
	X      map[string]any `json:"x,omitempty"`      // what the oracle has to know about how it was made
	Set    []Registration `json:"set,omitempty"`    // P15
	Tool   string         `json:"tool,omitempty"`   // the command-line tool under test
	Runs   []ToolRun      `json:"runs,omitempty"`   // its executions, one after the other on one file system
	Stale  []Stale        `json:"stale,omitempty"`  // outputs which are there before
}

// Stale is a leftover from an earlier use of a tool where an output goes.
type Stale struct {
	Path string `json:"path"`
	Len  int    `json:"len"`
}

// ToolRun is one execution of a command-line tool.
type ToolRun struct {
	Args  []string   `json:"args"`
	Kern  scen.Kern  `json:"kern"`
	Sched scen.Sched `json:"sched"`
	Seed  uint64     `json:"seed,omitempty"`
	CPUs  int        `json:"cpus,omitempty"`
	Race  bool       `json:"race,omitempty"` // in the build with the race detector
}

// Registration is a format registered in a P15 scenario.
type Registration struct {
	Name   string `json:"name"`
	Prio   int    `json:"prio"`
	Answer string `json:"answer"`          // accept, decline, wrap, wrap2, error, ...
	After  int    `json:"after,omitempty"` // registered after this many opens
}

// Clone returns a deep copy.
func (s *Scenario) Clone() *Scenario {
	b, _ := json.Marshal(s)
	var n Scenario
	if err := json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	return &n
}

var known = map[string]bool{}

func init() {
	for _, k := range []string{"open", "list", "get", "next", "obs", "hold", "mutate", "drain", "readall", "close", "damage", "restore", "shrink", "yield", "forget", "cfbopen", "cfblist", "stream", "slices", "sread", "sfull", "sseek", "cryptnew", "cwrite", "cread", "cflush", "creset", "cbytes"} {
		known[k] = true
	}
}

// Check rejects scenarios which mean nothing (the shrinker makes many).
func (s *Scenario) Check() error {
	for i := range s.Files {
		if err := s.Files[i].Check(); err != nil {
			return fmt.Errorf("file %d: %v", i, err)
		}
		for j := range s.Files[:i] {
			if s.Files[j].Path == s.Files[i].Path {
				return fmt.Errorf("two files at %s", s.Files[i].Path)
			}
		}
	}
	for _, l := range append(append([][]Op(nil), s.Tasks...), s.Before...) {
		for _, o := range l {
			if !known[o.Op] {
				return fmt.Errorf("unknown operation %q", o.Op)
			}
			if o.File < 0 || o.File > len(s.Files) || o.S < 0 || o.S > 15 || o.T < 0 || o.T > 31 {
				return fmt.Errorf("operation out of range")
			}
		}
	}
	if s.Sched.Cap < 0 || s.Sched.Mean < 0 || s.Sched.Stall < 0 || s.Sched.Hold < 0 || s.Sched.Hold > 1<<32 || s.Sched.Kill < 0 || s.CPUs < 0 || len(s.Tasks) > 64 {
		return fmt.Errorf("schedule")
	}
	if err := checkKern(&s.Kern); err != nil {
		return err
	}
	for i := range s.Runs {
		r := &s.Runs[i]
		if err := checkKern(&r.Kern); err != nil {
			return err
		}
		if r.Sched.Cap < 0 || r.Sched.Mean < 0 || r.Sched.Stall < 0 || r.Sched.Hold < 0 || r.Sched.Hold > 1<<32 || r.Sched.Kill < 0 || r.CPUs < 0 || r.CPUs > 256 {
			return fmt.Errorf("schedule")
		}
	}
	return nil
}

func checkKern(k *scen.Kern) error {
	for _, c := range k.Delivery.Chunks {
		if c < 0 {
			return fmt.Errorf("delivery")
		}
	}
	for _, c := range k.Delivery.Eintr {
		if c < 1 {
			return fmt.Errorf("endless interruption")
		}
	}
	for _, f := range k.Faults {
		if f.Nth < 0 || f.Count < -1 || (f.Arg < 0 && f.Kind != "jump") || f.Op == "" || f.Kind == "" || (f.Kind == "EINTR" && (f.Count < 0 || f.Count > 1000)) {
			return fmt.Errorf("fault")
		}
		if f.Kind == "short" && f.Arg == 0 {
			return fmt.Errorf("empty short transfer")
		}
	}
	return nil
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"` // what kind, stable under minimisation
	Msg   string `json:"msg"`
}

// Outcome of one scenario.
type Outcome struct {
	Index   int              `json:"index"`
	V       *Violation       `json:"v,omitempty"`
	Scen    *Scenario        `json:"scen,omitempty"` // given for violations and samples
	Invalid string           `json:"invalid,omitempty"`
	Key     uint64           `json:"key"`     // identifies the execution (inputs, interleaving, I/O)
	Inter   uint64           `json:"inter"`   // identifies the interleaving
	Digest  uint64           `json:"digest"`  // of everything observed
	Trivial bool             `json:"trivial"` // nothing the property depends on happened
	Steps   int64            `json:"steps"`
	SimNS   int64            `json:"simns"`
	Sys     int64            `json:"sys"`
	Runs    int              `json:"runs"`
	Sw      int64            `json:"sw"`
	Status  string           `json:"status"`
	Faults  map[string]int64 `json:"faults,omitempty"`
	Probes  map[string]int64 `json:"probes,omitempty"` // rare conditions which were reached
	Points  []scen.Point     `json:"points,omitempty"` // the schedule taken (violations only)
}
