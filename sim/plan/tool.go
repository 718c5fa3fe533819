package plan

import "verif.local/sim/scen"

// ToolFile is a file of the simulated disk.
type ToolFile struct {
	Path string `json:"p"`
	Data []byte `json:"d,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
}

// ToolIn asks for one execution of a command-line tool.
type ToolIn struct {
	Tool  string     `json:"tool"`
	Files []ToolFile `json:"files"`
	Run   ToolRun    `json:"run"`
	Pool  string     `json:"pool,omitempty"`
	Sched bool       `json:"sched,omitempty"` // report the schedule taken
}

// ToolOut is what came of it.
type ToolOut struct {
	Res      scen.RunResult   `json:"res"`
	Stdout   []byte           `json:"stdout,omitempty"`
	Stderr   []byte           `json:"stderr,omitempty"`
	Files    []ToolFile       `json:"files"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Failures []string         `json:"failures,omitempty"`
	Ops      map[string]int64 `json:"ops,omitempty"`
	Open     []string         `json:"open,omitempty"`
	Clock    int64            `json:"clock"`
	Sys      int64            `json:"sys"`
	IOHash   uint64           `json:"iohash"`
	Races    int              `json:"races,omitempty"`
}
