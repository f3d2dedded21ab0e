package cases

import (
	"encoding/json"
	"os"
)

// Job is what the driver asks a worker to do.
type Job struct {
	Mode    string // run, replay, gen, params
	Prop    string
	Variant string
	Seed    uint64
	Start   int // first index of this shard
	Step    int
	End     int
	Case    *Case // replay
	Out     string
	Known   []string // keys of the listed known findings
	Cur     string   // file holding the index of the running case
	Until   int64    // Unix time when to stop
}

// Viol is a violation found by a worker.
type Viol struct {
	Msg  string
	Case *Case
}

// Result is what a worker reports.
type Result struct {
	Done        bool // ran to its end
	Late        bool // stopped early, the time was up
	Next        int  // where to continue if not
	Evaluations int
	NonTrivial  []uint64 // hashes of distinct non-trivial cases
	Labels      map[string]int64
	Samples     []*Case
	Skipped     int // cases whose run was cut short by a failure that belongs to another property
	SkipMsg     string
	Viol        *Viol
	Known       map[string]int // instances of listed known findings
	KnownMsg    map[string]string
	Params      [4]int
	MaxGor      uint64
	NaN         int
	Case        *Case
	Replayed    bool
}

func WriteJSON(path string, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	if err = os.WriteFile(path+".tmp", b, 0o644); err != nil {
		return err
	}
	return os.Rename(path+".tmp", path)
}

func ReadJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}
