// Package simcase holds what the driver and the simulator binary exchange.
package simcase

import (
	"encoding/json"
	"strconv"
)

// Sched configures the simulated scheduler of one run.
type Sched struct {
	Policy  uint32 `json:"policy"`
	Epoch   uint32 `json:"epoch"`
	PointP  uint32 `json:"point_p"`
	MaxRand uint64 `json:"max_rand"`
	Tick    int64  `json:"tick"`
}

// Op is one operation of a simulated client. Its meaning is scenario specific.
type Op struct {
	K   string `json:"k"`
	A   int64  `json:"a,omitempty"`
	B   int64  `json:"b,omitempty"`
	C   int64  `json:"c,omitempty"`
	D   int64  `json:"d,omitempty"`
	S   string `json:"s,omitempty"`
	F   int64  `json:"f,omitempty"` // the storage fails the F-th call made by this operation
	Sub []Op   `json:"sub,omitempty"`
}

type opJSON Op

// MarshalJSON quotes S, which may hold any bytes.
func (o Op) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(o.S)
	o.S = q[1 : len(q)-1]
	return json.Marshal(opJSON(o))
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (o *Op) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*opJSON)(o)); err != nil {
		return err
	}
	s, err := strconv.Unquote(`"` + o.S + `"`)
	o.S = s
	return err
}

// Fault is one injected fault.
type Fault struct {
	K   string `json:"k"`
	At  int64  `json:"at"`            // virtual nanoseconds, or an operation count
	Arg int64  `json:"arg,omitempty"` // fault specific
	Dur int64  `json:"dur,omitempty"` // virtual nanoseconds
	T   int64  `json:"t,omitempty"`   // target
}

// Case is one complete simulated execution: together with the tree under test
// it determines every step of the run.
type Case struct {
	Prop    string           `json:"prop"`
	Scen    string           `json:"scen"`
	Seed    uint64           `json:"seed"`
	Sched   Sched            `json:"sched"`
	P       map[string]int64 `json:"p,omitempty"`
	Clients [][]Op           `json:"clients,omitempty"`
	Faults  []Fault          `json:"faults,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Kind   string `json:"kind"` // stable class
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

// Result is what one run reports.
type Result struct {
	Outcome string           `json:"outcome"` // ok, violation, crash, inconclusive
	Viol    *Violation       `json:"viol,omitempty"`
	Steps   uint64           `json:"steps"`
	Choices uint64           `json:"choices"`
	Preempt uint64           `json:"preempt"`
	Hash    uint64           `json:"hash"`
	VTime   int64            `json:"vtime"`
	Cov     map[string]int64 `json:"cov,omitempty"`
	Trace   []string         `json:"trace,omitempty"`
	Case    *Case            `json:"case,omitempty"`
}
