// The conformance driver replays behaviours generated from the TLA+ specification against the real
// program and records what it observed, projected onto the records that the specification talks about.
//
//	driver -cases cases.ndjson -obs obs.ndjson -bin midiasm -scratch dir
//
// Every case is a list of documents (byte sequences) and a list of operations on them. The driver makes
// no judgement: it runs the operations in order, in this one process, and writes one observation per case.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	syslog "log"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

type Op struct {
	Op string `json:"op"`
	D  int    `json:"d"`            // document (1-based)
	C4 bool   `json:"c4"`           // middle C convention
	N  int    `json:"n"`            // numeric argument
	X  string `json:"x"`            // string argument
	A  string `json:"a,omitempty"`  // another: the TSV delimiter (escaped), "default" (leave out the command word)
	W  string `json:"w,omitempty"`  // what the program finds where it is to write (see cli)
	NM string `json:"nm,omitempty"` // the name of the input without extension (escaped), relative to the working directory
}

type Case struct {
	ID   int             `json:"id"`
	Docs []Doc           `json:"docs"`
	Ops  []Op            `json:"ops"`
	Meta json.RawMessage `json:"meta,omitempty"` // what the specification knows about the case
}

// A document is an array of bytes or, for sources, a string in the escaped form of the specification.
type Doc struct {
	raw   json.RawMessage
	bytes []byte
}

func (d Doc) MarshalJSON() ([]byte, error) { return d.raw, nil }

func (d *Doc) UnmarshalJSON(data []byte) error {
	d.raw = append(json.RawMessage{}, data...)
	if len(data) > 0 && data[0] == '"' {
		var s string
		if err := json.Unmarshal(data, &s); err != nil {
			return err
		}
		d.bytes = unesc(s)
		return nil
	}
	var b Bytes
	if err := json.Unmarshal(data, &b); err != nil {
		return err
	}
	d.bytes = b
	return nil
}

// Byte sequences are arrays of integers, because that is what the specification reads and writes.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, v := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = fmt.Appendf(out, "%d", v)
	}
	return append(out, ']'), nil
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var v []int
	if err := json.Unmarshal(data, &v); err != nil {
		return err
	}
	*b = make([]byte, len(v))
	for i := range v {
		(*b)[i] = byte(v[i])
	}
	return nil
}

type Result map[string]any

type Obs struct {
	ID   int             `json:"id"`
	Docs []Doc           `json:"docs"`
	Ops  []Op            `json:"ops"`
	Meta json.RawMessage `json:"meta,omitempty"`
	Res  []Result        `json:"res"`
}

var binary string
var scratch string
var brief bool
var together bool
var opTimeout time.Duration

func main() {
	cases := flag.String("cases", "", "cases (ndjson)")
	obs := flag.String("obs", "", "observations (ndjson)")
	skip := flag.Int("skip", 0, "number of cases to skip")
	timeout := flag.Int("timeout", 20, "seconds before an operation counts as hung")
	flag.StringVar(&binary, "bin", "", "midiasm executable")
	flag.BoolVar(&brief, "brief", false, "record only how the operations ended")
	flag.BoolVar(&together, "together", false, "carry out the operations of a case at the same time")
	flag.StringVar(&scratch, "scratch", "", "scratch directory")
	flag.Parse()

	opTimeout = time.Duration(*timeout) * time.Second
	debug.SetMemoryLimit(3 << 30)
	syslog.SetOutput(io.Discard)

	in, err := os.Open(*cases)
	if err != nil {
		fatal(err)
	}

	mode := os.O_CREATE | os.O_WRONLY | os.O_APPEND
	out, err := os.OpenFile(*obs, mode, 0644)
	if err != nil {
		fatal(err)
	}

	r := bufio.NewReaderSize(in, 1<<20)
	for n := 0; ; n++ {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 && n >= *skip {
			var c Case
			if err := json.Unmarshal(line, &c); err != nil {
				fatal(fmt.Errorf("case %d: %w", n, err))
			}

			perform := run
			if together {
				perform = ensemble
			}

			o, hung := perform(c)
			if brief {
				o.Docs = o.Docs[:0]
				o.Meta = nil
				for _, r := range o.Res {
					for k := range r {
						if k != "ok" && k != "fault" && k != "err" && k != "left" {
							delete(r, k)
						}
					}
				}
			}
			b, err := json.Marshal(o)
			if err != nil {
				fatal(err)
			}
			if _, err := out.Write(append(b, '\n')); err != nil {
				fatal(err)
			}
			if hung {
				// the goroutine cannot be stopped: the runner restarts the driver after this case
				os.Exit(7)
			}
		}
		if err != nil {
			break
		}
	}

	if err := out.Close(); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintf(os.Stderr, "driver: %v\n", err)
	os.Exit(3)
}

func run(c Case) (Obs, bool) {
	s := session{docs: [][]byte{}, cache: map[string]any{}}
	for _, d := range c.Docs {
		s.docs = append(s.docs, d.bytes)
	}
	o := Obs{ID: c.ID, Docs: c.Docs, Ops: c.Ops, Meta: c.Meta, Res: []Result{}}

	for _, op := range c.Ops {
		res := Result{}
		before := runtime.NumGoroutine()
		done := make(chan Result, 1)

		go func() {
			defer func() {
				if e := recover(); e != nil {
					done <- Result{"ok": false, "fault": "panic", "err": esc(fmt.Sprintf("panic: %v", e))}
				}
			}()
			r := s.exec(op)
			if _, ok := r["fault"]; !ok {
				r["fault"] = ""
			}
			done <- r
		}()

		select {
		case res = <-done:
		case <-time.After(opTimeout):
			res = Result{"ok": false, "fault": "hang", "err": "timeout"}
			o.Res = append(o.Res, res)
			return o, true
		}

		res["left"] = left(before)
		o.Res = append(o.Res, res)
	}

	return o, false
}

// The number of goroutines that an operation left running (those that are about to end are given the time to do so).
func left(before int) int {
	for wait := 50 * time.Microsecond; wait < 2*time.Second; wait *= 2 {
		if runtime.NumGoroutine() <= before {
			return 0
		}
		time.Sleep(wait)
	}
	return max(0, runtime.NumGoroutine()-before)
}
