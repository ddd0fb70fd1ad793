package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// ensemble carries out the operations of a case at the same time, several copies of each, every one on documents of its own.
// The outcome of an operation is that of its copies, or the fault "unsteady" if they do not agree.
func ensemble(c Case) (Obs, bool) {
	const copies = 3

	o := Obs{ID: c.ID, Docs: c.Docs, Ops: c.Ops, Meta: c.Meta, Res: []Result{}}
	if len(c.Ops) > 0 {
		middleC(c.Ops[0].C4)
	}
	conducted = true
	defer func() { conducted = false }()

	results := make([][copies]Result, len(c.Ops))
	start := make(chan struct{})
	done := make(chan struct{})

	var all sync.WaitGroup
	for i, op := range c.Ops {
		for k := 0; k < copies; k++ {
			all.Add(1)
			go func() {
				defer all.Done()
				defer func() {
					if e := recover(); e != nil {
						results[i][k] = Result{"ok": false, "fault": "panic", "err": esc(fmt.Sprintf("panic: %v", e))}
					}
				}()

				s := session{docs: [][]byte{}, cache: map[string]any{}}
				for _, d := range c.Docs {
					s.docs = append(s.docs, append([]byte{}, d.bytes...))
				}
				<-start
				r := s.exec(op)
				if _, ok := r["fault"]; !ok {
					r["fault"] = ""
				}
				results[i][k] = r
			}()
		}
	}

	go func() {
		all.Wait()
		close(done)
	}()

	close(start)
	select {
	case <-done:
	case <-time.After(3 * opTimeout):
		for range c.Ops {
			o.Res = append(o.Res, Result{"ok": false, "fault": "hang", "err": "timeout"})
		}
		return o, true
	}

	for i := range c.Ops {
		for k := 1; k < copies; k++ {
			if said(results[i][k]) != said(results[i][0]) {
				results[i][0]["fault"] = "unsteady"
			}
		}
		o.Res = append(o.Res, results[i][0])
	}

	return o, false
}

// The wording of an error does not matter.
func said(r Result) string {
	x := Result{}
	for k, v := range r {
		if k != "err" {
			x[k] = v
		}
	}
	b, _ := json.Marshal(x)

	return string(b)
}
