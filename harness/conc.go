package main

import (
	"encoding/json"
	"runtime"
	"sync"

	"github.com/coveooss/gotemplate/v3/template"
)

// Templates of several threads: the operations begin and end as given by the events (or freely).
type concCase struct {
	Threads int         `json:"threads"`
	Events  []concEvent `json:"events"`
	Free    bool        `json:"free"` // each thread goes on with its next operation
}

type concEvent struct {
	E     string          `json:"e"`
	P     int             `json:"p"`
	New   bool            `json:"new"`
	Name  string          `json:"name"`
	Text  string          `json:"text"`
	Times int             `json:"times"`
	Ctx   json.RawMessage `json:"ctx"`
	tplCase
}

func init() {
	modes["conc"] = func(raw []byte) interface{} {
		var c concCase
		mustDecode(raw, &c)
		results := make([]tplOut, len(c.Events)) // of each begin
		type order struct {
			i     int
			begin concEvent
		}
		todo := make([]chan order, c.Threads+1)
		done := make([]chan bool, c.Threads+1)
		var wait sync.WaitGroup
		for p := 1; p <= c.Threads; p++ {
			todo[p], done[p] = make(chan order, len(c.Events)), make(chan bool, len(c.Events))
			wait.Add(1)
			go func(p int) {
				defer wait.Done()
				var t *template.Template
				for o := range todo[p] {
					if o.begin.New {
						t = nil
						ctx, err := makeContext(o.begin.Ctx, o.begin.Kind)
						if err == nil {
							t, err = template.NewTemplate(o.begin.Folder, ctx, o.begin.Delims, optionSet(o.begin.tplCase), o.begin.Subs...)
						}
						if err != nil {
							results[o.i] = tplOut{Err: "NewTemplate: " + err.Error()}
						}
					} else if t == nil {
						results[o.i] = tplOut{Err: "no template"}
					} else {
						for n := 0; n <= o.begin.Times; n++ {
							r := evalText(t, tplText{Name: o.begin.Name, Text: o.begin.Text})
							if n > 0 && r != results[o.i] {
								results[o.i] = tplOut{Out: results[o.i].Out + " then " + r.Out, Err: results[o.i].Err + " then " + r.Err, Panic: "different results for the same content"}
								break
							}
							results[o.i] = r
							runtime.Gosched()
						}
					}
					done[p] <- true
				}
			}(p)
		}
		for i, e := range c.Events {
			if e.E == "begin" {
				todo[e.P] <- order{i, e}
			} else if !c.Free {
				<-done[e.P]
			}
		}
		for p := 1; p <= c.Threads; p++ {
			close(todo[p])
		}
		wait.Wait()
		return map[string]interface{}{"results": results}
	}
}
