// Command run replays input vectors on the compiled code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"winresverif/h"
	"winresverif/sym"
)

type vector struct {
	ID      int         `json:"id"`
	H       string      `json:"h"`
	In      []sym.Input `json:"in"`
	Tier    string      `json:"tier"`
	Repeat  int         `json:"repeat"`
	Timeout int         `json:"timeout_ms"`
}

type result struct {
	ID     int       `json:"id"`
	Status string    `json:"status"`
	Label  string    `json:"label"`
	Msg    string    `json:"msg"`
	Obs    []sym.Obs `json:"obs"`
}

func one(v vector) (res result) {
	res.ID = v.ID
	s := &sym.State{In: v.In, Thorough: v.Tier == "thorough"}
	sym.Begin(s)
	f := h.All[v.H]
	if f == nil {
		res.Status = "nosuch"
		return
	}
	defer func() {
		res.Obs = s.Obs
		if r := recover(); r != nil {
			if o, ok := r.(sym.Outcome); ok {
				res.Status, res.Label = o.Status, o.Label
				return
			}
			res.Status = "panic"
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 900 {
				st = st[:900]
			}
			res.Msg = fmt.Sprint(r) + "\n" + st
		}
	}()
	f()
	res.Status = "ok"
	if s.Over() {
		res.Status = "alloc"
	}
	return
}

func main() {
	debug.SetMaxStack(256 << 20)
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var v vector
			if err := json.Unmarshal(line, &v); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			fmt.Printf("START %d\n", v.ID)
			ch := make(chan result, 1)
			n := v.Repeat
			if n < 1 {
				n = 1
			}
			to := v.Timeout
			if to == 0 {
				to = 10000
			}
			go func() {
				var r result
				for i := 0; i < n; i++ {
					r = one(v)
					if r.Status != "ok" {
						break
					}
				}
				ch <- r
			}()
			var r result
			hung := false
			select {
			case r = <-ch:
			case <-time.After(time.Duration(to) * time.Millisecond):
				r = result{ID: v.ID, Status: "hang"}
				hung = true
			}
			b, _ := json.Marshal(r)
			fmt.Println(string(b))
			if hung {
				os.Exit(5)
			}
		}
		if err != nil {
			return
		}
	}
}
