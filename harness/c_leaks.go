package main

// C36: nothing stays open.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

// openURL opens a source, taking note of it when somebody looks at what stays open.
func (c *Ctx) openURL(url string) (*accounting.Ledger, error) {
	l, err := accounting.Open(url)
	if c.watch {
		c.nopen++
		if err == nil && l != nil {
			c.opened = append(c.opened, l)
		}
	}
	return l, err
}

// openFiles lists the files and connections which this process has open.
func openFiles() []string {
	d, err := os.Open("/proc/self/fd")
	must(err)
	names, err := d.Readdirnames(-1)
	self := fmt.Sprint(d.Fd())
	must(err)
	d.Close()
	var out []string
	for _, n := range names {
		x, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil || n == self || strings.HasPrefix(x, "anon_inode:") || strings.HasPrefix(x, "pipe:") {
			continue // the event queue of the Go runtime, the output of the programs
		}
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

type c36case struct {
	ID   string
	Case json.RawMessage
}

func init() {
	subs := []string{"C17", "C17", "C32", "C16", "C01", "C23"}
	register(&Check{ID: "C36", Quick: 24000, Thorough: 500000,
		Rule: "a case is a case of C01, C16, C17, C23 or C32: a journal, txtdb directory or PostgreSQL server, right or with any of their faults. It is opened with the garbage collector stopped, and closed if it opens; afterwards the process has the same files and connections open as before, and as many goroutines. Non-trivial: the source has two files or more, or could not be opened.",
		Gen: func(t *rapid.T) any {
			id := pick(t, "source", subs...)
			raw, err := json.Marshal(checks[id].Gen(t))
			must(err)
			return c36case{id, raw}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c36case](raw)
			r := Result{}
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			c.watch, c.opened, c.nopen = true, nil, 0
			defer func() { c.watch, c.opened = false, nil }()
			before, routines := openFiles(), runtime.NumGoroutine()
			sub := checks[cs.ID].Run(c, cs.Case)
			if sub.Discard || c.nopen == 0 {
				return Result{Discard: true}
			}
			r.Sample = sub.Sample
			r.NonTrivial = len(c.opened) < c.nopen || sub.NonTrivial
			state := "closed"
			if len(c.opened) < c.nopen {
				state = "not opened"
			}
			r.Classes = []string{cs.ID, state}
			for _, l := range c.opened {
				if err := l.Close(); err != nil {
					r.Fail = fmt.Sprintf("a ledger cannot be closed: %v\n%s", err, r.Sample)
					return r
				}
			}
			// connections are closed by other goroutines
			wait := 3 * time.Second
			if c.leaky { // making a failure smaller
				wait = 200 * time.Millisecond
			}
			for limit := time.Now().Add(wait); ; time.Sleep(2 * time.Millisecond) {
				after := openFiles()
				d := diff("open files", before, after)
				n := runtime.NumGoroutine()
				if d == "" && n <= routines {
					return r
				}
				if time.Now().After(limit) {
					c.leaky = true
					if d == "" {
						buf := make([]byte, 1<<16)
						d = fmt.Sprintf("%d goroutines, and there were %d\n%s", n, routines, buf[:runtime.Stack(buf, true)])
					}
					r.Fail = fmt.Sprintf("%s: %s\n%s", state, d, r.Sample)
					return r
				}
			}
		}})
}
