package main

// C09: exporting a ledger and reading it back.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	"pgregory.net/rapid"
)

// bin is one of the programs of the repository, built from its current tree.
func bin(name string) string { return os.Getenv("VH_BIN") + "/" + name }

// exec1 runs a program to its end.
func exec1(name string, args ...string) (stdout, stderr string, status int) {
	return exec2(nil, name, args...)
}

func exec2(env []string, name string, args ...string) (stdout, stderr string, status int) {
	cmd := exec.Command(name, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = append([]string{"TZ=" + os.Getenv("TZ"), "HOME=/nonexistent", "PATH=/usr/bin:/bin", "GOTRACEBACK=single", "GOMAXPROCS=2"}, env...)
	err := cmd.Start()
	if err == nil {
		// a program which hangs is killed by the limit of CPU time
		lim := [2]uint64{cpuSeconds, cpuSeconds}
		syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), syscall.RLIMIT_CPU, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
		err = cmd.Wait()
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.ExitCode() < 0 {
				if ee.UserTime()+ee.SystemTime() > (cpuSeconds-1)*time.Second {
					panic(fmt.Sprintf("%s %q hangs", filepath.Base(name), args))
				}
				panic(harnessError(name + ": " + ee.String()))
			}
			return o.String(), e.String(), ee.ExitCode()
		}
		panic(harnessError(err.Error()))
	}
	return o.String(), e.String(), 0
}

const cpuSeconds = 15

// books describes what an exported ledger has to keep.
func books(l *accounting.Ledger) []string {
	p := Parts{Tree: true, Entries: true, Values: true, Costs: true, Running: true, Curs: true, Comments: true, Transfer: true}
	d := dump(l, p)
	for i := range d {
		// no decimal sign known is a point
		d[i] = strings.Replace(d[i], ` decimal=""`, ` decimal="."`, 1)
	}
	return d
}

func prices(l *accounting.Ledger, declared bool) []string {
	var out []string
	for _, s := range dump(l, Parts{Prices: true, PriceComments: true, AutoPrices: true}) {
		auto := strings.HasSuffix(s, `comments=["automatic"]`)
		if declared && auto {
			continue
		}
		out = append(out, s)
	}
	if !declared {
		sort.Strings(out)
	}
	return out
}

// equivalent says how b differs from a, or "".
func equivalent(what string, a, b *accounting.Ledger) string {
	if d := diff(what, books(a), books(b)); d != "" {
		return d
	}
	if d := diff(what+", declared prices", prices(a, true), prices(b, true)); d != "" {
		return d
	}
	return diff(what+", all prices", prices(a, false), prices(b, false))
}

// reopen opens an exported text.
func (c *Ctx) reopen(name, text string) (*accounting.Ledger, string) {
	f := c.root + "/" + name
	c.write(map[string]string{f: text})
	c.clearOutput()
	l, err := accounting.Open(f)
	if err != nil {
		return nil, fmt.Sprintf("it does not load: %v\n%s", err, c.stderr())
	}
	return l, ""
}

// reload opens an exported text, which must not give any message.
func (c *Ctx) reload(name, text string) (*accounting.Ledger, string) {
	l, msg := c.reopen(name, text)
	if msg != "" {
		return nil, msg
	}
	if s := c.stderr(); s != "" {
		return nil, "messages when loading it: " + s
	}
	return l, ""
}

func export(l *accounting.Ledger) string {
	var b bytes.Buffer
	ledger.Export(&b, l)
	return b.String()
}

type c09case struct {
	J   *Journal
	CLI int // how it is exported
}

func init() {
	register(&Check{ID: "C09", Quick: 36000, Thorough: 1500000,
		Rule: "a case is a journal with every construct; it is loaded, exported (with the package, or with the print command or the acc program), loaded again, and so on three times; every loaded ledger is compared with the first one in accounts, commodities, entries, comments, costs, assertions, balances, transfer entries and prices, and loading an export must give no message. Non-trivial: two transactions and at least three kinds of cost, assertion, own date, price, comment, exchange or style.",
		Gen: func(t *rapid.T) any {
			o := full
			o.Junk = chance(t, "junk", 10)
			o.Infer = chance(t, "infer", 30)
			return c09case{genJournal(t, o), intn(t, "cli", 0, 39)}
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c09case](raw)
			var r Result
			m, l := c.open(cs.J, &r)
			if r.Fail != "" {
				return r
			}
			in := survey(m)
			kinds := 0
			for _, n := range []int{in.dated, in.cost, in.asr, in.prices, in.exch, in.infer, in.omit} {
				if n > 0 {
					kinds++
				}
			}
			r.NonTrivial = in.tx >= 2 && kinds >= 3
			first := l
			text := export(l)
			switch cs.CLI {
			case 38, 39:
				r.Classes = append(r.Classes, "program")
				var out, msg string
				var st int
				if cs.CLI == 38 {
					out, msg, st = exec1(bin("ledger"), "-f", m.main(c), "print")
				} else {
					out, msg, st = exec1(bin("acc"), m.main(c))
				}
				if st != 0 {
					r.Fail = fmt.Sprintf("exporting fails with status %d: %s\n%s", st, msg, r.Sample)
					return r
				}
				text = out
			}
			before := books(l)
			for k := 1; k <= 3; k++ {
				l2, msg := c.reload(fmt.Sprintf("export%d.j", k), text)
				if msg != "" {
					r.Fail = fmt.Sprintf("export %d: %s\n--- export\n%s\n%s", k, msg, text, r.Sample)
					return r
				}
				if d := equivalent(fmt.Sprintf("export %d, loaded again", k), first, l2); d != "" {
					r.Fail = fmt.Sprintf("%s\n--- export\n%s\n%s", d, text, r.Sample)
					return r
				}
				text = export(l2)
			}
			if d := diff("the ledger after exporting it", before, books(first)); d != "" {
				r.Fail = d + "\n" + r.Sample
			}
			return r
		}})
}
