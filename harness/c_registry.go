package main

// C20: the registry of backends and the delegation of operations, in a process of its own for each case.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type drvSpec struct {
	Mode string
	Caps int
	Accs int
	Txs  [][4]int64
	Ret  int

	Inner string `json:",omitempty"` // another data source which it opens to do its work
}

type regOp struct {
	Op   string
	Name string
	D    int
	URL  string
	I    int
	M    string
	A, B int64
	X    int `json:",omitempty"` // which other fields are filled in what is created or edited
}

type c20case struct {
	Drivers []drvSpec
	Ops     []regOp
}

var optional = []string{"Account", "TransactionsInAccount", "TransactionsInInterval", "NewAccount", "EditAccount", "NewTransaction", "EditTransaction", "Flush"}

// schemeOf returns the scheme of a data source ("" if it has none), and whether it can be parsed. The generator
// only makes these forms.
func schemeOf(url string) (string, bool) {
	switch {
	case strings.HasPrefix(url, "://"), strings.HasPrefix(url, ":x"), strings.Contains(url, "%zz"):
		return "", false
	}
	if i := strings.IndexByte(url, ':'); i > 0 && !strings.ContainsAny(url[:i], "/?#") {
		return url[:i], true
	}
	return "", true
}

// expectRegistry runs the scenario in the model.
func expectRegistry(cs c20case) []string {
	var out []string
	say := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	reg := map[string]int{}
	type ledger struct {
		d int
	}
	var ls []ledger
	// driverOf finds the driver of a data source.
	driverOf := func(url string) (int, bool) {
		s, ok := schemeOf(url)
		if !ok {
			return 0, false
		}
		if s == "" {
			for _, x := range []string{"ledger", "txtdb", "postgres"} {
				if _, ok := reg[x]; ok {
					s = x
					break
				}
			}
		}
		k, ok := reg[s]
		return k, s != "" && ok
	}
	for n, o := range cs.Ops {
		say("op %d %s", n, o.Op)
		switch o.Op {
		case "reg":
			if _, dup := reg[o.Name]; dup || o.D < 0 {
				say(" panic")
				continue
			}
			reg[o.Name] = o.D
		case "open":
			k, ok := driverOf(o.URL)
			if !ok {
				say(" error")
				continue
			}
			if in := cs.Drivers[k].Inner; in != "" {
				k2, ok := driverOf(in)
				if ok {
					say(" driver %d Open %s", k2, in)
				}
				if ok && cs.Drivers[k2].Mode == "ok" {
					say(" inner opened")
				} else {
					say(" inner error")
				}
			}
			say(" driver %d Open %s", k, o.URL)
			if m := cs.Drivers[k].Mode; m != "ok" {
				say(" error")
				continue
			}
			say(" opened")
			ls = append(ls, ledger{k})
		case "clone":
			if len(ls) > 0 {
				ls = append(ls, ls[o.I%len(ls)])
			}
		case "call":
			if len(ls) == 0 {
				continue
			}
			k := ls[o.I%len(ls)].d
			d := cs.Drivers[k]
			has := false
			for i, m := range optional {
				if m == o.M && d.Caps>>i&1 == 1 {
					has = true
				}
			}
			ret := func(edit bool) {
				if edit && (d.Ret == 1 || d.Ret == 2) {
					say(" the same error")
				}
				if d.Ret == 0 || d.Ret == 2 {
					say(" the same result")
				} else {
					say(" nothing")
				}
			}
			type tx struct {
				n int
				x [4]int64
			}
			var txs []tx
			for i, x := range d.Txs {
				txs = append(txs, tx{i, x})
			}
			sort.SliceStable(txs, func(i, j int) bool { return txs[i].x[0] < txs[j].x[0] })
			list := func(keep func(x [4]int64) bool) {
				s := "["
				for _, t := range txs {
					if keep(t.x) {
						s += fmt.Sprintf(" %d", t.n)
					}
				}
				say(" transactions %s ]", s)
			}
			switch o.M {
			case "Close":
				say(" conn %d Close", k)
				if d.Ret != 0 {
					say(" the same error")
				}
				say(" nothing")
			case "Refresh":
				say(" conn %d Refresh", k)
			case "Flush":
				if has {
					say(" conn %d Flush", k)
					if d.Ret == 1 || d.Ret == 2 {
						say(" the same error")
					}
				}
				say(" nothing")
			case "Account":
				if has {
					say(" conn %d Account %d", k, o.A)
					ret(false)
					continue
				}
				if o.A >= 0 && o.A < int64(d.Accs) {
					say(" account A%d", o.A)
					say(" of the ledger: true")
				} else {
					say(" nothing")
				}
			case "TransactionsInAccount", "TransactionsInInterval":
				if has {
					if o.M == "TransactionsInAccount" {
						say(" conn %d %s %d", k, o.M, o.A)
					} else {
						say(" conn %d %s %d %d", k, o.M, o.A, o.B)
					}
					if d.Ret == 0 || d.Ret == 2 {
						say(" the same result")
					} else {
						say(" transactions [ ]")
					}
					continue
				}
				if o.M == "TransactionsInAccount" {
					list(func(x [4]int64) bool { return x[1] == o.A || x[2] == o.A })
				} else {
					list(func(x [4]int64) bool { return o.A <= x[0] && x[0] <= o.B })
				}
			case "NewAccount", "EditAccount":
				if !has {
					say(" an error")
					say(" nothing")
					continue
				}
				say(" conn %d %s N%d C%d %d", k, o.M, o.B, o.A, o.A)
				ret(true)
			case "NewTransaction", "EditTransaction":
				if !has {
					say(" an error")
					say(" nothing")
					continue
				}
				desc := fmt.Sprintf("D%d", o.B)
				if o.X&8 != 0 {
					desc = ""
				}
				say(" conn %d %s %s %d %d", k, o.M, desc, o.A*o.B, o.A)
				ret(true)
			}
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C20", Quick: 18000, Thorough: 600000,
		Rule: "a case is up to four drivers (any of the 256 subsets of the optional operations; some open another source themselves, some fail, with or without a connection, or give data which does not balance; the operations return results, errors, both or nothing) and up to 18 steps: register (nil and repeated names too), open with all kinds of data sources, clone, and call the operations of a ledger. It runs in a new process where nothing is registered, and everything the drivers and the caller saw is compared with the model. Non-trivial: something was opened and called.",
		Gen: func(t *rapid.T) any {
			var cs c20case
			for n := intn(t, "ndrivers", 1, 4); n > 0; n-- {
				d := drvSpec{Mode: pick(t, "mode", "ok", "ok", "ok", "ok", "fail", "failboth", "unbalanced"), Caps: intn(t, "caps", 0, 255), Accs: intn(t, "accs", 1, 3), Ret: intn(t, "ret", 0, 3)}
				if chance(t, "inner?", 12) {
					d.Inner = pick(t, "inner", "ledger:i", "txtdb:/i", "x:i", "foo:i", "/i", "postgres:i")
				}
				if chance(t, "nocaps", 25) {
					d.Caps = 0
				}
				for k := intn(t, "ntx", 0, 4); k > 0 || d.Mode == "unbalanced" && len(d.Txs) == 0; k-- {
					d.Txs = append(d.Txs, [4]int64{int64(intn(t, "t", 0, 9)), int64(intn(t, "a", 0, d.Accs-1)), int64(intn(t, "b", 0, d.Accs-1)), int64(intn(t, "v", 1, 99))})
				}
				cs.Drivers = append(cs.Drivers, d)
			}
			names := []string{"ledger", "txtdb", "postgres", "x", "foo", "a+b-c.1"}
			var regd []string
			nopen := 0
			for n := intn(t, "nops", 2, 18); n > 0; n-- {
				if n%3 != 0 && len(regd) == 0 {
					o := regOp{Op: "reg", Name: pick(t, "name", names...), D: intn(t, "d", 0, len(cs.Drivers)-1)}
					regd = append(regd, o.Name)
					cs.Ops = append(cs.Ops, o)
					continue
				}
				if len(regd) > 0 && nopen == 0 && chance(t, "openone", 60) {
					cs.Ops = append(cs.Ops, regOp{Op: "open", URL: pick(t, "scheme", regd...) + ":" + pick(t, "rest", "/a/b", "", "x")})
					nopen++
					continue
				}
				o := regOp{Op: pick(t, "op", "reg", "reg", "open", "open", "call", "call", "call", "clone")}
				switch o.Op {
				case "reg":
					o.Name = pick(t, "name", names...)
					o.D = intn(t, "d", 0, len(cs.Drivers)-1)
					if chance(t, "nil", 12) {
						o.D = -1
					} else {
						regd = append(regd, o.Name)
					}
				case "open":
					rest := pick(t, "rest", "/a/b", "", "x", "//host/path?q=1#f", "/with space", "a b", "?dbname=x", "//u:p@h:5/db")
					switch intn(t, "form", 0, 9) {
					case 0, 1, 2, 3, 4, 5:
						o.URL = pick(t, "scheme", names...) + ":" + rest
					case 6, 7:
						o.URL = pick(t, "bare", "/a/b", "file.j", "a/b:c", "", "/x?y=z", "./z", "dir/with space")
					case 8:
						o.URL = pick(t, "unknown", "nothing:", "ledgers:", "ledge:", "y:", "sqlite:") + rest
					case 9:
						o.URL = pick(t, "wrong", "://x", ":x", "/%zz", "ledger:/%zz")
					}
					if strings.Contains(o.URL, "://host") && strings.HasPrefix(o.URL, "://") {
						o.URL = "x"
					}
				case "call":
					o.I = intn(t, "i", 0, 5)
					o.M = pick(t, "m", append([]string{"Close", "Refresh", "Flush"}, optional...)...)
					o.A, o.B = int64(intn(t, "A", -1, 9)), int64(intn(t, "B", 0, 9))
					if chance(t, "odd", 50) {
						o.X = intn(t, "X", 0, 15)
					}
				case "clone":
					o.I = intn(t, "i", 0, 5)
				}
				cs.Ops = append(cs.Ops, o)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c20case](raw)
			want := expectRegistry(cs)
			r := Result{Sample: string(raw)}
			opened, called := false, false
			for _, s := range want {
				opened = opened || s == " opened"
				called = called || strings.HasPrefix(s, " conn") || strings.HasPrefix(s, " transactions") || strings.HasPrefix(s, " account")
				if s == " panic" {
					r.Classes = append(r.Classes, "panic")
				}
				if strings.HasPrefix(s, " transactions") {
					r.Classes = append(r.Classes, "fallback")
				}
				if strings.HasPrefix(s, " conn") {
					r.Classes = append(r.Classes, "delegated")
				}
			}
			r.NonTrivial = opened && called
			cmd := exec.Command(bin("regworker"))
			cmd.Stdin = bytes.NewReader(raw)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
			err := cmd.Run()
			got := strings.Split(strings.TrimSuffix(so.String(), "\n"), "\n")
			if err != nil {
				ee, ok := err.(*exec.ExitError)
				if !ok || ee.ExitCode() == 7 || ee.ExitCode() < 0 {
					panic(harnessError("regworker: " + err.Error() + se.String()))
				}
				r.Fail = fmt.Sprintf("the program ended: %v\n%s\n%s", err, shorten(se.String()), so.String())
				return r
			}
			for i := 1; i+1 < len(got); i++ {
				// what is opened in vain may be closed
				var k, k2 int
				var url string
				if n, _ := fmt.Sscanf(got[i-1], " driver %d Open %s", &k, &url); n < 1 || got[i+1] != " error" && got[i+1] != " inner error" {
					continue
				}
				if n, _ := fmt.Sscanf(got[i], " conn %d Close", &k2); n == 1 && k2 == k {
					got = append(got[:i], got[i+1:]...)
				}
			}
			if d := diff("what happened", want, got); d != "" {
				r.Fail = d + "\n" + so.String()
			}
			return r
		}})
}
