#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.go.txt, meta.json) from tools/seeds/*.seed.py,
against the current HEAD of /repo. mkseeds.py [ID...]: only these."""
import difflib, json, os, subprocess, sys, glob
REPO = "/repo"
OUT = "/tmp/own" if os.environ.get("OWN") else "/verif/seeded"
SEEDS = []
HELPERS = r'''
// ---- helpers of the demonstration

var scratch string

func fail(format string, args ...interface{}) {
	fmt.Printf("BROKEN: "+format+"\n", args...)
	os.RemoveAll(scratch)
	os.Exit(1)
}

func write(name, text string) string {
	p := filepath.Join(scratch, name)
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
	return p
}

func open(name, text string) (*accounting.Ledger, error) {
	return accounting.Open("ledger:" + write(name, text))
}

func load(text string) *accounting.Ledger {
	l, err := open("j.ledger", text)
	if err != nil {
		fail("cannot load: %v", err)
	}
	return l
}

func acc(l *accounting.Ledger, name string) *accounting.Account {
	for _, a := range l.Accounts {
		if a.FullName() == name {
			return a
		}
	}
	fail("no account %s", name)
	return nil
}

func cur(l *accounting.Ledger, name string) *accounting.Currency {
	for _, c := range l.Currencies {
		if c.Name == name {
			return c
		}
	}
	fail("no commodity %s", name)
	return nil
}

func export(l *accounting.Ledger) string {
	var b bytes.Buffer
	ledger.Export(&b, l)
	return b.String()
}

func day(s string) time.Time {
	t, err := ledger.GetDate(s)
	if err != nil {
		panic(err)
	}
	return t
}

func eq(what string, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail("%s: got %v, want %v", what, got, want)
	}
}

// run runs one of the commands (built from cmd/<prog>).
func run(prog string, args ...string) (string, int) {
	bin := filepath.Join(scratch, prog)
	if _, err := os.Stat(bin); err != nil {
		if out, err := exec.Command("go", "build", "-o", bin, "./cmd/"+prog).CombinedOutput(); err != nil {
			fail("build: %s", out)
		}
	}
	c := exec.Command(bin, args...)
	var out, msg bytes.Buffer
	c.Stdout, c.Stderr = &out, &msg
	if err := c.Run(); err != nil {
		return out.String() + msg.String(), 1
	}
	return out.String(), 0
}

var _ = bytes.NewBuffer
var _ = strings.Contains
var _ = sort.Strings
var _ = exec.Command
var _ = time.Now
var _ = binary.BigEndian
var _ = net.Listen
var _ = ledger.Export

func main() {
	log.SetOutput(os.Stdout)
	scratch, _ = os.MkdirTemp("", "seed")
	check()
	os.RemoveAll(scratch)
	fmt.Println("fine")
}
'''
RUN3 = r"""
// run3 is like run, and returns the messages apart.
func run3(prog string, args ...string) (string, int, string) {
	run(prog, "-h")
	c := exec.Command(filepath.Join(scratch, prog), args...)
	var out, msg bytes.Buffer
	c.Stdout, c.Stderr = &out, &msg
	st := 0
	if err := c.Run(); err != nil {
		st = 1
	}
	return out.String(), st, msg.String()
}
"""
SCREEN = r"""
// screen runs a program in a terminal, sends it some keys, and returns what it draws after them.
func screen(prog string, args []string, keys string) string {
	run(prog, "-h")
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	ioctl := func(req uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(p)); e != 0 {
			panic(e)
		}
	}
	var unlock, n int32
	ioctl(0x40045431, unsafe.Pointer(&unlock))
	ioctl(0x80045430, unsafe.Pointer(&n))
	size := [4]uint16{50, 150}
	ioctl(0x5414, unsafe.Pointer(&size))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	c := exec.Command(filepath.Join(scratch, prog), args...)
	c.Stdin, c.Stdout, c.Stderr = s, s, s
	c.Env = append(os.Environ(), "TERM=xterm", "LC_ALL=C.UTF-8")
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	if err := c.Start(); err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var seen []byte
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := m.Read(b)
			mu.Lock()
			seen = append(seen, b[:n]...)
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	// settle waits until there is something new, and nothing more comes.
	settle := func(from int) int {
		last, same := from, 0
		for i := 0; i < 100 && same < 10; i++ {
			time.Sleep(100 * time.Millisecond)
			mu.Lock()
			if len(seen) == last && last > from {
				same++
			} else {
				same = 0
			}
			last = len(seen)
			mu.Unlock()
		}
		return last
	}
	at, from := settle(0), 0
	if keys != "" {
		for _, k := range strings.Split(keys, "|") {
			m.WriteString(k)
			at, from = settle(at), at
		}
		at = from
	} else {
		at = 0
	}
	c.Process.Kill()
	c.Wait()
	mu.Lock()
	defer mu.Unlock()
	return string(seen[at:])
}
"""
IMPORTS = '''package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"log"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/postgres"
	_ "github.com/cespedes/accounting/backend/txtdb"
)
'''
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; anything else: broken. Run in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/cmd/zzdemo/main.go": "$here/demo.go.txt"}}
EOF
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 3
export TMPDIR=$tmp
timeout 120 "$tmp/demo"
'''
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds", "own/*.py" if os.environ.get("OWN") else "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
only = sys.argv[1:]
ids = set()
for id, prop, edits, needs, breaks, demo in SEEDS:
    assert id not in ids, id
    ids.add(id)
    if only and id not in only: continue
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for e in edits:
        f, old, new = e[:3]
        if f not in files:
            t = subprocess.run(["git","-C",REPO,"show","HEAD:"+f],capture_output=True,text=True,check=True).stdout
            files[f] = [t, t]
        n = files[f][1].count(old)
        k = e[3] if len(e) > 3 else None
        if k is None:
            assert n == 1, (id, f, n, old)
            files[f][1] = files[f][1].replace(old, new)
        else:
            parts = files[f][1].split(old)
            files[f][1] = old.join(parts[:k]) + new + old.join(parts[k:])
    out = ""
    touched = 0
    for f, (a, b) in sorted(files.items()):
        base = set(subprocess.run(["git","-C",REPO,"show","e58c279~1:"+f],capture_output=True,text=True,check=True).stdout.splitlines())
        gone = [l[1:] for l in difflib.unified_diff(a.splitlines(), b.splitlines(), n=0, lineterm="") if l[0]=="-" and l[:3]!="---"]
        touched += sum(l in base and l.strip() not in ("","}") for l in gone)
        if any(l not in base for l in gone): print(id, "touches a line of our own:", [l for l in gone if l not in base])
        out += f"diff --git a/{f} b/{f}\n"
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/"+f, "b/"+f))
    if not touched: print(id, "only adds lines")
    open(os.path.join(d, "patch.diff"), "w").write(out)
    imports, helpers = IMPORTS, HELPERS
    if "run3(" in demo: helpers += RUN3
    if "screen(" in demo:
        helpers += SCREEN
        imports = imports.replace('\t"strings"\n', '\t"strings"\n\t"sync"\n\t"syscall"\n').replace('\t"time"\n', '\t"time"\n\t"unsafe"\n')
    if "debug.SetGC" in demo: imports = imports.replace('\t"sort"\n', '\t"runtime/debug"\n\t"sort"\n')
    src = imports + "\n" + demo.strip("\n") + "\n" + helpers
    open(os.path.join(d, "demo.go.txt"), "w").write(src)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")
print(len(SEEDS), "seeds")
