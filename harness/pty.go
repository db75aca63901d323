package main

// Programs with a full screen are run in a pseudo-terminal, and what they draw is kept in a grid of cells.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

type screen struct {
	mu         sync.Mutex
	rows, cols int
	cell       [][]rune
	r, c       int
	left       []byte // an incomplete sequence
	log        []byte
	closed     bool
}

func newScreen(rows, cols int) *screen {
	s := &screen{rows: rows, cols: cols}
	s.clear()
	return s
}

func (s *screen) clear() {
	s.cell = make([][]rune, s.rows)
	for i := range s.cell {
		s.cell[i] = make([]rune, s.cols)
		for k := range s.cell[i] {
			s.cell[i][k] = ' '
		}
	}
}

func (s *screen) put(r rune) {
	if s.c >= s.cols {
		s.c = 0
		s.r = min(s.r+1, s.rows-1)
	}
	s.cell[s.r][s.c] = r
	s.c++
}

// write interprets what a program sends to a terminal.
func (s *screen) write(p []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, p...)
	if len(s.log) > 1<<16 {
		s.log = s.log[len(s.log)-1<<15:]
	}
	b := append(s.left, p...)
	s.left = nil
	for len(b) > 0 {
		switch {
		case b[0] == 27:
			n := s.escape(b)
			if n == 0 {
				s.left = append([]byte{}, b...)
				return
			}
			b = b[n:]
			continue
		case b[0] == '\r':
			s.c = 0
		case b[0] == '\n':
			s.r = min(s.r+1, s.rows-1)
		case b[0] == 8:
			s.c = max(0, s.c-1)
		case b[0] < 32:
		default:
			if !utf8.FullRune(b) {
				s.left = append([]byte{}, b...)
				return
			}
			r, n := utf8.DecodeRune(b)
			s.put(r)
			b = b[n:]
			continue
		}
		b = b[1:]
	}
}

// escape interprets a control sequence, and returns its length, or 0 if it is not complete.
func (s *screen) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '(', ')', '#':
		if len(b) < 3 {
			return 0
		}
		return 3
	case ']':
		if i := bytes.IndexByte(b, 7); i > 0 {
			return i + 1
		}
		return 0
	case '[':
	default:
		return 2
	}
	i := 2
	for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
		i++
	}
	if i == len(b) {
		return 0
	}
	var n []int
	for _, x := range strings.Split(strings.Trim(string(b[2:i]), "?>"), ";") {
		k, _ := strconv.Atoi(x)
		n = append(n, k)
	}
	arg := func(k int) int {
		if k < len(n) && n[k] > 0 {
			return n[k]
		}
		return 1
	}
	switch b[i] {
	case 'H', 'f':
		s.r, s.c = min(arg(0), s.rows)-1, min(arg(1), s.cols)-1
	case 'A':
		s.r = max(0, s.r-arg(0))
	case 'B':
		s.r = min(s.rows-1, s.r+arg(0))
	case 'C':
		s.c = min(s.cols-1, s.c+arg(0))
	case 'D':
		s.c = max(0, s.c-arg(0))
	case 'J':
		if n[0] == 2 {
			s.clear()
			break
		}
		for r := s.r; r < s.rows; r++ {
			for c := range s.cell[r] {
				if r > s.r || c >= s.c {
					s.cell[r][c] = ' '
				}
			}
		}
	case 'K':
		for c := s.c; c < s.cols; c++ {
			s.cell[s.r][c] = ' '
		}
	}
	return i + 1
}

// lines returns what can be seen.
func (s *screen) lines() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for _, r := range s.cell {
		out = append(out, strings.TrimRight(string(r), " "))
	}
	return out
}

// tty is a program running in a pseudo-terminal.
type tty struct {
	*screen
	m    *os.File
	cmd  *exec.Cmd
	done chan error
	tall int
}

func startTTY(rows, cols int, name string, args ...string) *tty {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	ioctl := func(req uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(p)); e != 0 {
			panic(harnessError("ioctl: " + e.Error()))
		}
	}
	var unlock, n int32
	ioctl(0x40045431, unsafe.Pointer(&unlock)) // TIOCSPTLCK
	ioctl(0x80045430, unsafe.Pointer(&n))      // TIOCGPTN
	size := [4]uint16{uint16(rows), uint16(cols)}
	ioctl(0x5414, unsafe.Pointer(&size)) // TIOCSWINSZ
	syscall.SetNonblock(int(m.Fd()), false)
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	defer s.Close()
	t := &tty{screen: newScreen(rows, cols), m: m, done: make(chan error, 1)}
	t.cmd = exec.Command(name, args...)
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = s, s, s
	t.cmd.Env = []string{"TZ=" + os.Getenv("TZ"), "HOME=/nonexistent", "PATH=/usr/bin:/bin", "TERM=xterm", "LC_ALL=C.UTF-8", "LANG=C.UTF-8", "GOMAXPROCS=2", "GOTRACEBACK=single"}
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	if err := t.cmd.Start(); err != nil {
		panic(harnessError(err.Error()))
	}
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := m.Read(buf)
			if n > 0 {
				t.write(buf[:n])
			}
			if err != nil {
				return
			}
		}
	}()
	go func() { t.done <- t.cmd.Wait() }()
	return t
}

// redraw makes the program draw its screen again, by changing its size.
func (t *tty) redraw() {
	t.tall = 1 - t.tall
	size := [4]uint16{uint16(t.rows - t.tall), uint16(t.cols)}
	syscall.Syscall(syscall.SYS_IOCTL, t.m.Fd(), 0x5414, uintptr(unsafe.Pointer(&size)))
	syscall.SetNonblock(int(t.m.Fd()), false)
}

func (t *tty) send(s string) { t.m.WriteString(s) }

// until waits until something is on the screen. It returns the last thing that was missing.
func (t *tty) until(limit time.Duration, missing func(lines []string) string) string {
	end := time.Now().Add(limit)
	wait := time.Millisecond
	next := time.Now().Add(700 * time.Millisecond)
	for {
		msg := missing(t.lines())
		if msg == "" {
			return ""
		}
		select {
		case err := <-t.done:
			t.done <- err
			return fmt.Sprintf("%s has ended (%v): %s", filepath.Base(t.cmd.Path), err, msg)
		case <-time.After(wait):
		}
		if time.Now().After(end) {
			return msg
		}
		if time.Now().After(next) {
			t.redraw()
			next = time.Now().Add(700 * time.Millisecond)
		}
		if wait < 50*time.Millisecond {
			wait *= 2
		}
	}
}

// quit waits for the end of the program.
func (t *tty) wait(limit time.Duration) error {
	select {
	case err := <-t.done:
		t.done <- err
		return err
	case <-time.After(limit):
		return fmt.Errorf("it does not end")
	}
}

func (t *tty) close() {
	t.cmd.Process.Kill()
	<-t.done
	t.m.Close()
}
