package main

// C16, C17 and C18: what is read from files.

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/cespedes/accounting"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C16

type c16case struct {
	Text []byte
	Inc  []byte `json:",omitempty"` // content of inc.j, which may be included
}

var tokens = []string{"  ", " ", "\t", ";", "; ", "@", "@@", " @ ", " @@ ", "=", " = ", "P ", "D ", "D", "P", "account ", "account", "commodity ", "commodity", "include ", "include inc.j", "include", "2020-01-01", "2020-01-01 x", "2020/02/30", "20",
	"EUR", "1", "0", "-", "+", ".", ",", "_", "'", "1.5", "1,000", "1.000", "-0", "00", "9223372036854775807", "92233720368", "0.000000001", ":", "::", "A", "A:B", "date:", "date:2020-01-01", "code:", "isin:", "date:x", "*", "#", "\x00", "\xff", "\xc3", "\u00a0", "\u0085", "\u2003", "é", "€", "\r", "\r\n", "\n", "\n\n", "\n  ", "\v", "\f", "=*", "==", "\n  A  0 EUR", "\n2020-01-01 t\n", " ; c", "\n ; c\n"}

var randomLines = []string{"P 2020-01-01 EUR 1 USD", "P 2020-01-01 EUR", "P 2020-01-01", "P", "P 2020-01-01 EUR x", "P 2020-01-01  EUR  1", "D 1 EUR", "D EUR", "D", "D -", "D 1.000", "D 1.000,00 EUR", "commodity 1.00 EUR", "commodity EUR", "commodity", "commodity 1,000.00", "account X:Y", "account", "account :", "account a::b", "account  ",
	"include inc.j", "include nothing.j", "include", "include .", "include ..", "include /", "include main.j", "  ; indented", "; text", "  X:Y  0", "  X:Y  0 EUR", "  X:Y  0 EUR @ 1 USD", "  X:Y  0 EUR @@ 1 USD", "  X:Y  @ 1", "  X:Y  0 @", "  X:Y  0 @@", "  X:Y  0 =", "  X:Y  = 0 EUR", "  X:Y  = 0", "  X:Y  0 = 0 @ 1", "  X:Y", "  X:Y  ", "  X:Y  -", "  X:Y  +", "  X:Y  .", "  X:Y  1-2", "  X:Y  0.0.0", "  X:Y  0,0.0", "  X:Y  '", "  @", "  =", "  ==", "2020-01-01", "2020-01-01x", "2020-01-01 12:00", "2020-01-01/12:00:61", "9999-12-31 x", "0000-01-01 x", "-1-01-01", "year", "apply account", "  12", "foo  bar", " P 2020-01-01 EUR 1 USD", " account Z", " include inc.j"}

// mutate changes a text in one place.
func mutate(t *rapid.T, s string) string {
	lines := strings.SplitAfter(s, "\n")
	i := intn(t, "line", 0, len(lines)-1)
	cut := func(s string) (string, string) {
		if s == "" {
			return "", ""
		}
		k := intn(t, "at", 0, len(s))
		return s[:k], s[k:]
	}
	switch pick(t, "mut", "insert", "token", "token", "delete", "dup", "drop", "swap", "line", "line", "line", "byte", "trunc", "join", "indent", "dedent", "flood") {
	case "insert":
		a, b := cut(lines[i])
		lines[i] = a + string(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "bytes")) + b
	case "token":
		a, b := cut(lines[i])
		lines[i] = a + pick(t, "tok", tokens...) + b
	case "delete":
		a, b := cut(lines[i])
		if b != "" {
			lines[i] = a + b[intn(t, "n", 1, len(b)):]
		}
	case "dup":
		lines[i] += lines[i]
	case "drop":
		lines[i] = ""
	case "swap":
		k := intn(t, "line2", 0, len(lines)-1)
		lines[i], lines[k] = lines[k], lines[i]
	case "line":
		lines[i] += pick(t, "new", randomLines...) + "\n"
	case "byte":
		if lines[i] != "" {
			b := []byte(lines[i])
			k := intn(t, "at", 0, len(b)-1)
			b[k] = rapid.Byte().Draw(t, "b")
			lines[i] = string(b)
		}
	case "trunc":
		a, _ := cut(lines[i])
		lines[i] = a
	case "join":
		lines[i] = strings.TrimRight(lines[i], "\r\n")
	case "indent":
		lines[i] = pick(t, "ind", " ", "  ", "\t") + lines[i]
	case "dedent":
		lines[i] = strings.TrimLeft(lines[i], " \t")
	case "flood":
		a, b := cut(lines[i])
		lines[i] = a + strings.Repeat(pick(t, "tok", tokens...), intn(t, "times", 2, 60)) + b
	}
	return strings.Join(lines, "")
}

// zeroAmounts makes a journal whose transactions balance with any of their postings left out.
func zeroAmounts(j *Journal) {
	allTx(j.Items, func(it *Item) {
		for k := range it.Posts {
			if it.Posts[k].A != nil {
				it.Posts[k].A.V = 0
			}
			it.Posts[k].Asr = nil
			it.Posts[k].Cost = nil
		}
	})
}

// contained says whether a text appears as a name in another.
func contained(line, name string) bool { return name == "" || strings.Contains(line, name) }

func init() {
	register(&Check{ID: "C16", Quick: 90000, Thorough: 4500000,
		Rule: "a case is a text: a generated journal (often with only zero amounts, so that it still loads without some lines) with 0 to 8 changes of bytes, tokens, lines and indentation, or lines drawn at random, or random bytes. It must load or fail within the limits, and when it loads, every line which is not blank must be found in the ledger (identifiers, comments, commodities) or reported with file and line. Non-trivial: something was reported, or the text was rejected, and it has three lines at least.",
		Gen: func(t *rapid.T) any {
			var cs c16case
			switch pick(t, "kind", "journal", "journal", "journal", "zero", "zero", "zero", "lines", "bytes") {
			case "journal", "zero":
				o := full
				o.MaxTxn = 4
				o.Junk = true
				zero := chance(t, "zero", 60)
				o.Omit, o.Assert, o.Infer = !zero, !zero, !zero && rapid.Bool().Draw(t, "infer")
				if zero {
					o.Cost = false
				}
				j := genJournal(t, o)
				if zero {
					zeroAmounts(j)
				}
				m := build(j, "/x", "main.j")
				s := m.Files["/x/main.j"]
				for n := intn(t, "nmut", 0, 8); n > 0; n-- {
					s = mutate(t, s)
				}
				cs.Text = []byte(s)
			case "lines":
				var sb strings.Builder
				for n := intn(t, "nlines", 0, 25); n > 0; n-- {
					if chance(t, "tx", 30) {
						sb.WriteString("2020-01-01 x\n")
					}
					sb.WriteString(pick(t, "new", randomLines...) + "\n")
				}
				s := sb.String()
				for n := intn(t, "nmut", 0, 3); n > 0; n-- {
					s = mutate(t, s)
				}
				cs.Text = []byte(s)
			case "bytes":
				if rapid.Bool().Draw(t, "raw") {
					cs.Text = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "text")
				} else {
					var sb strings.Builder
					for n := intn(t, "ntok", 0, 60); n > 0; n-- {
						sb.WriteString(pick(t, "tok", tokens...))
					}
					cs.Text = []byte(sb.String())
				}
			}
			var sb strings.Builder
			for n := intn(t, "ninc", 0, 3); n > 0; n-- {
				sb.WriteString(pick(t, "new", randomLines...) + "\n")
			}
			cs.Inc = []byte(sb.String())
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c16case](raw)
			r := Result{Sample: fmt.Sprintf("%q", cs.Text)}
			// what may be included is inside the scratch directory
			text := string(cs.Text)
			if strings.Contains(text, "include") && (strings.Contains(text, "/dev") || strings.Contains(text, "/proc") || strings.Contains(text, "/sys")) {
				return Result{Discard: true}
			}
			dir := c.root + "/d"
			c.write(map[string]string{dir + "/main.j": text, dir + "/inc.j": string(cs.Inc)})
			c.clearOutput()
			l, err := c.openURL(dir + "/main.j")
			msg := c.stderr()
			nl := strings.Count(text, "\n")
			r.NonTrivial = nl >= 3 && (msg != "" || err != nil)
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf(f, a...) + "\n--- main.j\n" + text + "\n--- inc.j\n" + string(cs.Inc) + "\n--- messages\n" + msg
				return r
			}
			if err != nil {
				r.Classes = append(r.Classes, "rejected")
				if l != nil {
					return fail("an error and a ledger")
				}
				return r
			}
			if l == nil {
				return fail("neither a ledger nor an error")
			}
			if s := c.stdout(); s != "" {
				return fail("written on standard output: %q", s)
			}
			r.Classes = append(r.Classes, "loaded")
			if msg != "" {
				r.Classes = append(r.Classes, "reported")
			}
			if bad := unaccounted(l, dir+"/main.j", text, msg); bad != "" {
				return fail("%s", bad)
			}
			return r
		}})
}

// indexIDs returns the places of all the entries of a ledger.
func indexIDs(l *accounting.Ledger) (ids map[string]bool, coms map[string]bool) {
	ids, coms = map[string]bool{}, map[string]bool{}
	for _, a := range l.Accounts {
		ids[idStr(a.ID)] = true
		coms["code:"+a.Code] = true
	}
	for _, t := range l.Transactions {
		ids[idStr(t.ID)] = true
		for _, s := range t.Splits {
			ids[idStr(s.ID)] = true
		}
	}
	for _, p := range l.Prices {
		ids[idStr(p.ID)] = true
	}
	for _, cs := range l.Comments {
		for _, x := range cs {
			coms[x] = true
		}
	}
	return
}

// unaccounted finds a line of a file which is neither in the ledger nor reported.
func unaccounted(l *accounting.Ledger, file, text, msg string) string {
	ids, coms := indexIDs(l)
	names := map[string]bool{}
	for _, cu := range l.Currencies {
		names[cu.Name] = true
	}
	lines := strings.Split(text, "\n")
	lastD := -1
	for i, s := range lines {
		where := fmt.Sprintf("%s:%d", file, i+1)
		indented := s != "" && (s[0] == ' ' || s[0] == '\t')
		t := strings.TrimFunc(s, unicode.IsSpace)
		if t == "" || ids[where] || mentions(msg, where) {
			continue
		}
		if strings.ContainsRune("*#;", rune(t[0])) {
			if !indented {
				continue // a comment of the file
			}
			com := strings.TrimSpace(t[1:])
			if coms[com] || tagged(com) {
				continue
			}
			return fmt.Sprintf("line %d is neither in the ledger nor reported: %q", i+1, s)
		}
		if !indented {
			w := t
			if k := strings.IndexByte(w, ';'); k >= 0 {
				w = strings.TrimSpace(w[:k])
			}
			word, rest := w, ""
			if k := strings.IndexByte(w, ' '); k > 0 {
				word, rest = w[:k], strings.TrimSpace(w[k+1:])
			}
			switch word {
			case "include":
				if rest != "" {
					lastD = -1
					continue // its lines are in another file
				}
			case "D":
				// a D line alone is allowed (by the grammar): there is no default commodity from then on.
				// Without a name, it is the current default commodity.
				lastD = i
				if strings.Trim(rest, "+-0123456789.,_'") == "" {
					lastD = -1
				}
				continue
			case "commodity":
				ok := false
				for n := range names {
					ok = ok || n != "" && strings.Contains(rest, n)
				}
				if rest != "" && strings.Trim(rest, "+-0123456789.,_'") == "" {
					ok = true // the style of the default commodity
				}
				if ok {
					continue
				}
			}
		}
		return fmt.Sprintf("line %d is neither in the ledger nor reported: %q", i+1, s)
	}
	if lastD >= 0 && (l.DefaultCurrency == nil || !contained(lines[lastD], l.DefaultCurrency.Name)) {
		return fmt.Sprintf("line %d is not followed: the default commodity is %s", lastD+1, curName(l.DefaultCurrency))
	}
	return ""
}

var tagRE = regexp.MustCompile(`(code|isin|date):`)

func tagged(s string) bool { return tagRE.MatchString(s) }

// ---------------------------------------------------------------- C17

type c17case struct {
	J     *Journal `json:",omitempty"`
	T     *TxtDB   `json:",omitempty"`
	Fault string
	At    int // where it is
	N     int // how long
	Sec   int64
	Wrap  int // 0: a single file; otherwise a run of entries is in an included file, 1: from the fault on, 2: up to it, 3: just it, 4: around it
	Len   int // how many other entries are there
	Look  int // how the wrong entry looks
	Com   []string
}

var c17journal = []string{"missing", "directory", "unreadable", "overlong", "incdir", "incoverlong", "incunreadable", "incmissing", "txback", "priceback", "twice", "none"}
var c17txtdb = []string{"t-missing", "t-accdir", "t-accoverlong", "t-txdir", "t-txoverlong", "t-accunreadable", "t-txunreadable", "t-dirmissing"}

// longLine makes a line which does not change the ledger, so that whoever can read it gets the whole of it.
func longLine(n int) string { return "; " + strings.Repeat("x", n) }

func init() {
	register(&Check{ID: "C17", Quick: 24000, Thorough: 1000000,
		Rule: "a case is a valid journal or txtdb directory and one fault at a random place: a file which is missing, is a directory, gives an error when read or has a line of 64 KiB to 200 KiB, in the main or an included file; a transaction or declared price dated before the previous one (down to one second), an account declared twice; or no fault. A faulty source must give an error (naming file and line for the order and the repeated accounts), or, for long lines only, the complete ledger. Non-trivial: there is a fault and something was written before it.",
		Gen: func(t *rapid.T) any {
			cs := c17case{At: intn(t, "at", 0, 40), N: pick(t, "n", 65536, 65534, 65535, 65533, 70000, 131072, 200000), Sec: int64(pick(t, "sec", 1, 60, 3600, 86400, 86401, 31536000))}
			if chance(t, "txtdb", 25) {
				cs.T = genTxtDB(t, &TOpt{MaxTxn: 6})
				cs.Fault = pick(t, "fault", c17txtdb...)
				return cs
			}
			o := full
			o.Assert, o.Infer, o.Junk = false, false, false
			o.MaxTxn = 6
			cs.J = genJournal(t, o)
			cs.J.CRLF, cs.J.NoNL = false, false
			cs.Fault = pick(t, "fault", c17journal...)
			cs.Look = intn(t, "look", 0, 1023)
			cs.Com, _ = genComments(t, &o, 2)
			if chance(t, "wrap?", 50) {
				cs.Wrap = intn(t, "wrap", 1, 4)
				cs.Len = intn(t, "len", 0, 8)
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c17case](raw)
			if cs.T != nil {
				return c.txtFault(cs)
			}
			return c.journalFault(cs)
		}})
}

func (c *Ctx) txtFault(cs c17case) Result {
	dir := c.whole + "/txt"
	r := Result{Sample: cs.Fault + "\n" + cs.T.text(), NonTrivial: true, Classes: []string{cs.Fault}}
	files := cs.T.files(dir)
	acc, tx := dir+"/accounts", dir+"/transactions"
	if _, ok := files[tx]; !ok {
		return Result{Discard: true}
	}
	long := func(f string) {
		lines := strings.SplitAfter(files[f], "\n")
		k := cs.At % len(lines)
		lines[k] = strings.Repeat("x", cs.N) + "\n" + lines[k]
		files[f] = strings.Join(lines, "")
	}
	replace := func(f string) { delete(files, f) }
	switch cs.Fault {
	case "t-missing", "t-accdir", "t-accunreadable":
		replace(acc)
	case "t-txdir", "t-txunreadable":
		replace(tx)
	case "t-accoverlong":
		long(acc)
	case "t-txoverlong":
		long(tx)
	case "t-dirmissing":
		files = nil
	}
	c.write(files)
	switch cs.Fault {
	case "t-accdir":
		must(os.Mkdir(acc, 0o777))
	case "t-txdir":
		must(os.Mkdir(tx, 0o777))
	case "t-accunreadable":
		must(os.Symlink("/proc/self/mem", acc))
	case "t-txunreadable":
		must(os.Symlink("/proc/self/mem", tx))
	}
	c.clearOutput()
	l, err := c.openURL("txtdb:" + dir)
	if err != nil {
		if l != nil {
			r.Fail = "an error and a ledger\n" + r.Sample
		}
		return r
	}
	if strings.HasSuffix(cs.Fault, "overlong") {
		// whoever can read such a line has to read everything
		if d := diff("a directory with a long line", cs.T.lines(true), txtLines(l, true)); d != "" {
			r.Fail = d + "\n" + r.Sample
		}
		return r
	}
	r.Fail = fmt.Sprintf("%s: it is opened without an error (%d accounts, %d transactions)\n%s", cs.Fault, len(l.Accounts), len(l.Transactions), r.Sample)
	return r
}

func (c *Ctx) journalFault(cs c17case) Result {
	j := *cs.J
	r := Result{Classes: []string{cs.Fault}, NonTrivial: cs.Fault != "none"}
	main := c.root + "/main.j"
	at := 0
	if len(j.Items) > 0 {
		at = cs.At % (len(j.Items) + 1)
	}
	ins := func(it ...Item) { j.Items = append(j.Items[:at:at], append(it, j.Items[at:]...)...) }
	inc := c.root + "/inc.j"
	extra := map[string]string{}
	where := "" // item whose line must be named
	bad := -1
	switch cs.Fault {
	case "overlong":
		ins(Item{K: "rem", Text: longLine(cs.N)})
	case "incdir", "incmissing", "incunreadable":
		ins(Item{K: "rem", Text: "include inc.j"})
	case "incoverlong":
		ins(Item{K: "inc", File: "inc.j", Items: []Item{{K: "rem", Text: "; included"}, {K: "rem", Text: longLine(cs.N)}, {K: "acc", Acc: "Included:After"}}})
	case "txback", "priceback":
		kind := map[string]string{"txback": "tx", "priceback": "P"}[cs.Fault]
		var ks []int
		for i, it := range j.Items {
			if it.K == kind {
				ks = append(ks, i)
			}
		}
		if len(ks) == 0 {
			return Result{Discard: true}
		}
		k := ks[cs.At%len(ks)]
		it := Item{K: "tx", Desc: "back in time", T: j.Items[k].T - cs.Sec, DF: 131}
		if kind == "P" {
			it = j.Items[k]
			it.T -= cs.Sec
			if other := ks[cs.Look%len(ks)]; cs.Look&2 != 0 { // the price of another commodity
				it.Cur, it.A = j.Items[other].Cur, j.Items[other].A
			}
		} else if cs.Look&1 != 0 {
			it.Desc = j.Items[k].Desc
			it.Posts = j.Items[k].Posts
			for _, p := range it.Posts {
				if p.Asr != nil || p.A == nil {
					it.Posts = nil
					break
				}
			}
		}
		it.DF, it.Com, it.Inline = cs.Look, cs.Com, cs.Look&4 == 0
		bad = k + 1
		at = bad
		ins(it)
	case "twice":
		var ks []int
		for i, it := range j.Items {
			if it.K == "acc" {
				ks = append(ks, i)
			}
		}
		if len(ks) == 0 {
			return Result{Discard: true}
		}
		k := ks[cs.At%len(ks)]
		// somewhere below it
		bad = k + 1 + cs.N%(len(j.Items)-k)
		at = bad
		ins(Item{K: "acc", Acc: j.Items[k].Acc, Com: cs.Com, Inline: cs.Look&4 == 0})
	}
	from, to := 0, 0 // entries in an included file
	flat := j.Items
	if bad >= 0 && cs.Wrap > 0 {
		before, after := max(0, bad-1-cs.Len), min(len(flat), bad+1+cs.Len)
		switch cs.Wrap {
		case 1:
			from, to = bad, after
		case 2:
			from, to = before, bad
		case 3:
			from, to = bad, bad+1
		case 4:
			from, to = before, after
		}
		r.Classes = append(r.Classes, "included")
	}
	wrap := func(n int) []Item {
		if from == to {
			return flat[:n]
		}
		out := append([]Item{}, flat[:min(from, n)]...)
		if n > from {
			out = append(out, Item{K: "inc", File: "sub/part.j", Items: flat[from:min(to, n)]})
		}
		if n > to {
			out = append(out, flat[to:n]...)
		}
		return out
	}
	j.Items = wrap(len(flat))
	m := build(&j, c.root, "main.j")
	m.compute()
	if m.Err != nil {
		panic(harnessError(fmt.Sprintf("the generator made a wrong journal: %v\n%s", m.Err, m.text(c))))
	}
	if bad >= 0 {
		// the line of an item is the number of lines before it
		part := j
		part.Items = wrap(bad)
		mp := build(&part, c.root, "main.j")
		file := main
		if from <= bad && bad < to {
			file = c.root + "/sub/part.j"
		}
		where = fmt.Sprintf("%s:%d", file, strings.Count(mp.Files[file], "\n")+1)
	}
	files := m.Files
	for f, s := range extra {
		files[f] = s
	}
	r.Sample = cs.Fault + "\n" + shorten(m.text(c))
	switch cs.Fault {
	case "missing", "directory", "unreadable":
		delete(files, main)
	}
	c.write(files)
	switch cs.Fault {
	case "directory":
		must(os.Mkdir(main, 0o777))
	case "unreadable":
		must(os.Symlink("/proc/self/mem", main))
	case "incdir":
		must(os.Mkdir(inc, 0o777))
	case "incunreadable":
		must(os.Symlink("/proc/self/mem", inc))
	}
	c.clearOutput()
	l, err := c.openURL(main)
	msg := c.stderr()
	fail := func(f string, a ...any) Result {
		r.Fail = fmt.Sprintf(f, a...) + "\n" + msg + r.Sample
		return r
	}
	if err != nil && l != nil {
		return fail("an error and a ledger")
	}
	complete := func() string {
		return diff("the ledger", mdump(m, allParts), dump(l, allParts))
	}
	switch cs.Fault {
	case "none":
		if err != nil {
			return fail("a valid journal is rejected: %v", err)
		}
	case "overlong", "incoverlong":
		if err == nil {
			if d := complete(); d != "" {
				return fail("a journal with a long line is opened without an error, and it is not complete: %s", d)
			}
		}
	case "incmissing":
		if err == nil {
			if !mentions(msg, fmt.Sprintf("%s:%d", main, lineOf(files[main], "include inc.j"))) {
				return fail("a missing included file is not reported")
			}
			if d := complete(); d != "" {
				return fail("with a missing included file: %s", d)
			}
		}
	default:
		if err == nil {
			return fail("%s: it is opened without an error (%d accounts, %d transactions)", cs.Fault, len(l.Accounts), len(l.Transactions))
		}
		if where != "" && !mentions(err.Error(), where) {
			return fail("%s: the error does not name %s: %v", cs.Fault, where, err)
		}
	}
	return r
}

func shorten(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n[...]\n" + s[len(s)-1500:]
	}
	return s
}

// lineOf returns the number of the line with that text.
func lineOf(text, line string) int {
	for i, s := range strings.Split(text, "\n") {
		if s == line {
			return i + 1
		}
	}
	return 0
}

// ---------------------------------------------------------------- C18

type c18case struct {
	J *Journal // in a single file
	S *Journal // the same, in several files
	X bool     // additional include lines which must be reported
}

// split moves runs of entries to included files.
func split(t *rapid.T, items []Item, depth int, n *int) []Item {
	out := append([]Item{}, items...)
	for k := intn(t, "nsplits", 0, 2); k > 0 || depth == 0 && *n == 0; k-- {
		a := intn(t, "from", 0, len(out))
		b := intn(t, "to", a, len(out))
		*n++
		it := Item{K: "inc", File: fmt.Sprintf("%sf%d%s", pick(t, "dir", "", "sub/", "sub/sub/", "./", "../", "a b/", "ñ/"), *n, pick(t, "ext", ".j", "", ".journal", ".x.y")), Abs: chance(t, "abs", 20)}
		if depth >= 2 {
			it.File = strings.TrimPrefix(it.File, "../")
		}
		inner := append([]Item{}, out[a:b]...)
		if depth < 4 {
			inner = split(t, inner, depth+1, n)
		}
		it.Items = inner
		out = append(out[:a:a], append([]Item{it}, out[b:]...)...)
	}
	return out
}

// wrongIncludes adds lines which include a missing file, or one which is being read.
func wrongIncludes(t *rapid.T, items []Item) []Item {
	var out []Item
	add := func() {
		if chance(t, "wrong", 25) {
			if rapid.Bool().Draw(t, "missing") {
				out = append(out, Item{K: "raw", Text: "include " + pick(t, "nofile", "nothing.j", "sub/nothing.j", "../none", "/nonexistent/x.j", "./x")})
			} else {
				out = append(out, Item{K: "self", Up: intn(t, "up", 0, 3), Lay: intn(t, "lay", 0, 4)})
			}
		}
	}
	for _, it := range items {
		add()
		if it.K == "inc" && !it.Again {
			it.Items = wrongIncludes(t, it.Items)
		}
		out = append(out, it)
	}
	add()
	return out
}

var msgRE = regexp.MustCompile(`^\S+ \S+ ((?:/|w/).*?):(\d+):? (.*)$`)

// messages returns what was reported, with the text of the line instead of its place.
func messages(files map[string]string, msg string) ([]string, string) {
	var out []string
	for _, s := range strings.Split(strings.TrimSuffix(msg, "\n"), "\n") {
		if s == "" {
			continue
		}
		f := msgRE.FindStringSubmatch(s)
		if f == nil {
			continue // not about a line
		}
		n, _ := strconv.Atoi(f[2])
		text, ok := files[f[1]]
		lines := strings.Split(text, "\n")
		if !ok || n < 1 || n > len(lines) {
			return nil, "a message names a line which does not exist: " + s
		}
		line := strings.TrimRight(lines[n-1], "\r")
		if strings.HasPrefix(line, "include ") {
			continue
		}
		out = append(out, fmt.Sprintf("%q: %s", line, strings.ReplaceAll(f[3], f[1]+":"+f[2], "HERE")))
	}
	return out, ""
}

func init() {
	register(&Check{ID: "C18", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a journal with everything (a few with an error) in a single file, and the same entries spread over up to ten files in several directories, nested, named with relative or absolute paths, one of them perhaps included twice in a row, with lines which include missing files or files being read (under other spellings and symbolic links too). Both load to the model, and give the same messages at the same lines; errors name the right file. Non-trivial: entries in at least two files.",
		Gen: func(t *rapid.T) any {
			o := full
			o.Junk = true
			o.Infer = chance(t, "infer", 20)
			o.Assert = chance(t, "asserts", 50)
			cs := c18case{J: genJournal(t, o)}
			if chance(t, "break", 15) {
				breakJournal(t, &o, cs.J)
			}
			n := 0
			s := *cs.J
			items := cs.J.Items
			if !o.Assert && !o.Infer && chance(t, "again", 25) {
				// the same file twice in a row
				var ks []int
				for i, it := range items {
					if it.K == "tx" || it.K == "P" {
						ks = append(ks, i)
					}
				}
				if len(ks) > 0 {
					k := pick(t, "which", ks...)
					cs.J.Items = append(append(append([]Item{}, items[:k+1]...), items[k]), items[k+1:]...)
					items = append([]Item{}, items...)
					items[k] = Item{K: "inc", File: "twice.j", Items: []Item{items[k]}, Again: true}
				}
			}
			s.Items = split(t, items, 0, &n)
			if chance(t, "x", 40) {
				cs.X = true
				s.Items = wrongIncludes(t, s.Items)
			}
			cs.S = &s
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c18case](raw)
			dir := c.root + "/d/e"
			var r Result
			fm := build(cs.J, c.root+"/flat", "main.j")
			fm.compute()
			sm := build(cs.S, dir, "main.j")
			sm.compute()
			r.Sample = sm.text(c)
			if sm.Odd {
				return Result{Discard: true}
			}
			used := map[string]bool{}
			for _, t := range sm.Txns {
				used[t.ID[:strings.LastIndexByte(t.ID, ':')]] = true
			}
			for _, a := range sm.Accs {
				used[a.ID[:strings.LastIndexByte(a.ID, ':')]] = true
			}
			r.NonTrivial = len(used) >= 2 && len(sm.Txns) > 0
			if len(sm.Files) > 3 {
				r.Classes = append(r.Classes, "files>3")
			}
			if len(sm.Notes) > len(fm.Notes) {
				r.Classes = append(r.Classes, "wrong-include")
			}
			c.write(fm.Files)
			c.write(sm.Files)
			for l, t := range sm.Links {
				must(os.Symlink(t, l))
			}
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf(f, a...) + "\n" + r.Sample
				return r
			}
			c.clearOutput()
			fl, ferr := accounting.Open(c.root + "/flat/main.j")
			fmsg := c.stderr()
			sl, serr := accounting.Open(dir + "/main.j")
			smsg := c.stderr()
			if (ferr != nil) != (serr != nil) {
				return fail("in one file: %v; in several files: %v\n%s", ferr, serr, smsg)
			}
			if (sm.Err != nil) != (serr != nil) {
				return fail("in several files: %v; expected: %+v\n%s", serr, sm.Err, smsg)
			}
			for n := range sm.Notes {
				if !mentions(smsg, n) {
					return fail("nothing is reported at %s\n%s", n, smsg)
				}
			}
			fs, bad := messages(fm.Files, fmsg)
			if bad != "" {
				return fail("%s", bad)
			}
			ss, bad := messages(sm.Files, smsg)
			if bad != "" {
				return fail("%s", bad)
			}
			if d := diff("messages (with the text of their lines)", fs, ss); d != "" {
				return fail("%s\n%s", d, smsg)
			}
			if serr != nil {
				r.Classes = append(r.Classes, "error")
				for _, w := range sm.Err.Where {
					if mentions(serr.Error(), w) {
						return r
					}
				}
				if sm.Err.Kind == "assertion" || sm.Err.Kind == "deadlock" || hasAsserts(sm) {
					return r // several places could be named
				}
				return fail("the error does not name any of %v: %v", sm.Err.Where, serr)
			}
			if d := diff("in several files", mdump(sm, allParts), dump(sl, allParts)); d != "" {
				return fail("%s\n%s", d, smsg)
			}
			noID := everything
			noID.IDs, noID.AutoPrices = false, true
			if d := diff("in one file (expected) and in several (found)", dump(fl, noID), dump(sl, noID)); d != "" {
				return fail("%s\n%s", d, smsg)
			}
			return r
		}})
}

func hasAsserts(m *MLedger) bool {
	for _, t := range m.Txns {
		for _, p := range t.Posts {
			if p.Asr != nil {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C33

// named: the name is in the text as a whole.
func named(text, name string) bool {
	word := func(r rune) bool { return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) }
	first, _ := utf8.DecodeRuneInString(name)
	last, _ := utf8.DecodeLastRuneInString(name)
	for i := 0; i+len(name) <= len(text); i++ {
		if text[i:i+len(name)] != name {
			continue
		}
		before, _ := utf8.DecodeLastRuneInString(text[:i])
		after, _ := utf8.DecodeRuneInString(text[i+len(name):])
		if !(i > 0 && word(before) && word(first)) && !(i+len(name) < len(text) && word(after) && word(last)) {
			return true
		}
	}
	return false
}

type c33case struct {
	J     *Journal
	Split bool
}

func init() {
	register(&Check{ID: "C33", Quick: 30000, Thorough: 1250000,
		Rule: "a case is a well-formed journal with everything (half of them spread over included files), with some accounts and commodities declared before their use, some after being used in other lines of the same kind and some never; the messages printed while loading are exactly one for each name which is not declared, at its first use. Non-trivial: some name is not declared, and some is.",
		Gen: func(t *rapid.T) any {
			o := full
			o.Infer = chance(t, "infer", 20)
			o.Undeclared = chance(t, "undeclared", 85)
			cs := c33case{J: genJournal(t, o), Split: rapid.Bool().Draw(t, "split")}
			if cs.Split {
				n := 0
				cs.J.Items = split(t, cs.J.Items, 0, &n)
			}
			// declarations of things already declared or used in lines which allow it
			if chance(t, "late", 30) {
				k := intn(t, "latecur", 0, len(cs.J.Curs)-1)
				if cs.J.Curs[k].Name != "" {
					cs.J.Items = append(cs.J.Items, Item{K: "cur", Cur: k})
				}
			}
			return cs
		},
		Run: func(c *Ctx, raw json.RawMessage) Result {
			cs := decode[c33case](raw)
			m, _, diag, err := c.load(cs.J)
			m.compute()
			r := Result{Sample: m.text(c)}
			if m.Err != nil || err != nil {
				return Result{Discard: true}
			}
			fail := func(f string, a ...any) Result {
				r.Fail = fmt.Sprintf(f, a...) + "\n--- messages\n" + diag + m.text(c)
				return r
			}
			var lines []string
			for _, s := range strings.Split(diag, "\n") {
				if strings.TrimSpace(s) != "" {
					lines = append(lines, s)
				}
			}
			want := append([]undec{}, m.Undec...)
			sort.SliceStable(want, func(i, j int) bool { return len(want[i].Name) > len(want[j].Name) })
			used := make([]bool, len(lines))
			n := 0
			for _, w := range want {
				found := false
				for i, s := range lines {
					if used[i] || found || !mentions(s, w.Where) {
						continue
					}
					rest := s[strings.Index(s, w.Where)+len(w.Where):]
					if w.Unnamed || named(rest, w.Name) {
						used[i], found = true, true
					}
				}
				if !w.Unnamed {
					n++
				}
				if !found && !w.Unnamed {
					return fail("%q is used at %s without being declared, and that is not reported there (or not once more)", w.Name, w.Where)
				}
			}
			for i, s := range lines {
				if !used[i] {
					return fail("a message about nothing: %s", s)
				}
			}
			r.NonTrivial = n > 0 && n < len(m.Accs)+len(m.Curs)
			r.Classes = []string{fmt.Sprintf("undeclared:%d", min(n, 5))}
			if cs.Split && len(m.Files) > 1 {
				r.Classes = append(r.Classes, "included files")
			}
			return r
		}})
}
