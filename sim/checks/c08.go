package checks

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C08",
		Run: c08,
		Rule: "one run: a ledger opened from a generated journal (up to 3 files), text database or PostgreSQL database is exported to a file, which is opened and exported again, 3 times, in different time zones, map orders and with fragmented reads; each generation must be the same ledger; " +
			"then the export is made up to 6 times on a disk that fills up, fails or crashes after some number of bytes (anywhere, or at line and field boundaries), and what it wrote is opened; trivial: no transactions",
		Real:   []string{"accounting", "backend/ledger (Export and the parser), backend/txtdb, backend/postgres", "fmt, bufio, os above the system calls"},
		Stub:   []string{"openat, read, write, close, stat (simulated disk)", "clock, time zone, map iteration order", "github.com/lib/pq and the PostgreSQL server"},
		Kinds:  []string{"write-error", "disk-full", "crash-truncation", "write-short", "write-eintr", "fragmented-reads"},
		Probes: []string{"from a text database", "from PostgreSQL", "torn: rejected", "torn: accepted", "torn: in a transaction", "torn: with a last transaction of another content", "complete"},
		Known:  []engine.Known{{Name: "text-with-syntax", What: "text of a database that means something in a journal (\"Shop; rent\" as a description) is exported as it is, and read back as something else", Fail: c08syntax}},
	})
}

// generations lets the order of prices of the same instant free: it is not
// written anywhere.
var generations = canon.Opt{NoZeroCur: true}

// starts finds where the transactions of an exported journal start, and where each one ends.
func starts(b []byte) (from, to []int) {
	at := 0
	in := false
	for at < len(b) {
		n := bytes.IndexByte(b[at:], '\n') + 1
		if n == 0 {
			n = len(b) - at
		}
		switch ch := b[at]; {
		case ch >= '0' && ch <= '9':
			if in {
				to = append(to, at)
			}
			from = append(from, at)
			in = true
		case ch == ' ' || ch == '\t':
		default:
			if in {
				to = append(to, at)
				in = false
			}
		}
		at += n
	}
	if in {
		to = append(to, len(b))
	}
	return from, to
}

// txns describes each transaction of a ledger.
func txns(l *accounting.Ledger) (r [][]string) {
	s := canon.Of(l, canon.Opt{NoZeroCur: true, NoBalance: true})
	for _, t := range s.Txns {
		x := canon.Snap{Txns: []canon.Txn{t}}
		r = append(r, x.Lines(canon.Opt{NoZeroCur: true, NoBalance: true}))
	}
	return r
}

// exportTo writes an export to a file, as a program does.
func exportTo(l *accounting.Ledger, name string) error {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	if err := export(f, l); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func c08(c *engine.Ctx) {
	w := c.World()
	var source string
	dbs := map[string]*pq.Database{}
	switch c.N(8) {
	default:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 4, Includes: 2, Automatic: true})
		files := j.Files()
		logFiles(c, files)
		put(w, files)
		source = j.Root
		c.Trivial = j.Empty()
		c.Note = noteJournal(j, files)
	case 6:
		_, a, t := genTxt(c)
		putTxt(w, txtDir, a, t)
		source = "txtdb:" + txtDir
		c.Probe("from a text database")
	case 7:
		st := genPG(c)
		dbs["postgres://db/x"] = &pq.Database{State: st.pg()}
		source = "postgres://db/x"
		c.Probe("from PostgreSQL")
	}
	dial(dbs)
	w.Mkdir("/out")
	o := open(w, anyEnv(c), source)
	must(c, o.Res, "opening "+source)
	if o.Err != nil {
		if strings.Contains(source, ":") { // not all databases are valid: C10 and C11
			c.Trivial = true
			return
		}
		c.Fail("unexpected error", "opening %s: %v", source, o.Err)
	}
	l := o.L
	if len(l.Transactions) == 0 {
		c.Trivial = true
	}
	want := canon.Dump(l, generations)
	first := l
	var whole []byte
	for g := 1; g <= 3; g++ {
		name := fmt.Sprintf("/out/%d.ledger", g)
		env := anyEnv(c)
		var err error
		single(c, w, env, "export", func() { err = exportTo(l, name) })
		if err != nil {
			c.Fail("export failed", "exporting generation %d: %v", g, err)
		}
		text := append([]byte(nil), w.Nodes[name].Data...)
		c.Logf("export %d:\n%s", g, text)
		if g == 1 {
			whole = text
		}
		if c.N(2) == 1 {
			fragment(c, w)
		}
		o := open(w, anyEnv(c), name)
		w.FragStyle = 0
		must(c, o.Res, fmt.Sprintf("opening export %d", g))
		if o.Err != nil {
			c.Fail("export not accepted", "the export (generation %d) cannot be opened: %v\n%s", g, o.Err, clip(text, 3000))
		}
		diff(c, "another ledger", fmt.Sprintf("the export (generation %d) is another ledger", g), want, canon.Dump(o.L, generations), "exported", "reopened")
		if g > 1 {
			l.Close()
		}
		l = o.L
	}
	l.Close()
	c.Probe("complete")
	from, to := starts(whole)
	orig := txns(first)
	if len(from) != len(orig) {
		c.Fail("another ledger", "%d transactions were exported as %d", len(orig), len(from))
	}
	for i := c.Range(1, 6); i > 0; i-- {
		cut := 0
		switch c.N(4) {
		case 0:
			cut = c.N(len(whole) + 1)
		case 1: // within or next to a transaction
			if len(from) > 0 {
				k := c.N(len(from))
				cut = from[k] + c.N(to[k]-from[k]+2)
			}
		case 2: // at a boundary
			var at []int
			for k, ch := range whole {
				if ch == '\n' || ch == ' ' || ch == '.' || ch == ',' {
					at = append(at, k, k+1)
				}
			}
			if len(at) > 0 {
				cut = at[c.N(len(at))]
			}
		case 3:
			if len(to) > 0 {
				cut = to[c.N(len(to))] - 1 - c.N(3)
			}
		}
		if cut > len(whole) {
			cut = len(whole)
		}
		torn(c, w, first, whole, cut, from, to, orig)
	}
	first.Close()
}

// torn makes an export that is cut short, and opens it.
func torn(c *engine.Ctx, w *simos.World, l *accounting.Ledger, whole []byte, cut int, from, to []int, orig [][]string) {
	const name = "/out/torn.ledger"
	mode := c.N(3)
	left := int64(cut)
	w.Fault = func(a simos.Access) simos.Outcome {
		if a.Op != "write" || a.Path != name {
			return simos.Outcome{}
		}
		n := int64(a.N)
		if n <= left {
			left -= n
			if c.N(16) == 15 {
				return simos.Outcome{EINTR: 1, Kind: "write-eintr"}
			}
			return simos.Outcome{}
		}
		if left > 0 {
			s := int(left)
			left = 0
			return simos.Outcome{Short: s, Kind: "write-short"}
		}
		if mode == 0 {
			return simos.Outcome{Errno: syscall.ENOSPC, Kind: "disk-full"}
		}
		return simos.Outcome{Errno: syscall.EIO, Kind: "write-error"}
	}
	env := anyEnv(c)
	if mode == 2 { // the machine crashes: what reached the disk is a prefix
		w.Fault = nil
		w.Fire("crash-truncation")
	}
	var err error
	single(c, w, env, "export cut short", func() { err = exportTo(l, name) })
	w.Fault = nil
	if mode == 2 {
		w.Write(name, append([]byte(nil), w.Nodes[name].Data[:cut]...))
	}
	got := append([]byte(nil), w.Nodes[name].Data...)
	if mode != 2 && !bytes.HasPrefix(whole, got) {
		c.Fail("not a prefix", "the export that failed (%v) wrote %q instead of the beginning of the complete export", err, clip(got, 500))
	}
	cut = len(got)
	complete, inside := 0, -1
	for i := range to {
		if to[i] <= cut {
			complete++
		} else if from[i] < cut {
			inside = i
		}
	}
	if inside >= 0 {
		c.Probe("torn: in a transaction")
	}
	o := open(w, anyEnv(c), name)
	must(c, o.Res, fmt.Sprintf("opening an export cut after %d bytes", cut))
	if o.Err != nil {
		c.Probe("torn: rejected")
		return
	}
	c.Probe("torn: accepted")
	have := txns(o.L)
	o.L.Close()
	what := fmt.Sprintf("the export was cut after %d of %d bytes (%d transactions and %v)", cut, len(whole), complete, inside >= 0)
	if len(have) < complete || len(have) > complete+1 || inside < 0 && len(have) != complete {
		c.Fail("torn export", "%s, but opening it gives %d transactions\n%s", what, len(have), clip(got, 3000))
	}
	for i := 0; i < complete; i++ {
		if d := canon.Diff(orig[i], have[i], "exported", "reopened"); d != "" {
			c.Fail("torn export", "%s, and transaction %d differs:\n%s\n%s", what, i, d, clip(got, 3000))
		}
	}
	if len(have) > complete && strings.Join(orig[complete], "\n") != strings.Join(have[complete], "\n") {
		c.Probe("torn: with a last transaction of another content")
	}
}

// c08syntax exports a text database with a description that a journal cannot hold.
func c08syntax(c *engine.Ctx) bool {
	w := c.World()
	putTxt(w, txtDir, []byte("1:::A::\n2:::B::\n"), []byte("1:2021-01-01:Shop; rent::1:+5.00:\n1:2021-01-01:Shop; rent::2:-5.00:\n"))
	o := open(w, plainEnv(), "txtdb:"+txtDir)
	if o.L == nil || len(o.L.Transactions) != 1 {
		return false
	}
	w.Mkdir("/out")
	var err error
	w.Run(simos.Sched{}, plainEnv(), simos.Job{Name: "export", F: func() { err = exportTo(o.L, "/out/x.ledger") }})
	if err != nil {
		return false
	}
	x := open(w, plainEnv(), "/out/x.ledger")
	return x.Err != nil || x.L == nil || canon.Diff(canon.Dump(o.L, generations), canon.Dump(x.L, generations), "exported", "reopened") != ""
}
