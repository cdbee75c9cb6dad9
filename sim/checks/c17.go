package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C17",
		Run: c17,
		Rule: "one run: a ledger from a journal, text or PostgreSQL database is exported by Export to simulated files and to other writers, by the print command (alone or several times in one invocation, of the whole or a part of the ledger) and by the export tool, up to 6 times, " +
			"to a destination that fills up, fails for good or for a while, closes its reading end, takes only parts, or is interrupted, at the beginning, the end or anywhere; an error (a status that is not 0) and a prefix of what a healthy destination gets, or success and all of it; trivial: no transactions",
		Real:   []string{"accounting", "backend/ledger (Export, parser), backend/txtdb, backend/postgres", "cmd/ledger, cmd/acc (main functions)", "fmt, bufio, os (also how os.File handles short, interrupted and refused writes), log"},
		Stub:   []string{"openat, read, write, close, stat (simulated disk and standard output)", "SIGPIPE is an exit with status 141", "clock, time zone, map iteration order", "github.com/lib/pq and the PostgreSQL server"},
		Kinds:  []string{"write-error", "disk-full", "broken-pipe", "transient-write-error", "write-short", "write-eintr", "slow-call", "writer-error", "writer-short", "writer-error-with-all"},
		Probes: []string{"reported", "complete", "failed at the first byte", "failed at the last byte", "healthy after the failure", "text database", "PostgreSQL", "export to a file", "export to a writer", "print command", "several prints", "export tool", "after failing the standard error fails too"},
	})
}

// sink is a destination that is not a file.
type sink struct {
	got   []byte
	limit int // it fails after so many bytes
	left  int // so many times; <0 for ever
	style int // 0 nothing of the last write, 1 a part of it, 2 a part without saying why
	hit   bool
}

var errSink = errors.New("the sink is broken")

func (s *sink) Write(p []byte) (int, error) {
	if s.left == 0 || len(s.got)+len(p) <= s.limit {
		s.got = append(s.got, p...)
		return len(p), nil
	}
	s.left--
	s.hit = true
	n := s.limit - len(s.got)
	if s.style == 0 || n < 0 {
		n = 0
	}
	s.got = append(s.got, p[:n]...)
	if s.style == 2 && n > 0 {
		return n, nil // against the rules of io.Writer, but not complete either
	}
	return n, errSink
}

// outlet makes writing to one path fail after some bytes.
type outlet struct {
	c     *engine.Ctx
	path  string
	limit int
	left  int // it refuses so many writes; <0 for ever
	errno syscall.Errno
	part  bool // it takes a part of the write that does not fit
	kind  string
	soft  *plan
	errs  bool // writing to standard error fails, too
	hit   bool
	said  bool
}

func (o *outlet) hook(a simos.Access) simos.Outcome {
	if a.Op == "write" && a.Path == "stderr" && o.errs && o.hit {
		o.said = true
		return simos.Outcome{Errno: o.errno, Kind: o.kind}
	}
	if a.Op == "write" && a.Path == o.path && o.left != 0 && a.Off+int64(a.Len) > int64(o.limit) {
		n := int64(o.limit) - a.Off
		if n > 0 && o.part {
			return simos.Outcome{Short: int(n), Kind: "write-short"}
		}
		o.left--
		o.hit = true
		return simos.Outcome{Errno: o.errno, Kind: o.kind}
	}
	return o.soft.hook(a)
}

// newOutlet chooses a failure somewhere in size bytes, or none.
func newOutlet(c *engine.Ctx, path string, size int) *outlet {
	o := &outlet{c: c, path: path, left: -1, soft: &plan{opens: map[string]bool{}}}
	for n := c.N(4); n > 0; n-- {
		f := &fault{op: "write", n: c.N(30), path: path}
		switch c.N(4) {
		case 0:
			f.kind, f.out.Short = "write-short", 1+c.N(40)
		case 1:
			f.kind, f.out.EINTR = "write-eintr", 1+c.N(5)
		case 2:
			f.kind, f.out.Short, f.n = "write-short", 1+c.N(7), -1
		case 3:
			f.kind, f.out.Delay = "slow-call", 1e9
		}
		f.out.Kind = f.kind
		o.soft.faults = append(o.soft.faults, f)
	}
	o.limit = anywhere(c, size)
	switch c.N(6) {
	case 0: // healthy
		o.left = 0
	case 1:
		o.errno, o.kind, o.part = syscall.ENOSPC, "disk-full", true
	case 2:
		o.errno, o.kind = []syscall.Errno{syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EBADF, syscall.ECONNRESET, syscall.EINVAL}[c.N(6)], "write-error"
	case 3:
		o.errno, o.kind, o.part = syscall.EPIPE, "broken-pipe", c.N(2) == 1
	case 4, 5: // after a while it works again
		o.errno, o.kind, o.part = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.ENOMEM, syscall.ENOBUFS}[c.N(4)], "transient-write-error", c.N(2) == 1
		o.left = 1 + c.N(3)*c.N(3)
	}
	o.errs = c.N(10) == 9
	return o
}

// anywhere chooses a position before the end of something.
func anywhere(c *engine.Ctx, size int) int {
	if size == 0 {
		return 0
	}
	switch c.N(6) {
	case 0:
		return 0
	case 1:
		return size - 1
	case 2:
		return c.N(size)
	case 3:
		k := 50
		if k > size {
			k = size
		}
		return c.N(k)
	case 4:
		k := 50
		if k > size {
			k = size
		}
		return size - 1 - c.N(k)
	}
	return c.N(size)
}

func c17(c *engine.Ctx) {
	w := c.World()
	var source string
	files := map[string][]byte{}
	dbs := map[string]*pq.Database{}
	var f *facts
	switch c.N(10) {
	default:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 4, Includes: 2})
		files = j.Files()
		source = j.Root
		c.Note = noteJournal(j, files)
	case 8:
		_, a, t := genTxt(c)
		files["/db/accounts"] = a
		if t != nil {
			files["/db/transactions"] = t
		}
		source = "txtdb:/db"
		c.Probe("text database")
		c.Note = "text database"
	case 9:
		st := genPG(c)
		source = "postgres://db/x"
		dbs[source] = &pq.Database{State: st.pg()}
		c.Probe("PostgreSQL")
		c.Note = "PostgreSQL database"
	}
	dial(dbs)
	logFiles(c, files)
	put(w, files)
	o := open(w, plainEnv(), source)
	must(c, o.Res, "opening "+source)
	if o.Err != nil {
		c.Trivial = true
		return
	}
	l := o.L
	c.Trivial = len(l.Transactions) == 0
	f = factsIn(l)
	whole := text(c, w, plainEnv(), l)
	for n := c.Range(1, 6); n > 0; n-- {
		switch c.N(4) {
		case 0:
			c.Probe("export to a file")
			name := fmt.Sprintf("/out/%d", n)
			out := newOutlet(c, name, len(whole))
			w.Fault = out.hook
			var err error
			single(c, w, anyEnv(c), "export", func() { err = exportFile(l, name) })
			w.Fault = nil
			out.judge("Export to a file", whole, w.Nodes[name].Data, err != nil, fmt.Sprintf("error %v", err))
		case 1:
			c.Probe("export to a writer")
			s := &sink{limit: anywhere(c, len(whole)), left: []int{0, -1, -1, 1, 2}[c.N(5)], style: c.N(3)}
			var err error
			single(c, w, anyEnv(c), "export", func() { err = export(s, l) })
			if s.hit {
				w.Fire([]string{"writer-error", "writer-error-with-all", "writer-short"}[s.style])
			}
			judge(c, fmt.Sprintf("Export to a writer that fails after %d of %d bytes (%d times, style %d)", s.limit, len(whole), s.left, s.style), whole, s.got, s.hit, err != nil, fmt.Sprintf("error %v", err))
		case 2, 3:
			name, args := "acc", []string{source}
			if c.N(3) > 0 {
				name, args = "ledger", []string{"-f", source}
				c.Probe("print command")
				for k := 1 + c.N(2)*c.N(3); k > 0; k-- {
					if len(args) > 2 {
						args = append(args, "--")
						c.Probe("several prints")
					}
					if c.N(3) == 2 {
						args = append(args, "-b", date(c, f.when(c)))
					}
					if c.N(3) == 2 {
						args = append(args, "-e", date(c, f.when(c)))
					}
					if c.N(5) == 4 {
						args = append(args, "-pivot", f.part(c))
					}
					args = append(args, "print")
				}
			} else {
				c.Probe("export tool")
			}
			machine := func() *simos.World {
				x := c.World()
				put(x, files)
				return x
			}
			x := machine()
			want := command(x, plainEnv(), name, args)
			if want.Exit != 0 {
				c.Fail("unexpected error", "%s %q: exit %d, %s%s", name, args, want.Exit, want.Died, want.Err)
			}
			out := newOutlet(c, "stdout", len(want.Out))
			x = machine()
			x.Fault = out.hook
			got := command(x, anyEnv(c), name, args)
			if got.Died != "" {
				c.Fail("panic", "%s %q: %s", name, args, got.Died)
			}
			out.judge(fmt.Sprintf("%s %q", name, args), want.Out, got.Out, got.Exit != 0, fmt.Sprintf("status %d", got.Exit))
		}
	}
	l.Close()
}

// exportFile writes to a file and says what Export said: closing it is up to others.
func exportFile(l *accounting.Ledger, name string) error {
	f, err := os.Create(name)
	if err != nil {
		return err
	}
	defer f.Close()
	return export(io.Writer(f), l)
}

func (o *outlet) judge(what string, whole, got []byte, failed bool, said string) {
	if o.hit {
		what += fmt.Sprintf(", when writing fails (%s, %v) after %d of %d bytes", o.kind, o.errno, o.limit, len(whole))
		if o.left == 0 {
			o.c.Probe("healthy after the failure")
		}
		if o.said {
			o.c.Probe("after failing the standard error fails too")
		}
	}
	judge(o.c, what, whole, got, o.hit, failed, said)
}

// judge decides about the outcome of an export.
func judge(c *engine.Ctx, what string, whole, got []byte, hit, failed bool, said string) {
	if !hit {
		if failed {
			c.Fail("unexpected error", "%s: %s, but nothing failed", what, said)
		}
		if !bytes.Equal(got, whole) {
			diff(c, "incomplete output", what+": not all was written", strings.Split(string(whole), "\n"), strings.Split(string(got), "\n"), "complete", "written")
			c.Fail("incomplete output", "%s: %d of %d bytes", what, len(got), len(whole))
		}
		c.Probe("complete")
		return
	}
	if !failed {
		c.Fail("failure not reported", "%s: %s", what, said)
	}
	if !bytes.HasPrefix(whole, got) {
		diff(c, "not a prefix", what+": what was written is not the beginning of the complete output", strings.Split(string(whole), "\n"), strings.Split(string(got), "\n"), "complete", "written")
		c.Fail("not a prefix", "%s: what was written is not the beginning of the complete output", what)
	}
	if len(got) == 0 {
		c.Probe("failed at the first byte")
	}
	if len(got) >= len(whole)-1 {
		c.Probe("failed at the last byte")
	}
	c.Probe("reported")
}
