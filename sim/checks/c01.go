package checks

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C01",
		Run: c01,
		Rule: "one run: a generated journal of up to 4 files or of up to 27, each one in another (sometimes with a line of more than 64 KiB, sometimes with missing includes) is opened once without faults (and compared with the same journal in one file, sometimes with megabytes of comments) and 3 times with up to 3 faults placed at system calls of the fault-free run, and sometimes once with a file that includes one of those being read, under any spelling of their names; " +
			"a run is trivial if no fault fired and no read was fragmented",
		Real:  []string{"accounting.Open", "ledger.Fill", "backend/ledger", "bufio, os, internal/poll above the system calls"},
		Stub:  []string{"openat, read, close, stat (simulated disk)", "clock", "standard error"},
		Kinds: append(append([]string{}, readKinds...), "fragmented-reads", "include-cycle", "link"),
		Probes: []string{"include that cannot be opened", "read failed in an include", "root file cannot be opened", "line too long", "opened completely despite faults",
			"error reported", "file that includes itself", "file that includes itself through a link", "root file named from the working directory", "more than 8 files, one in another", "journal of more than a megabyte"},
	})
}

// longLine inserts a line too long to be read at a line boundary of a file.
// It also gives the files with a short line in its place.
func longLine(c *engine.Ctx, files map[string][]byte) (name string, short map[string][]byte) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	n := names[c.N(len(names))]
	lines := strings.SplitAfter(string(files[n]), "\n")
	k := c.N(len(lines) + 1)
	before, after := strings.Join(lines[:k], "")+"; ", "\n"+strings.Join(lines[k:], "")
	if k == len(lines) && k > 0 && !strings.HasSuffix(lines[k-1], "\n") {
		before = strings.Join(lines[:k], "") + "\n; "
	}
	short = map[string][]byte{}
	for n, b := range files {
		short[n] = b
	}
	short[n] = []byte(before + "x" + after)
	files[n] = []byte(before + strings.Repeat("x", 65534+c.N(8)-4) + after)
	return n, short
}

func c01(c *engine.Ctx) {
	j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 6, MaxPrices: 3, Includes: 3, Deep: true, NoImplicit: true})
	files := j.Files()
	long, short := "", files
	if c.N(6) == 5 {
		long, short = longLine(c, files)
		c.Probe("line too long")
	}
	logFiles(c, files)
	src := j.Root
	if c.N(3) == 2 {
		src = "ledger:" + j.Root
	}
	// permanently missing includes
	missing := map[string]bool{}
	errno := syscall.Errno(0)
	if len(j.Inc) > 0 && c.N(5) == 4 {
		k := c.N(len(j.Inc))
		missing[j.Inc[k].Path] = true
		errno = openErrs[c.N(3)]
	}
	reference := func(gone map[string]bool) ([]string, error) {
		w := c.World()
		fs := map[string][]byte{}
		for n, b := range short { // a line too long to be read is an error, or changes nothing
			fs[n] = b
			if gone[n] {
				fs[n] = nil
			}
		}
		put(w, fs)
		var r []string
		var err error
		pristine(func() {
			o := open(w, plainEnv(), src)
			must(c, o.Res, "opening without faults")
			if err = o.Err; err == nil {
				r = canon.Dump(o.L, exact)
			}
		})
		return r, err
	}
	whole, err := reference(nil)
	if err != nil {
		c.Fail("error without fault", "nothing failed, but Open said: %v", err)
	}
	if long == "" {
		c01flat(c, j, files, src, whole)
	}
	var counts map[string]int
	{ // how many calls are there to spoil?
		w := c.World()
		put(w, files)
		fragment(c, w)
		frag := [3]int{w.FragStyle, w.FragSize, int(w.FragSeed)}
		o := open(w, plainEnv(), src)
		must(c, o.Res, "opening with fragmented reads")
		counts = copyCounts(w.Counts)
		if o.Err != nil && long == "" {
			c.Fail("error without fault", "only fragmented reads, but Open said: %v", o.Err)
		}
		if o.Err == nil && whole != nil {
			diff(c, "silent loss", "fragmented reads change the ledger", whole, canon.Dump(o.L, exact), "whole reads", "fragmented reads")
		}
		c.Trivial = frag[0] == 0
		for try := 0; try < 3; try++ {
			w := c.World()
			put(w, files)
			for n := range missing {
				w.Nodes[n].Err = errno
			}
			w.FragStyle, w.FragSize, w.FragSeed = frag[0], frag[1], uint64(frag[2])
			p := makePlan(c, counts, 3)
			w.Fault = p.hook
			c01one(c, w.OpenFDs, p, j, src, files, missing, whole, long, reference, func() opened { return open(w, anyEnv(c), src) }, func() []byte { return w.Stderr })
		}
	}
	c.Note = fmt.Sprintf("%s; %v", noteJournal(j, files), counts)
	if long == "" && c.N(2) == 1 {
		c01loop(c, j, files, whole)
	}
}

// c01flat compares the ledger with that of the same journal written in one file,
// sometimes with many comments in it.
func c01flat(c *engine.Ctx, j *jmodel.Journal, files map[string][]byte, src string, whole []string) {
	big := c.N(24) == 23
	if len(j.Inc) == 0 && !big {
		return
	}
	if len(j.Inc) > 8 {
		c.Probe("more than 8 files, one in another")
	}
	opt := exact
	opt.IDs = false
	dump := func(files map[string][]byte, src, what string) (d []string) {
		w := c.World()
		put(w, files)
		pristine(func() {
			o := open(w, plainEnv(), src)
			must(c, o.Res, what)
			if o.Err != nil {
				c.Fail("error without fault", "%s: nothing failed, but Open said: %v", what, o.Err)
			}
			d = canon.Dump(o.L, opt)
		})
		return d
	}
	flat := *j
	flat.Inc = nil
	want := dump(flat.Files(), j.Root, "everything in one file")
	what := "in several files"
	if big {
		files = pad(c, files)
		what = "with many comments"
		c.Probe("journal of more than a megabyte")
	}
	diff(c, "silent loss", what+": the ledger is not that of the same journal in one file", want, dump(files, src, what), "in one file", what)
}

// pad puts megabytes of comments at a line boundary of a file.
func pad(c *engine.Ctx, files map[string][]byte) map[string][]byte {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	fs := map[string][]byte{}
	for _, n := range names {
		fs[n] = files[n]
	}
	n := names[c.N(len(names))]
	lines := strings.SplitAfter(string(files[n]), "\n")
	k := c.N(len(lines))
	line := "; " + strings.Repeat("x", c.Range(20, 65000)) + "\n"
	fs[n] = []byte(strings.Join(lines[:k], "") + strings.Repeat(line, c.Range(1<<20, 5<<20)/len(line)) + strings.Join(lines[k:], ""))
	return fs
}

// spell gives another name of the same file.
func spell(c *engine.Ctx, name string) string {
	dir, base := path.Split(name)
	switch c.N(5) {
	case 1:
		return dir + "./" + base
	case 2:
		return dir + "../" + path.Base(dir) + "/" + base
	case 3:
		return strings.TrimSuffix(dir, "/") + "//" + base
	case 4:
		return strings.Replace(name, "/", "//", 1)
	}
	return name
}

// c01loop opens a journal in which one of the files includes a file that is being read.
func c01loop(c *engine.Ctx, j *jmodel.Journal, files map[string][]byte, whole []string) {
	name := func(f int) string {
		if f == 0 {
			return j.Root
		}
		return j.Inc[f-1].Path
	}
	// Reading twice a file that says what an account is would be an error anyway.
	var all, silent [][2]int
	for f := range len(j.Inc) + 1 {
		for target := f; ; target = j.Inc[target-1].Parent {
			all = append(all, [2]int{f, target})
			if !bytes.Contains(files[name(target)], []byte("account ")) {
				silent = append(silent, [2]int{f, target})
			}
			if target == 0 {
				break
			}
		}
	}
	if len(silent) > 0 && c.N(4) > 0 {
		all = silent
	}
	which := all[c.N(len(all))]
	f, target := which[0], which[1]
	fs := map[string][]byte{}
	for n, b := range files {
		fs[n] = b
	}
	in := spell(c, name(target))
	src := spell(c, j.Root)
	if strings.HasPrefix(src, "//") {
		src = j.Root // the name of a host
	}
	if c.N(4) == 3 {
		src = strings.TrimPrefix(j.Root, simos.Cwd+"/")
		c.Probe("root file named from the working directory")
	}
	w := c.World()
	dir, link, alias := path.Dir(name(f)), c.N(6), ""
	switch link {
	case 3, 4: // a link to the file
		alias = dir + "/alias.j"
		in = alias
		if target == 0 && path.Dir(j.Root) == dir && c.N(2) == 1 {
			in, src = j.Root, alias // opened by that name, and included by its own
		}
	case 5: // a link to its directory
		alias = dir + "/alias"
		in = alias + "/" + path.Base(name(target))
	}
	if path.Dir(in) == dir && c.N(4) == 3 {
		in = path.Base(in)
	}
	b := append([]byte(nil), fs[name(f)]...)
	if len(b) > 0 && b[len(b)-1] != '\n' {
		b = append(b, '\n')
	}
	fs[name(f)] = append(b, "include "+in+"\n"...)
	put(w, fs)
	switch link {
	case 3:
		w.Links = map[string]string{alias: name(target)}
	case 4:
		w.Nodes[alias] = w.Nodes[name(target)]
	case 5:
		w.Links = map[string]string{alias: path.Dir(name(target))}
	}
	if alias != "" {
		w.Fire("link")
		c.Probe("file that includes itself through a link")
	}
	fragment(c, w)
	w.Fire("include-cycle")
	c.Probe("file that includes itself")
	what := fmt.Sprintf("%s, in which %s ends including %s", src, name(f), in)
	o := open(w, anyEnv(c), src)
	must(c, o.Res, what)
	c.Logf("%s: error %v", what, o.Err)
	if o.Err != nil {
		return
	}
	opt := exact
	opt.IDs = src == j.Root
	if !opt.IDs {
		x := c.World()
		put(x, files)
		pristine(func() {
			o := open(x, plainEnv(), j.Root)
			must(c, o.Res, "opening without faults")
			whole = canon.Dump(o.L, opt)
		})
	}
	got := canon.Dump(o.L, opt)
	diff(c, "data twice", what+": the ledger is not what is written", whole, got, "without that include", "with it")
	if !bytes.Contains(w.Stderr, []byte(path.Base(name(target)))) && !bytes.Contains(w.Stderr, []byte(path.Base(in))) {
		c.Fail("no diagnostic", "%s: nothing says that it was not included; standard error: %q", what, w.Stderr)
	}
}

func c01one(c *engine.Ctx, fds func() []string, p *plan, j *jmodel.Journal, src string, files map[string][]byte, missing map[string]bool, whole []string, long string,
	reference func(map[string]bool) ([]string, error), run func() opened, stderr func() []byte) {
	o := run()
	if len(p.fired) > 0 {
		c.Trivial = false
	}
	what := "faults: " + strings.Join(p.fired, "; ")
	must(c, o.Res, what)
	gone := map[string]bool{}
	for n := range missing {
		gone[n] = true
		what += "; missing " + n
	}
	for n := range p.opens {
		gone[n] = true
	}
	c.Logf("%s: error %v", what, o.Err)
	if p.opens[j.Root] {
		c.Probe("root file cannot be opened")
	}
	if o.Err != nil {
		c.Probe("error reported")
		if !p.hard && len(missing) == 0 && long == "" {
			c.Fail("error without fault", "%s: nothing really failed, but Open said: %v", what, o.Err)
		}
		return
	}
	got := canon.Dump(o.L, exact)
	if whole != nil && canon.Diff(whole, got, "", "") == "" {
		c.Probe("opened completely despite faults")
		return
	}
	if p.opens[j.Root] {
		c.Fail("silent loss", "%s: the root file could not be opened, but Open gave no error", what)
	}
	if len(gone) == 0 {
		diff(c, "silent loss", what+": Open gave no error, but the ledger is not the whole one", whole, got, "expected", "got")
	}
	c.Probe("include that cannot be opened")
	want, err := reference(gone)
	if err != nil {
		c.Fail("silent loss", "%s: Open gave no error, although what is left of the journal cannot be opened: %v", what, err)
	}
	diff(c, "silent loss", what+": apart from the missing include, the ledger is not the whole one", want, got, "expected", "got")
	for n := range gone {
		if opened := reachable(j, gone, n); opened && !bytes.Contains(stderr(), []byte(path.Base(n))) {
			c.Fail("no diagnostic", "%s: an include could not be opened and no diagnostic names it; standard error: %q", what, stderr())
		}
	}
}

// reachable tells whether the file is included by files that could be opened.
func reachable(j *jmodel.Journal, gone map[string]bool, name string) bool {
	for k, in := range j.Inc {
		if in.Path == name {
			for f := in.Parent; f != 0; f = j.Inc[f-1].Parent {
				if gone[j.Inc[f-1].Path] {
					return false
				}
			}
			_ = k
			return true
		}
	}
	return false
}
