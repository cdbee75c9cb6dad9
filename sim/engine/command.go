package engine

import (
	"flag"
	"fmt"
	"math"
	"os"
	"strconv"
	"time"
)

// quick are the runs of the quick tier, unless time runs out first.
var quick = map[string]int64{
	"C01": 14000, "C02": 22000, "C03": 280000, "C04": 110000, "C05": 54000, "C06": 24000, "C07": 800000,
	"C08": 85000, "C09": 120000, "C10": 11000, "C11": 160000, "C12": 35000, "C13": 33000, "C14": 83000,
	"C15": 93000, "C16": 140000, "C17": 134000, "C18": 46000, "C21": 49000,
}

// Command is the main function of the simulator's programs.
func Command() {
	worker := flag.Bool("worker", false, "run as a worker")
	serve := flag.Bool("serve", false, "evaluate tapes from standard input")
	check := flag.String("check", "", "check to run")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int64("from", 0, "first run")
	count := flag.Int("count", 0, "number of runs")
	deadline := flag.Int64("deadline", 0, "unix time in nanoseconds")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Duration("budget", 0, "search time")
	workers := flag.Int("workers", 8, "worker processes")
	maxRuns := flag.Int64("runs", math.MaxInt64/2, "number of runs")
	verif := flag.String("verif", "/verif", "directory of the framework")
	replay := flag.String("replay", "", "replay file")
	race := flag.String("race", "", "binary built with the race detector")
	scratch := flag.String("scratch", "", "directory the workers run in")
	one := flag.Int64("one", -1, "run only this run, and print its event log")
	hashes := flag.Bool("hashes", false, "print the event log hash of runs from..from+count-1")
	child := flag.Bool("child", false, "do one job in this process")
	flag.Parse()
	if *child {
		childMain()
		return
	}
	ck := Checks[*check]
	if ck == nil && *replay == "" {
		die("unknown check %q", *check)
	}
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	Bin, RaceBin, Scratch = self, *race, *scratch
	if Scratch == "" {
		Scratch = os.TempDir()
	}
	switch {
	case *worker:
		Worker(ck, *seed, *from, 1, *count, time.Unix(0, *deadline))
		return
	case *serve:
		Server(ck)
		return
	case *replay != "":
		os.Exit(ReplayMain(*replay))
	case *hashes:
		e := &evaluator{ck: ck}
		for i := *from; i < *from+int64(*count); i++ {
			m, ok := e.ask(map[string]interface{}{"Seed": seedOf(*seed, ck.ID, i), "Keep": i == *one}, time.Minute)
			if i == *one {
				fmt.Fprintln(stderr, m.Log)
			}
			fmt.Fprintf(stdout, "%d %016x %s %v\n", i, m.Hash, m.Kind, ok)
		}
		e.close()
		return
	case *one >= 0:
		e := &evaluator{ck: ck}
		m, ok := e.ask(map[string]interface{}{"Seed": seedOf(*seed, ck.ID, *one), "Keep": true}, time.Minute)
		fmt.Fprintf(stdout, "%s\nkind=%q ok=%v\n%s\ntape %v\n", m.Log, m.Kind, ok, m.Msg, m.Tape)
		e.close()
		return
	}
	if *budget == 0 {
		*budget = 90 * time.Second
		if q := quick[ck.ID]; *tier == "quick" && q > 0 && *maxRuns > q && os.Getenv("VERIF_BUDGET") == "" {
			*maxRuns = q // the same runs every time, on a machine that is fast enough
		}
		if *tier == "thorough" {
			*budget = 10 * time.Minute
		}
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			*budget = time.Duration(n) * time.Second
		}
	}
	if ck.Race && RaceBin == "" {
		die("check %s needs the race detector build", ck.ID)
	}
	os.Exit(Main(ck, Options{
		Seed:      *seed,
		Tier:      *tier,
		Budget:    *budget,
		Workers:   *workers,
		MaxRuns:   *maxRuns,
		Evidence:  *verif + "/evidence/" + ck.ID + ".json",
		ReplayDir: *verif + "/replays",
		KnownFile: *verif + "/known_findings.txt",
	}))
}
