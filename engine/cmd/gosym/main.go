package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/sym"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2:]))
	}
	dir := flag.String("dir", "/verif/harness", "harness module")
	pkg := flag.String("pkg", "", "harness package")
	fn := flag.String("func", "", "regexp of harness functions")
	workers := flag.Int("j", 8, "workers")
	tmo := flag.Duration("t", 5*time.Minute, "time limit per harness")
	debug := flag.Bool("debug", false, "")
	maxv := flag.Int("v", 1, "violations to collect")
	verbose := flag.Bool("functions", false, "list functions")
	thorough := flag.Bool("thorough", false, "deep bounds")
	one := flag.Bool("one", false, "a single schedule")
	schd := flag.Bool("sched", false, "explore schedules")
	full := flag.Bool("full", false, "every interleaving, without reduction")
	classes := flag.Bool("classes", false, "count the equivalence classes of schedules")
	pre := flag.Int("preempt", -1, "bound on preemptions")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			panic(err)
		}
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := sym.Load(*dir, nil, "github.com/hired/gevulot", "/repo", "vharness", *pkg, "vharness/models")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p.Debug, p.Thorough = *debug, *thorough
	fmt.Println("loaded in", time.Since(t0).Round(time.Millisecond))
	sp := p.SSA.ImportedPackage(*pkg)
	re := regexp.MustCompile("^(" + *fn + ")$")
	var names []string
	for n, mb := range sp.Members {
		if f, ok := mb.(*ssa.Function); ok && strings.HasPrefix(n, "H") && re.MatchString(n) && len(f.Params) == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r := sym.Explore(p, sp.Func(n), sym.Options{Workers: *workers, Timeout: *tmo, QueryCap: 20 * time.Second, MaxViol: *maxv, Sched: *schd || *one, One: *one, Preempt: *pre, Full: *full, Classes: *classes, Replay: true})
		fmt.Printf("%-40s paths=%d assumed=%d checks=%d q=%d (sat %d unsat %d unk %d) solver=%v wall=%v steps=%d timeout=%v pruned=%d schedpts=%d replayed=%d\n", n, r.Paths, r.Assumed, r.Checks,
			r.Queries, r.Sat, r.Unsat, r.UnknownQ, r.SolverTime.Round(time.Millisecond), r.Wall.Round(time.Millisecond), r.Steps, r.TimedOut, r.Pruned, r.SchedPoints, r.Replayed)
		if *classes {
			fmt.Println("   classes:", len(r.Classes))
		}
		for k, v := range r.Truncated {
			fmt.Println("   truncated:", k, v)
		}
		var cs []string
		for k, v := range r.Covered {
			cs = append(cs, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(cs)
		fmt.Println("   covered:", strings.Join(cs, " "))
		for _, v := range r.Violations {
			b, _ := json.Marshal(v.Inputs)
			fmt.Printf("   VIOL %s: %s (replayed %v)\n      %s\n      inputs %s\n", v.Kind, v.Msg, v.Replayed, strings.Join(v.Stack, "\n      "), b)
			for _, t := range v.Trace {
				fmt.Println("        ", t)
			}
		}
		if *verbose {
			var fs []string
			for f := range r.Functions {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			fmt.Println("   functions:", strings.Join(fs, " "))
		}
	}
}
