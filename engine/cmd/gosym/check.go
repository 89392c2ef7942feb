package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"gosym/sym"
)

const (
	verifDir = "/verif"
	repoDir  = "/repo"
	target   = "github.com/hired/gevulot"
)

type replayFile struct {
	Property string      `json:"property"`
	Package  string      `json:"package"`
	Harness  string      `json:"harness"`
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	Stack    []string    `json:"stack"`
	Inputs   []sym.Input `json:"inputs"`
	Trace    []string    `json:"trace,omitempty"`
	Thorough bool        `json:"thorough"`
	Replay   string      `json:"replay"`
}

type native struct {
	Outcome string   `json:"outcome"` // ok, skip, violated, panic
	Msg     string   `json:"msg"`
	Covered []string `json:"covered"`
}

// replayer runs harnesses compiled natively against the working tree.
type replayer struct {
	dir string
	bin string
	err error
}

func newReplayer(hs []*sym.Harness) *replayer {
	r := &replayer{}
	r.dir, r.err = os.MkdirTemp("", "gosym-replay-")
	if r.err != nil {
		return r
	}
	pkgs := map[string]string{}
	var imports, entries []string
	for _, h := range hs {
		if _, ok := pkgs[h.Pkg]; !ok {
			a := fmt.Sprintf("p%d", len(pkgs))
			pkgs[h.Pkg] = a
			imports = append(imports, fmt.Sprintf("\t%s %q\n", a, h.Pkg))
		}
		entries = append(entries, fmt.Sprintf("\t%q: %s.%s,\n", h.Pkg+"."+h.Name, pkgs[h.Pkg], h.Name))
	}
	src := replayMain1 + strings.Join(imports, "") + ")\n\nvar registry = map[string]func(){\n" + strings.Join(entries, "") + "}\n" + replayMain2
	f := filepath.Join(r.dir, "main.go")
	os.WriteFile(f, []byte(src), 0o644)
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {verifDir + "/harness/replay/main.go": f}})
	ovf := filepath.Join(r.dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	r.bin = filepath.Join(r.dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", r.bin, "vharness/replay")
	cmd.Dir = verifDir + "/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("building the replay: %v: %s", err, out)
	}
	return r
}

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *replayer) run(h *sym.Harness, inputs []sym.Input, thorough bool) native {
	if r.err != nil {
		return native{Outcome: "error", Msg: r.err.Error()}
	}
	f := filepath.Join(r.dir, "in.json")
	b, _ := json.Marshal(map[string]interface{}{"inputs": inputs, "thorough": thorough})
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command("/bin/bash", "-c", `ulimit -v 6000000; exec timeout -s KILL 20 "$0" "$1" "$2"`, r.bin, h.Pkg+"."+h.Name, f)
	cmd.Dir = r.dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var n native
	for _, l := range strings.Split(so.String(), "\n") {
		if rest, ok := strings.CutPrefix(l, "REPLAY "); ok {
			if json.Unmarshal([]byte(rest), &n) == nil {
				return n
			}
		}
	}
	msg := se.String()
	if len(msg) > 600 {
		msg = msg[:600]
	}
	if err == nil {
		return native{Outcome: "error", Msg: "no outcome reported"}
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 137 {
		return native{Outcome: "fatal", Msg: "no end within 20 s"}
	}
	return native{Outcome: "fatal", Msg: msg}
}

const replayMain1 = `package main

import (
	"encoding/json"
	"fmt"
	"os"

	"vharness/verif"
`

const replayMain2 = `
func main() {
	out := map[string]interface{}{"outcome": "ok"}
	if err := verif.Load(os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case verif.Violated:
				out["outcome"], out["msg"] = "violated", r.Msg
			case verif.Skip:
				out["outcome"], out["msg"] = "skip", r.Msg
			default:
				out["outcome"], out["msg"] = "panic", fmt.Sprint(r)
			}
		}()
		registry[os.Args[1]]()
	}()
	out["covered"] = verif.Covered()
	b, _ := json.Marshal(out)
	fmt.Printf("REPLAY %s\n", b)
}
`

// knownFindings reads the committed list of recorded, unrepaired defects.
func knownFindings(prop string) []map[string]string {
	b, err := os.ReadFile(verifDir + "/known-findings.txt")
	if err != nil {
		return nil
	}
	var out []map[string]string
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		m := map[string]string{}
		for _, f := range strings.Split(rest, "|") {
			k, v, _ := strings.Cut(strings.TrimSpace(f), "=")
			m[k] = v
		}
		if m["property"] == prop {
			out = append(out, m)
		}
	}
	return out
}

func matches(f map[string]string, h *sym.Harness, v *sym.Violation) bool {
	if f["harness"] != h.Name || f["msg"] == "" || !strings.Contains(v.Msg, f["msg"]) {
		return false
	}
	if at := f["at"]; at != "" {
		return strings.Contains(strings.Join(v.Stack, "\n"), at)
	}
	return true
}

func runCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	workers := fs.Int("j", 8, "workers")
	budget := fs.Duration("budget", 0, "time for the whole check")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 12 * time.Minute
		if thorough {
			*budget = 4 * time.Hour
		}
	}
	start := time.Now()
	deadline := start.Add(*budget)
	pkgs := []string{"vharness/models"}
	ms, _ := filepath.Glob(verifDir + "/harness/h*/*.go")
	seen := map[string]bool{}
	for _, f := range ms {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if rest, ok := strings.CutPrefix(l, "//verif:props "); ok {
				for _, w := range strings.Fields(rest) {
					d := "vharness/" + filepath.Base(filepath.Dir(f))
					if w == *prop && !seen[d] {
						seen[d] = true
						pkgs = append(pkgs, d)
					}
				}
			}
		}
	}
	if len(pkgs) == 1 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	p, err := sym.Load(verifDir+"/harness", nil, target, repoDir, "vharness", pkgs...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p.Thorough = thorough
	races := 2
	if *prop == "C28" {
		races = 1
	}
	var hs []*sym.Harness
	for _, h := range p.Harnesses {
		for _, q := range h.Props {
			if q == *prop && (thorough || h.Opts["tier"] != "thorough") {
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	loadT := time.Since(start)
	rp := newReplayer(hs)
	defer rp.close()

	known := knownFindings(*prop)
	hit := map[int]bool{}
	var notes []string
	note := func(f string, a ...interface{}) {
		s := fmt.Sprintf(f, a...)
		fmt.Println(s)
		notes = append(notes, s)
	}
	type hev struct {
		Harness     string         `json:"harness"`
		What        string         `json:"what"`
		Bound       string         `json:"bound"`
		Paths       int            `json:"paths"`
		Assertions  int            `json:"assertions_discharged"`
		Queries     int            `json:"queries"`
		Sat         int            `json:"sat"`
		Unsat       int            `json:"unsat"`
		Unknown     int            `json:"unknown"`
		SolverS     float64        `json:"solver_s"`
		WallS       float64        `json:"wall_s"`
		Covers      map[string]int `json:"reachability_witnesses"`
		Reduced     map[string]int `json:"reduced_bounds,omitempty"`
		Incomplete  bool           `json:"incomplete,omitempty"`
		Missing     []string       `json:"witnesses_missing,omitempty"`
		SchedPoints int            `json:"schedule_decisions,omitempty"`
	}
	var evs []hev
	funcs := map[string]int{}
	var samples []interface{}
	states, validated, mismatched, violations := 0, 0, 0, 0
	var trans int64
	complete := true
	type found struct {
		file string
	}
	var founds []found
	os.MkdirAll(verifDir+"/evidence/replays", 0o755)
	for i, h := range hs {
		left := time.Until(deadline)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		lim := left
		if n := len(hs) - i; n > 1 {
			lim = left * 2 / time.Duration(n+1)
		}
		maxv := 1
		for _, f := range known {
			if f["harness"] == h.Name {
				maxv += 40
			}
		}
		r := sym.Explore(p, h.Fn, sym.Options{Workers: *workers, Timeout: lim, QueryCap: 20 * time.Second, MaxViol: maxv, Sched: h.Opts["sched"] != "", One: h.Opts["sched"] == "one", Preempt: atoi(h.Opts["preempt"], -1), Races: races, Replay: h.Opts["replay"] == "engine"})
		e := hev{Harness: h.Pkg + "." + h.Name, What: h.Doc, Bound: h.Bound, Paths: r.Paths, Assertions: r.Checks, Queries: r.Queries, Sat: r.Sat, Unsat: r.Unsat,
			Unknown: r.UnknownQ, SolverS: r.SolverTime.Seconds(), WallS: r.Wall.Seconds(), Covers: r.Covered, Incomplete: r.TimedOut, SchedPoints: r.SchedPoints}
		if len(r.Truncated) > 0 {
			e.Reduced = r.Truncated
		}
		for _, c := range h.Covers {
			if r.Covered[c] == 0 {
				e.Missing = append(e.Missing, c)
			}
		}
		if r.TimedOut || len(r.Truncated) > 0 || len(e.Missing) > 0 {
			complete = false
			note("NOTE: %s: reduced: timed out=%v truncated=%v witnesses missing=%v", h.Name, r.TimedOut, r.Truncated, e.Missing)
		}
		states += r.Paths
		trans += r.Steps
		for f := range r.Functions {
			if strings.Contains(f, target) {
				funcs[strings.ReplaceAll(f, target+"/", "")] += r.Functions[f]
			}
		}
		evs = append(evs, e)
		fmt.Printf("%-28s paths=%d assertions=%d queries=%d (unknown %d) solver=%.1fs wall=%.1fs\n", h.Name, r.Paths, r.Checks, r.Queries, r.UnknownQ, e.SolverS, e.WallS)
		// validate the encoding: explored paths run natively must end the same way
		nat := h.Opts["replay"] != "engine"
		if nat {
			n := 0
			for _, s := range r.Samples {
				if n >= 6 {
					break
				}
				n++
				o := rp.run(h, s.Inputs, thorough)
				if o.Outcome == "ok" && strings.Join(uniq(o.Covered), " ") == strings.Join(uniq(s.Covers), " ") {
					validated++
				} else {
					mismatched++
					note("NOTE: %s: native run of an explored path: %s %s covers %v, engine %v", h.Name, o.Outcome, o.Msg, uniq(o.Covered), uniq(s.Covers))
				}
			}
		} else {
			validated += r.Replayed
		}
		for k, s := range r.Samples {
			if k < 2 {
				samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": s.Inputs, "covers": uniq(s.Covers)})
			}
		}
		reported := false
		for _, v := range r.Violations {
			listed := false
			for k, f := range known {
				if matches(f, h, v) {
					listed = true
					if !hit[k] {
						hit[k] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f["what"])
					}
				}
			}
			if listed || reported {
				continue
			}
			rf := replayFile{Property: *prop, Package: h.Pkg, Harness: h.Name, Kind: v.Kind, Msg: v.Msg, Stack: v.Stack, Inputs: v.Inputs, Trace: v.Trace, Thorough: thorough}
			if nat {
				o := rp.run(h, v.Inputs, thorough)
				rf.Replay = o.Outcome + ": " + o.Msg
				if o.Outcome != "violated" && o.Outcome != "panic" && o.Outcome != "fatal" {
					note("NOTE: %s: counterexample not reproduced natively (%s): %s: %s", h.Name, rf.Replay, v.Kind, v.Msg)
					complete = false
					continue
				}
			} else {
				if !v.Replayed {
					note("NOTE: %s: counterexample not reproduced by re-execution: %s: %s", h.Name, v.Kind, v.Msg)
					complete = false
					continue
				}
				rf.Replay = "re-executed on the same code with these concrete values and this schedule"
			}
			f := fmt.Sprintf("%s/evidence/replays/%s-%s.json", verifDir, *prop, h.Name)
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("  %s: %s\n  %s\n", v.Kind, v.Msg, strings.Join(v.Stack, "\n  "))
			violations++
			reported = true
			founds = append(founds, found{f})
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	q, sat, unsat, unk, chk := 0, 0, 0, 0, 0
	st := 0.0
	for _, e := range evs {
		q += e.Queries
		sat += e.Sat
		unsat += e.Unsat
		unk += e.Unknown
		chk += e.Assertions
		st += e.SolverS
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": []string{
			"the interpreter of go/ssa instructions in /verif/engine and z3 are trusted; explored paths are re-run natively to validate them",
			"only the stated bounds are covered; a reduced or incomplete harness is marked so",
			"standard-library pieces replaced by stand-ins are those marked verif:replace in /verif/harness/models; logging has empty bodies",
		},
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"states_are": "symbolic paths explored to their end", "transitions_are": "SSA instructions executed symbolically",
			"functions_encoded": fl, "harnesses": evs, "queries": q, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk,
			"assertions_discharged": chk, "solver_s": st, "load_s": loadT.Seconds(), "native_mismatches": mismatched, "complete_within_bounds": complete, "notes": notes,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(fmt.Sprintf("%s/evidence/%s.json", verifDir, *prop), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(founds) > 0 {
		for _, f := range founds {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f.file)
		}
		return 1
	}
	fmt.Printf("%s held on everything explored (%.0f s)\n", *prop, time.Since(start).Seconds())
	return 0
}

func atoi(s string, d int) int {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return d
}

func uniq(s []string) []string {
	m := map[string]bool{}
	out := []string{}
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}
