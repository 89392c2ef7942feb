package smt

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a check.
type Result int

// Check results.
const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is an incremental SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inRaw   io.WriteCloser
	levels  []level
	defined map[*Term]string
	Queries int
	Sats    int
	Unsats  int
	Unknown int
	Time    time.Duration
	log     io.Writer
}

type level struct{ defs []*Term }

// Path of the solver binary and its name for reports.
var SolverCmd = []string{"z3-new", "-in", "-smt2"}

// NewSolver starts a solver with the given per-query timeout.
func NewSolver(timeout time.Duration) (*Solver, error) {
	s := &Solver{defined: map[*Term]string{}, levels: []level{{}}}
	s.cmd = exec.Command(SolverCmd[0], SolverCmd[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.inRaw, s.in, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)\n(set-option :timeout %d)\n", timeout.Milliseconds())
	s.send("(set-logic QF_BV)\n")
	return s, nil
}

// SetLog copies everything sent to the solver to w.
func (s *Solver) SetLog(w io.Writer) { s.log = w }

// Close ends the process.
func (s *Solver) Close() {
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(f string, a ...interface{}) {
	if len(a) == 0 {
		s.in.WriteString(f)
		if s.log != nil {
			io.WriteString(s.log, f)
		}
		return
	}
	fmt.Fprintf(s.in, f, a...)
	if s.log != nil {
		fmt.Fprintf(s.log, f, a...)
	}
}

// ref makes t's definition known and returns how to refer to it.
func (s *Solver) ref(t *Term) string {
	if t.Op == OpConst {
		var sb strings.Builder
		t.print(&sb, nil)
		return sb.String()
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	l := &s.levels[len(s.levels)-1]
	if t.Op == OpVar {
		n := quote(t.Name)
		s.send("(declare-const %s %s)\n", n, sortOf(t.W))
		s.defined[t] = n
		l.defs = append(l.defs, t)
		return n
	}
	// iterative-ish: define children first
	for _, a := range t.Args {
		s.ref(a)
	}
	var sb strings.Builder
	t.print(&sb, s.ref)
	n := "t" + strconv.Itoa(int(t.ID))
	s.send("(define-fun %s () %s %s)\n", n, sortOf(t.W), sb.String())
	s.defined[t] = n
	l.defs = append(l.defs, t)
	return n
}

// Level is the number of open scopes.
func (s *Solver) Level() int { return len(s.levels) - 1 }

// Push opens a scope.
func (s *Solver) Push() {
	s.send("(push 1)\n")
	s.levels = append(s.levels, level{})
}

// PopTo closes scopes down to level n.
func (s *Solver) PopTo(n int) {
	k := s.Level() - n
	if k <= 0 {
		return
	}
	s.send("(pop %d)\n", k)
	for ; k > 0; k-- {
		for _, t := range s.levels[len(s.levels)-1].defs {
			delete(s.defined, t)
		}
		s.levels = s.levels[:len(s.levels)-1]
	}
}

// Assert adds a constraint to the current scope.
func (s *Solver) Assert(t *Term) {
	if t.IsTrue() {
		return
	}
	s.send("(assert %s)\n", s.ref(t))
}

// Check decides the current constraints.
func (s *Solver) Check() (Result, error) {
	start := time.Now()
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, err
	}
	line, err := s.line()
	s.Time += time.Since(start)
	s.Queries++
	if err != nil {
		return Unknown, err
	}
	switch line {
	case "sat":
		s.Sats++
		return Sat, nil
	case "unsat":
		s.Unsats++
		return Unsat, nil
	case "unknown", "timeout":
		s.Unknown++
		return Unknown, nil
	}
	return Unknown, fmt.Errorf("solver said %q", line)
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", fmt.Errorf("solver ended: %v", err)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("solver: %s", l)
		}
		return l, nil
	}
}

// Values returns the model's value of each variable; only after a Sat answer.
// Variables unknown to the solver at this point are left out.
func (s *Solver) Values(vars []*Term) (Model, error) {
	m := Model{}
	var known []*Term
	for _, v := range vars {
		if _, ok := s.defined[v]; ok {
			known = append(known, v)
		}
	}
	const chunk = 200
	for len(known) > 0 {
		n := len(known)
		if n > chunk {
			n = chunk
		}
		s.send("(get-value (")
		for _, v := range known[:n] {
			s.send("%s ", quote(v.Name))
		}
		s.send("))\n")
		if err := s.in.Flush(); err != nil {
			return nil, err
		}
		depth, started := 0, false
		var sb strings.Builder
		inq := false
		for !started || depth > 0 {
			ch, err := s.out.ReadByte()
			if err != nil {
				return nil, err
			}
			sb.WriteByte(ch)
			if ch == '|' {
				inq = !inq
			}
			if inq {
				continue
			}
			if ch == '(' {
				depth++
				started = true
			}
			if ch == ')' {
				depth--
			}
		}
		text := sb.String()
		if strings.HasPrefix(strings.TrimSpace(text), "(error") {
			return nil, fmt.Errorf("solver: %s", text)
		}
		if err := parseValues(text, m); err != nil {
			return nil, err
		}
		known = known[n:]
	}
	return m, nil
}

func parseValues(text string, m Model) error {
	toks := tokenize(text)
	i := 0
	next := func() string {
		if i >= len(toks) {
			return ""
		}
		i++
		return toks[i-1]
	}
	if next() != "(" {
		return fmt.Errorf("bad model %q", text)
	}
	for {
		t := next()
		if t == ")" {
			return nil
		}
		if t != "(" {
			return fmt.Errorf("bad model %q", text)
		}
		name := strings.Trim(next(), "|")
		v := next()
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			m[name] = x
		case v == "(": // (_ bvN w)
			next()
			x, err := strconv.ParseUint(strings.TrimPrefix(next(), "bv"), 10, 64)
			if err != nil {
				return err
			}
			m[name] = x
			next()
			next()
		default:
			return fmt.Errorf("bad value %q", v)
		}
		if next() != ")" {
			return fmt.Errorf("bad model %q", text)
		}
	}
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
