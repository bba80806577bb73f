package main

// SMT-LIB2 solver process (z3 -in), one per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	out     *bufio.Reader
	pathVer int
	started bool

	Queries  int64
	SatN     int64
	UnsatN   int64
	UnknownN int64
	Time     time.Duration
	binary   string
	timeout  int // ms
	err      error
	dead     bool
	killed   bool
	checkCmd string
}

func newSolver(binary string, timeoutMs int) *Solver {
	return &Solver{binary: binary, timeout: timeoutMs}
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.binary, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang", "smt2"}
	}
	s.cmd = exec.Command(s.binary, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.w, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	fmt.Fprintf(s.w, "(set-option :print-success false)\n")
	if strings.Contains(s.binary, "z3") {
		fmt.Fprintf(s.w, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
		fmt.Fprintf(s.w, "(set-logic QF_BV)\n")
	} else {
		fmt.Fprintf(s.w, "(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", s.timeout)
	}
	s.checkCmd = "(check-sat)"
	if c := os.Getenv("SYM_CHECK"); c != "" {
		s.checkCmd = c
	}
	s.started = true
	return nil
}

func (s *Solver) close() {
	if s.started {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.started = false
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.smtVer == s.pathVer {
		return
	}
	t.smtVer = s.pathVer
	if t.op == OVar {
		fmt.Fprintf(s.w, "(declare-const |%s| %s)\n", t.name, t.sort())
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.emit(x)
		}
	}
	fmt.Fprintf(s.w, "(define-fun t%d () %s %s)\n", t.id, t.sort(), t.body())
}

func (s *Solver) ensure() bool {
	if !s.started {
		if err := s.start(); err != nil {
			s.err = err
			return false
		}
	}
	return true
}

// solve decides the conjunction and gives values of vars.
func (s *Solver) solve(conj []*Term, extra *Term, vars []*Term) (Result, Model) {
	s.Queries++
	for try := 0; ; try++ {
		if s.dead {
			s.close()
		}
		if !s.ensure() {
			s.UnknownN++
			return Unknown, nil
		}
		res, m, err := s.solve1(conj, extra, vars)
		if err == nil {
			switch res {
			case Sat:
				s.SatN++
			case Unsat:
				s.UnsatN++
			default:
				s.UnknownN++
			}
			return res, m
		}
		s.dead = true
		if s.killed {
			s.killed = false
			s.UnknownN++
			return Unknown, nil
		}
		if try == 1 {
			s.err = err
			s.UnknownN++
			return Unknown, nil
		}
	}
}

func (s *Solver) solve1(conj []*Term, extra *Term, vars []*Term) (Result, Model, error) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.pathVer++
	fmt.Fprintf(s.w, "(push 1)\n")
	for _, v := range vars {
		s.emit(v)
	}
	for _, t := range conj {
		s.emit(t)
		fmt.Fprintf(s.w, "(assert %s)\n", t.ref())
	}
	s.emit(extra)
	fmt.Fprintf(s.w, "(assert %s)\n", extra.ref())
	fmt.Fprintf(s.w, "%s\n", s.checkCmd)
	s.w.Flush()
	// the solver does not always keep its own limit
	cmd := s.cmd
	var over atomic.Bool
	watch := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*5/4+time.Second, func() {
		over.Store(true)
		cmd.Process.Kill()
	})
	line, err := s.readLine()
	watch.Stop()
	if over.Load() {
		s.killed = true
		return Unknown, nil, fmt.Errorf("the solver ran over its limit")
	}
	if err != nil {
		return Unknown, nil, err
	}
	if slowQ && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %v %s extra=%s conj=%v\n", time.Since(t0), line, extra, conj)
	}
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = Model{}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
		s.w.WriteString(sb.String())
		s.w.Flush()
		txt, err := s.readSexp()
		if err != nil {
			return Unknown, nil, err
		}
		if e := parseModel(txt, m); e != nil {
			return Unknown, nil, e
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	fmt.Fprintf(s.w, "(pop 1)\n")
	return res, m, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseModel reads ((|x| #x00) (|y| true) ...).
func parseModel(s string, m Model) error {
	i := 0
	n := len(s)
	skip := func() {
		for i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
			i++
		}
	}
	skip()
	if i >= n || s[i] != '(' || strings.HasPrefix(s, "(error") {
		return fmt.Errorf("bad model %q", s)
	}
	i++
	for {
		skip()
		if i < n && s[i] == ')' {
			return nil
		}
		if i >= n || s[i] != '(' {
			return fmt.Errorf("bad model at %d: %q", i, s)
		}
		i++
		skip()
		var name string
		if s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			name = s[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for s[i] != ' ' {
				i++
			}
			name = s[j:i]
		}
		skip()
		j := i
		var v uint64
		if s[i] == '(' { // (_ bvN w)
			for s[i] != ')' {
				i++
			}
			f := strings.Fields(s[j+1 : i])
			i++
			x, err := strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
			if err != nil {
				return err
			}
			v = x
		} else {
			for s[i] != ')' {
				i++
			}
			tok := strings.TrimSpace(s[j:i])
			switch {
			case tok == "true":
				v = 1
			case tok == "false":
				v = 0
			case strings.HasPrefix(tok, "#x"):
				x, err := strconv.ParseUint(tok[2:], 16, 64)
				if err != nil {
					return err
				}
				v = x
			case strings.HasPrefix(tok, "#b"):
				x, err := strconv.ParseUint(tok[2:], 2, 64)
				if err != nil {
					return err
				}
				v = x
			default:
				return fmt.Errorf("bad value %q", tok)
			}
		}
		skip()
		if s[i] != ')' {
			return fmt.Errorf("bad model tail")
		}
		i++
		m[name] = v
	}
}

var slowQ = os.Getenv("SYM_SLOW") != ""
