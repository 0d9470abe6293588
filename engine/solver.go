package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one incremental z3 process.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]string
	stack    []string // asserted formulas, one push level each
	buf      strings.Builder

	Queries  int
	Unknowns int
	Sat      int
	Unsat    int
	Time     time.Duration
	broken   bool
	timeout  int
}

func newSolver(timeoutMS int) (*Solver, error) {
	s := &Solver{declared: map[string]string{}, timeout: timeoutMS}
	return s, s.start()
}

func (s *Solver) start() error {
	cmd := exec.Command("z3", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]string{}
	s.stack = nil
	s.broken = false
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) declare(vars []*Term) {
	for _, v := range vars {
		st := v.sortSMT()
		if old, ok := s.declared[v.name]; ok {
			if old != st {
				panic("variable redeclared with other sort: " + v.name)
			}
			continue
		}
		s.declared[v.name] = st
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", v.name, st)
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && s.stack[i] == pc[i].SMT() {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.declare(pc[i].vars)
		f := pc[i].SMT()
		s.buf.WriteString("(push 1)\n(assert ")
		s.buf.WriteString(f)
		s.buf.WriteString(")\n")
		s.stack = append(s.stack, f)
	}
}

// Check decides pc && extra. It returns "sat", "unsat" or "unknown"; with sat the values of vars are returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (string, Model) {
	if s.broken {
		s.close()
		s.buf.Reset()
		if err := s.start(); err != nil {
			s.Unknowns++
			return "unknown", nil
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	s.declare(vars)
	if extra != nil {
		s.declare(extra.vars)
		s.buf.WriteString("(push 1)\n(assert ")
		s.buf.WriteString(extra.SMT())
		s.buf.WriteString(")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	res := s.roundtrip()
	var m Model
	if res == "sat" {
		s.Sat++
		m = Model{}
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(v.name)
				s.buf.WriteByte(' ')
			}
			s.buf.WriteString("))\n")
			txt := s.roundtripSexp()
			if !parseValues(txt, m) {
				s.broken = true
				s.Unknowns++
				return "unknown", nil
			}
		}
	} else if res == "unsat" {
		s.Unsat++
	} else {
		if strings.HasPrefix(res, "(error") || res == "" {
			s.broken = true
		}
		s.Unknowns++
		res = "unknown"
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) flush() {
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.broken = true
	}
	s.buf.Reset()
}

func (s *Solver) roundtrip() string {
	s.flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.broken = true
		return ""
	}
	return strings.TrimSpace(line)
}

func (s *Solver) roundtripSexp() string {
	s.flush()
	var sb strings.Builder
	depth := 0
	started := false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.broken = true
			return ""
		}
		sb.WriteString(line)
		for _, c := range line {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			return sb.String()
		}
	}
}

func parseValues(txt string, m Model) bool {
	// ((name value) (name value) ...)
	txt = strings.TrimSpace(txt)
	if len(txt) < 2 || txt[0] != '(' || strings.HasPrefix(txt, "(error") {
		return false
	}
	i := 1
	for i < len(txt) {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
		if i >= len(txt) || txt[i] == ')' {
			return true
		}
		if txt[i] != '(' {
			return false
		}
		j, d := i, 0
		for ; j < len(txt); j++ {
			if txt[j] == '(' {
				d++
			} else if txt[j] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		item := txt[i+1 : j]
		sp := strings.IndexAny(item, " \n\t")
		if sp < 0 {
			return false
		}
		v, ok := parseSMTValue(item[sp+1:])
		if !ok {
			return false
		}
		m[item[:sp]] = v
		i = j + 1
	}
	return true
}
