package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental SMT process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	path    string
	timeout int // ms
	Queries int
	Unknown int
	Time    time.Duration
	seq     int
	gen     int
	dead    bool
	live    bool // anything asserted/defined in the current scope
}

func newSolver(path string, timeoutMS int) *Solver {
	s := &Solver{path: path, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, "-in")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic ALL)\n(push 1)\n", s.timeout)
	s.dead = false
	s.live = false
	s.gen++
}

func (s *Solver) close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// newPath drops everything asserted for the previous path.
func (s *Solver) newPath() {
	if s.dead {
		s.close()
		s.start()
		return
	}
	if s.live {
		s.in.WriteString("(pop 1)\n(push 1)\n")
		s.live = false
	}
	s.gen++
}

// ref returns the solver-side name of t, defining what is missing.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.gen == s.gen && t.hid != 0 {
		return "n" + strconv.Itoa(t.hid)
	}
	s.live = true
	if t.op == OVar {
		s.seq++
		t.hid, t.gen = s.seq, s.gen
		fmt.Fprintf(s.in, "(declare-const n%d %s)\n", t.hid, sortName(t.w))
		return "n" + strconv.Itoa(t.hid)
	}
	body := nodeSMT(t, s.ref)
	s.seq++
	t.hid, t.gen = s.seq, s.gen
	fmt.Fprintf(s.in, "(define-fun n%d () %s %s)\n", t.hid, sortName(t.w), body)
	return "n" + strconv.Itoa(t.hid)
}

func (s *Solver) assert(t *Term) {
	n := s.ref(t)
	s.live = true
	fmt.Fprintf(s.in, "(assert %s)\n", n)
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "(error \"dead\")"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// check: +1 sat, -1 unsat, 0 unknown.  With want, values of vars are returned on sat.
func (s *Solver) check(extra *Term, vars []*Term) (int, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	n := ""
	if extra != nil {
		n = s.ref(extra)
	}
	for _, v := range vars {
		s.ref(v)
	}
	s.in.WriteString("(push 1)\n")
	if extra != nil {
		fmt.Fprintf(s.in, "(assert %s)\n", n)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	res := 0
	switch l := s.readLine(); l {
	case "sat":
		res = 1
	case "unsat":
		res = -1
	case "unknown", "timeout":
	default:
		if strings.HasPrefix(l, "(error") {
			s.dead = true
		}
	}
	var vals []uint64
	if res == 1 && len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(s.ref(v))
			sb.WriteString(" ")
		}
		sb.WriteString("))\n")
		s.in.WriteString(sb.String())
		s.in.Flush()
		var err error
		vals, err = s.readValues(vars)
		if err != nil {
			s.dead = true
			res = 0
		}
	}
	s.in.WriteString("(pop 1)\n")
	if res == 0 {
		s.Unknown++
	}
	return res, vals
}

func (s *Solver) readValues(vars []*Term) ([]uint64, error) {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "(error") {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	out := make([]uint64, len(vars))
	for i, v := range vars {
		key := "(" + s.ref(v) + " "
		k := strings.Index(txt, key)
		if k < 0 {
			return nil, fmt.Errorf("no value")
		}
		rest := txt[k+len(key):]
		switch {
		case strings.HasPrefix(rest, "true"):
			out[i] = 1
		case strings.HasPrefix(rest, "false"):
			out[i] = 0
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexByte(rest, ')')
			u, err := strconv.ParseUint(rest[2:e], 16, 64)
			if err != nil {
				return nil, err
			}
			out[i] = u
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexByte(rest, ')')
			u, err := strconv.ParseUint(rest[2:e], 2, 64)
			if err != nil {
				return nil, err
			}
			out[i] = u
		default:
			return nil, fmt.Errorf("value %q", rest)
		}
	}
	return out, nil
}
