package main

// A live z3 process per worker, queried in SMT-LIB 2.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// SolverStats are shared by all workers.
type SolverStats struct {
	queries, sat, unsat, unknown, cached, byDomain atomic.Int64
	nanos                                          atomic.Int64
}

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stats *SolverStats
	cache map[string]satResult
}

type satResult struct {
	sat     bool
	unknown bool
	model   map[int32]uint64
}

func solverBinary() string {
	if s := os.Getenv("VP_SOLVER"); s != "" {
		return s
	}
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

func newSolver(st *SolverStats) *Solver {
	s := &Solver{stats: st, cache: map[string]satResult{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBinary(), "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.in, s.out = in, bufio.NewReader(out)
	io.WriteString(s.in, "(set-option :timeout 20000)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// check decides satisfiability of cons under the domains of vars.
func (s *Solver) check(doms map[int32]*dom, vars []int32, cons []*Term, wantModel bool) satResult {
	body := smtAsserts(doms, vars, cons)
	key := body
	if wantModel {
		key = "M" + body
	}
	if r, ok := s.cache[key]; ok {
		s.stats.cached.Add(1)
		return r
	}
	var sb strings.Builder
	sb.WriteString("(push)\n")
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	io.WriteString(s.in, sb.String())
	line := s.readLine()
	var r satResult
	switch line {
	case "sat":
		r.sat = true
		s.stats.sat.Add(1)
	case "unsat":
		s.stats.unsat.Add(1)
	default:
		r.unknown = true
		s.stats.unknown.Add(1)
		if os.Getenv("VP_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver said:", line, "\n", body)
		}
	}
	if r.sat && wantModel && len(vars) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&q, "v%d ", v)
		}
		q.WriteString("))\n")
		io.WriteString(s.in, q.String())
		r.model = s.readModel()
	}
	io.WriteString(s.in, "(pop)\n")
	s.stats.queries.Add(1)
	s.stats.nanos.Add(int64(time.Since(t0)))
	if strings.HasPrefix(line, "(error") {
		// the process state is not trustworthy any more
		s.close()
		s.start()
	}
	s.cache[key] = r
	return r
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error eof)"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readModel() map[int32]uint64 {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	m := map[int32]uint64{}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	for i := 0; i+1 < len(f); i += 2 {
		id, _ := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		var v uint64
		if strings.HasPrefix(f[i+1], "#x") {
			v, _ = strconv.ParseUint(f[i+1][2:], 16, 64)
		} else if strings.HasPrefix(f[i+1], "#b") {
			v, _ = strconv.ParseUint(f[i+1][2:], 2, 64)
		}
		m[int32(id)] = v
	}
	return m
}
