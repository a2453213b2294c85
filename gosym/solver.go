package main

// One z3 process per worker, driven over a pipe with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type result uint8

const (
	rSat result = iota
	rUnsat
	rUnknown
)

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stdin    io.WriteCloser
	declared map[uint32]bool
	cache    map[string]cached
	Queries  int64
	Hits     int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Time     time.Duration
	MaxTime  time.Duration
	timeout  int // ms
	bin      string
	restarts int
}

type cached struct {
	r result
	m map[int32]uint64
}

func NewSolver(bin string, timeoutMS int) (*Solver, error) {
	s := &Solver{timeout: timeoutMS, bin: bin, cache: map[string]cached{}}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.stdin = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[uint32]bool{}
	s.preamble()
	return nil
}

func (s *Solver) preamble() {
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}

// reset forgets all terms (a new universe is about to be used).
func (s *Solver) reset() {
	fmt.Fprintf(s.in, "(reset)\n")
	s.preamble()
	s.declared = map[uint32]bool{}
	s.cache = map[string]cached{}
}

func (s *Solver) close() {
	s.stdin.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.declared[t.id] {
		return
	}
	if t.op == OpVar {
		s.declared[t.id] = true
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.varID, sortName(t.w))
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	s.declared[t.id] = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides the conjunction of ts; on sat the model covers their variables.
func (s *Solver) check(T *Terms, ts []*Term) (result, map[int32]uint64) {
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		ids = append(ids, int(t.id))
	}
	sort.Ints(ids)
	kb := make([]byte, 0, len(ids)*4)
	prev := -1
	for _, i := range ids {
		if i == prev {
			continue
		}
		prev = i
		kb = append(kb, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	key := string(kb)
	if c, ok := s.cache[key]; ok {
		s.Hits++
		return c.r, c.m
	}
	r, m := s.query(T, ts)
	if r != rUnknown {
		s.cache[key] = cached{r, m}
	}
	return r, m
}

func (s *Solver) query(T *Terms, ts []*Term) (result, map[int32]uint64) {
	t0 := time.Now()
	s.Queries++
	for _, t := range ts {
		s.define(t)
	}
	s.in.WriteString("(push)\n")
	for _, t := range ts {
		s.in.WriteString("(assert ")
		s.in.WriteString(t.ref())
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return s.broken(err)
	}
	l, err := s.readLine()
	if err != nil {
		return s.broken(err)
	}
	done := func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}
	switch l {
	case "unsat":
		s.in.WriteString("(pop)\n")
		s.Unsat++
		done()
		return rUnsat, nil
	case "sat":
		var vs varset
		for _, t := range ts {
			vs = vs.union(t.vars)
		}
		m := map[int32]uint64{}
		var names []string
		vs.each(func(id int32) { names = append(names, "v"+strconv.Itoa(int(id))) })
		if len(names) > 0 {
			s.in.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
			s.in.Flush()
			if err := s.readValues(m); err != nil {
				return s.broken(err)
			}
		}
		s.in.WriteString("(pop)\n")
		s.Sat++
		done()
		return rSat, m
	case "unknown", "timeout":
		s.in.WriteString("(pop)\n")
		s.Unknown++
		done()
		return rUnknown, nil
	}
	return s.broken(fmt.Errorf("solver said %q", l))
}

func (s *Solver) broken(err error) (result, map[int32]uint64) {
	s.Unknown++
	s.restarts++
	if s.restarts > 20 {
		panic(fmt.Sprintf("solver broken: %v", err))
	}
	s.close()
	if e := s.start(); e != nil {
		panic(e)
	}
	return rUnknown, nil
}

func (s *Solver) readValues(m map[int32]uint64) error {
	depth := 0
	var sb strings.Builder
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if depth == 0 && started {
				break
			}
		}
	}
	// rest of the line
	if _, err := s.out.ReadString('\n'); err != nil {
		return err
	}
	f := strings.FieldsFunc(sb.String(), func(r rune) bool {
		return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r'
	})
	for i := 0; i+1 < len(f); i += 2 {
		if !strings.HasPrefix(f[i], "v") {
			return fmt.Errorf("bad model %q", sb.String())
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return err
		}
		var v uint64
		switch x := f[i+1]; {
		case x == "true":
			v = 1
		case x == "false":
			v = 0
		case strings.HasPrefix(x, "#x"):
			v, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			v, err = strconv.ParseUint(x[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", x)
		}
		if err != nil {
			return err
		}
		m[int32(id)] = v
	}
	return nil
}
