package main

// z3 back end: one long-lived process per worker, queries canonicalised (variables renamed by first
// occurrence, only the constraints connected to the query) and cached across workers.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solveRes struct {
	res   int8 // 1 sat, 0 unsat, -1 unknown
	model []uint64
}

type SolverStats struct {
	asked, cacheHits, z3calls, sat, unsat, unknown atomic.Int64
	nanos                                          atomic.Int64
}

var sstats SolverStats

var qcache = struct {
	sync.Mutex
	m map[string]solveRes
}{m: map[string]solveRes{}}

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	n     int
	preds map[predKey]bool
}

var z3path = "z3"
var qlog *os.File

func (s *Solver) start() error {
	s.cmd = exec.Command(z3path, "-in", "-t:20000")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.preds = map[predKey]bool{}
	s.n = 0
	if err := s.cmd.Start(); err != nil {
		return err
	}
	io.WriteString(s.in, "(set-option :print-success false)\n")
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check decides the conjunction of cs (bool terms). On sat it returns a value for each variable in the slice.
func (s *Solver) check(st *TermStore, cs []*Term) (int8, map[int32]uint64) {
	sstats.asked.Add(1)
	p := &smtPrinter{names: map[int32]int{}, used: map[predKey]bool{}}
	var body strings.Builder
	for _, c := range cs {
		body.WriteString("(assert ")
		body.WriteString(p.expr(c))
		body.WriteString(")\n")
	}
	var decl strings.Builder
	for i, v := range p.order {
		vi := st.vars[v]
		n := strconv.Itoa(i)
		if vi.w == 0 {
			decl.WriteString("(declare-const v" + n + " Bool)\n")
			continue
		}
		fmt.Fprintf(&decl, "(declare-const v%s (_ BitVec %d))\n", n, vi.w)
		if vi.lo > 0 {
			fmt.Fprintf(&decl, "(assert (bvuge v%s %s))\n", n, bvc(vi.w, vi.lo))
		}
		if vi.hi < mask(vi.w) {
			fmt.Fprintf(&decl, "(assert (bvule v%s %s))\n", n, bvc(vi.w, vi.hi))
		}
	}
	text := decl.String() + body.String()
	qcache.Lock()
	r, ok := qcache.m[text]
	qcache.Unlock()
	if ok {
		sstats.cacheHits.Add(1)
	} else {
		t0 := time.Now()
		r = s.run(text, p, st)
		sstats.nanos.Add(int64(time.Since(t0)))
		sstats.z3calls.Add(1)
		if r.res >= 0 {
			qcache.Lock()
			if len(qcache.m) > 3000000 {
				qcache.m = map[string]solveRes{}
			}
			qcache.m[text] = r
			qcache.Unlock()
		}
	}
	switch r.res {
	case 1:
		sstats.sat.Add(1)
		m := make(map[int32]uint64, len(p.order))
		for i, v := range p.order {
			m[v] = r.model[i]
		}
		return 1, m
	case 0:
		sstats.unsat.Add(1)
		return 0, nil
	}
	sstats.unknown.Add(1)
	return -1, nil
}

func (s *Solver) run(text string, p *smtPrinter, st *TermStore) solveRes {
	for attempt := 0; attempt < 2; attempt++ {
		if s.cmd == nil || s.n > 20000 {
			s.stop()
			if err := s.start(); err != nil {
				fmt.Fprintln(os.Stderr, "cannot start z3:", err)
				return solveRes{res: -1}
			}
		}
		s.n++
		var q strings.Builder
		for op := range p.used {
			if !s.preds[op] {
				q.WriteString(op.def())
				s.preds[op] = true
			}
		}
		q.WriteString("(push)\n")
		q.WriteString(text)
		q.WriteString("(check-sat)\n")
		if qlog != nil {
			fmt.Fprintf(qlog, "%s(pop)\n", q.String())
		}
		if _, err := io.WriteString(s.in, q.String()); err != nil {
			s.stop()
			continue
		}
		line, err := s.line()
		if err != nil {
			s.stop()
			continue
		}
		r := solveRes{res: -1}
		switch line {
		case "sat":
			r.res = 1
		case "unsat":
			r.res = 0
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "z3:", line, "\n", text)
				s.stop()
				return r
			}
		}
		if r.res == 1 {
			r.model = make([]uint64, len(p.order))
			if len(p.order) > 0 {
				var g strings.Builder
				g.WriteString("(get-value (")
				for i := range p.order {
					g.WriteString(" v" + strconv.Itoa(i))
				}
				g.WriteString("))\n")
				io.WriteString(s.in, g.String())
				txt, err := s.sexpr()
				if err != nil || strings.HasPrefix(txt, "(error") {
					s.stop()
					continue
				}
				parseValues(txt, r.model)
			}
		}
		io.WriteString(s.in, "(pop)\n")
		return r
	}
	return solveRes{res: -1}
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) sexpr() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

func parseValues(txt string, out []uint64) {
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); {
		if f[i][0] != 'v' {
			i++
			continue
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil || n >= len(out) {
			i++
			continue
		}
		v := f[i+1]
		switch {
		case strings.HasPrefix(v, "#x"):
			out[n], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			out[n], _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "true":
			out[n] = 1
		case v == "false":
			out[n] = 0
		case v == "_" && i+3 < len(f):
			out[n], _ = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
		}
		i += 2
	}
}
