package main

// Native replay: the same harness compiled with the ordinary toolchain against the same working tree.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type RunReq struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Tape    []uint64       `json:"tape"`
}

type RunRes struct {
	Status string   `json:"status"` // ok, assume, violation, panic, hang, crash, error
	Msg    string   `json:"msg"`
	Log    []string `json:"log"`
}

type Runner struct {
	bin string
	dir string
	mu  sync.Mutex
	ps  []*proc
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

// raceRunner is the native runner built with Go's race detector, made on first use.
func (e *Engine) raceRunner() (*Runner, error) {
	e.raceMu.Lock()
	defer e.raceMu.Unlock()
	if e.race == nil && e.raceErr == nil {
		e.race, e.raceErr = buildRunnerWith(e.hdir, e.repo, e.runner.dir, "runner-race", true)
	}
	return e.race, e.raceErr
}

func buildRunner(hdir, repo, dir string) (*Runner, error) {
	return buildRunnerWith(hdir, repo, dir, "runner", false)
}

func buildRunnerWith(hdir, repo, dir, name string, race bool) (*Runner, error) {
	files, err := overlayFiles(hdir, repo)
	if err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, name)
	args := []string{"build", "-overlay", ovf, "-o", bin, "./zzverif/runner"}
	cgo := "CGO_ENABLED=0"
	if race {
		args, cgo = append([]string{"build", "-race"}, args[1:]...), "CGO_ENABLED=1"
	}
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", args...)
	cmd.Dir = repo
	cmd.Env = append(targetEnv(), cgo)
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the native runner: %v\n%s", err, out)
	}
	return &Runner{bin: bin, dir: dir}, nil
}

func (r *Runner) get() (*proc, error) {
	r.mu.Lock()
	if n := len(r.ps); n > 0 {
		p := r.ps[n-1]
		r.ps = r.ps[:n-1]
		r.mu.Unlock()
		return p, nil
	}
	r.mu.Unlock()
	cmd := exec.Command(r.bin)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1", "GOMEMLIMIT=1500MiB")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, out: make(chan string, 4), err: &tail{}}
	cmd.Stderr = p.err
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		rd := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(p.out)
				return
			}
			p.out <- l
		}
	}()
	return p, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

const hangSecs = 10

// run replays a tape up to reps times, stopping at the first run that is not ok.
func (r *Runner) run(harness string, params map[string]int, tape []uint64, reps int) RunRes {
	var res RunRes
	for i := 0; i < reps; i++ {
		res = r.once(harness, params, tape)
		if res.Status == "crash" || res.Status == "hang" || res.Status == "error" {
			res = r.once(harness, params, tape) // in a fresh process: a machine hiccup is no verdict
		}
		if res.Status != "ok" {
			return res
		}
	}
	return res
}

func (r *Runner) once(harness string, params map[string]int, tape []uint64) RunRes {
	p, err := r.get()
	if err != nil {
		return RunRes{Status: "error", Msg: err.Error()}
	}
	b, _ := json.Marshal(RunReq{harness, params, tape})
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.kill()
		return RunRes{Status: "error", Msg: err.Error()}
	}
	select {
	case l, ok := <-p.out:
		if !ok {
			p.kill()
			p.err.mu.Lock()
			msg := string(p.err.b)
			p.err.mu.Unlock()
			if i := strings.IndexByte(msg, '\n'); i > 0 && len(msg) > 400 {
				msg = msg[:400]
			}
			return RunRes{Status: "crash", Msg: msg}
		}
		var res RunRes
		if err := json.Unmarshal([]byte(l), &res); err != nil {
			p.kill()
			return RunRes{Status: "error", Msg: err.Error()}
		}
		for i, l := range res.Log {
			res.Log[i], _ = strconv.Unquote(l)
		}
		res.Msg, _ = strconv.Unquote(res.Msg)
		r.mu.Lock()
		r.ps = append(r.ps, p)
		r.mu.Unlock()
		return res
	case <-time.After(hangSecs * time.Second):
		p.kill()
		return RunRes{Status: "hang", Msg: fmt.Sprintf("did not finish within %d s", hangSecs)}
	}
}

func (r *Runner) close() {
	if r == nil {
		return
	}
	for _, p := range r.ps {
		p.kill()
	}
}
