package pbt

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type request struct {
	Target string          `json:"target"`
	Case   json.RawMessage `json:"case"`
}

// WorkerMain serves cases read from stdin, answering on file descriptor 3.
func WorkerMain() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.NewFile(3, "results")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			fmt.Fprintln(os.Stderr, "harness: bad request", err)
			os.Exit(3)
		}
		t := FindTarget(rq.Target)
		if t == nil {
			fmt.Fprintln(os.Stderr, "harness: no target", rq.Target)
			os.Exit(3)
		}
		res := Execute(t, rq.Case)
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		if t.Mode != Pure {
			os.Exit(0)
		}
	}
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if len(t.head) < 1<<15 {
		k := 1<<15 - len(t.head)
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 1<<16 {
		t.tail = append([]byte{}, t.tail[len(t.tail)-(1<<15):]...)
	}
	return n, nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(stripFake(append(append([]byte{}, t.head...), t.tail...)))
}

// stripFake removes the playback headers that faketime puts before every write.
func stripFake(b []byte) []byte {
	magic := []byte{0, 0, 'P', 'B'}
	if !bytes.Contains(b, magic) {
		return b
	}
	var out []byte
	for len(b) > 0 {
		i := bytes.Index(b, magic)
		if i < 0 || len(b) < i+16 {
			out = append(out, b...)
			break
		}
		out = append(out, b[:i]...)
		n := int(binary.BigEndian.Uint32(b[i+12 : i+16]))
		b = b[i+16:]
		if n > len(b) {
			n = len(b)
		}
		out = append(out, b[:n]...)
		b = b[n:]
	}
	return out
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *os.File
	rd     *bufio.Reader
	stderr *tailBuf
}

// Runner executes cases for one shard.
type Runner struct {
	RealExe, FakeExe string
	Slow             int
	cur              *worker
	curFor           string
	curCases         int
	history          []json.RawMessage
}

func (r *Runner) start(t *Target) (*worker, error) {
	exe := r.RealExe
	procs := t.Procs
	if t.Mode == Fake {
		exe = r.FakeExe
		if procs == 0 {
			procs = 1
		}
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w := &worker{stderr: &tailBuf{}}
	w.cmd = exec.Command(exe, "-worker")
	w.cmd.Env = append(os.Environ(), fmt.Sprintf("PBT_SLOW=%d", r.Slow), "GOTRACEBACK=single")
	if procs > 0 {
		w.cmd.Env = append(w.cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", procs))
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Stdout = nil
	w.cmd.Stderr = w.stderr
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.out = pr
	w.rd = bufio.NewReaderSize(pr, 1<<16)
	return w, nil
}

func (w *worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.out.Close()
}

// Close ends the worker.
func (r *Runner) Close() {
	if r.cur != nil {
		r.cur.kill()
		r.cur = nil
	}
}

// Run executes one case and classifies crashes and hangs.
func (r *Runner) Run(t *Target, raw json.RawMessage) Result {
	if r.Slow == 0 {
		r.Slow = 1
	}
	if r.cur != nil && (t.Mode != Pure || r.curFor != t.Name || r.curCases > 2000) {
		r.Close()
	}
	if r.cur == nil {
		w, err := r.start(t)
		if err != nil {
			return Result{HarnessErr: err.Error()}
		}
		r.cur, r.curFor, r.curCases = w, t.Name, 0
		r.history = nil
	}
	r.curCases++
	r.history = append(r.history, raw)
	if len(r.history) > 8 {
		r.history = r.history[1:]
	}
	w := r.cur
	b, _ := json.Marshal(request{Target: t.Name, Case: raw})
	limit := t.Timeout
	if limit == 0 {
		limit = 20 * time.Second
	}
	limit *= time.Duration(r.Slow)
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		w.in.Write(append(b, '\n'))
		line, err := w.rd.ReadBytes('\n')
		ch <- ans{line, err}
	}()
	timer := time.NewTimer(limit)
	defer timer.Stop()
	select {
	case a := <-ch:
		if a.err == nil {
			var res Result
			if err := json.Unmarshal(a.line, &res); err != nil {
				return Result{HarnessErr: "bad worker reply: " + err.Error()}
			}
			if t.Mode != Pure {
				r.Close()
			}
			return res
		}
		// the worker died
		w.in.Close()
		err := w.cmd.Wait()
		w.out.Close()
		r.cur = nil
		msg := w.stderr.String()
		if strings.Contains(msg, "harness:") {
			return Result{HarnessErr: firstLines(msg, 12)}
		}
		return Result{Fail: fmt.Sprintf("process ended (%v): %s", err, crashSummary(msg)), Sig: "crash", Kind: "crash"}
	case <-timer.C:
		var dump string
		if t.Mode != Fake {
			w.cmd.Process.Signal(quit)
			select {
			case <-ch:
			case <-time.After(2 * time.Second):
			}
			dump = firstLines(w.stderr.String(), 40)
		}
		r.Close()
		return Result{Fail: fmt.Sprintf("no answer within %v\n%s", limit, dump), Sig: "hang", Kind: "hang"}
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func crashSummary(s string) string {
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, m); i >= 0 {
			return firstLines(s[i:], 25)
		}
	}
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	return strings.Join(l, "\n")
}
