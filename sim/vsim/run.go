package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"syscall"
	"time"

	"vsim.local/simrt"
	"vsim.local/simrt/plan"
)

// outcome of one simulated run.
type outcome struct {
	rep    *plan.Report
	class  string // "" held; a violation class; or "error"
	msg    string
	detail string
	stderr string
	code   int
	sig    syscall.Signal
	wall   time.Duration
	stream [][]simrt.Decision
	plan   *plan.Plan // of a reference run that failed
}

func (o *outcome) violated() bool { return o.class != "" && o.class != "error" }

// program is something that executes plans.
type program interface {
	run(p *plan.Plan) *outcome
}

// child is a simulated program in a process of its own.
type child struct {
	bin     string
	env     []string
	timeout time.Duration
}

var craceRe = regexp.MustCompile(`CRACE kind=(\S+) size=\d+ task=(-?\d+) other=(-?\d+) pc=(\S+)`)
var heapRe = regexp.MustCompile(`HEAPVIOL kind=(\S+) size=(\d+) task=(-?\d+) off=(-?\d+) pc=(\S+)`)

func (c *child) run(p *plan.Plan) *outcome {
	t0 := time.Now()
	o := &outcome{}
	defer func() { o.wall = time.Since(t0) }()
	in, err := json.Marshal(p)
	if err != nil {
		o.class, o.msg = "error", err.Error()
		return o
	}
	to := c.timeout
	if to == 0 {
		to = 120 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin)
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "GORACE=atexit_sleep_ms=0 halt_on_error=0", "GOMAXPROCS=3", "GOTRACEBACK=single", "GODEBUG="}, c.env...)
	for k, v := range p.Env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Stdin = bytes.NewReader(in)
	var out, errb limited
	cmd.Stdout, cmd.Stderr = &out, &errb
	pr, pw, err := os.Pipe()
	if err != nil {
		o.class, o.msg = "error", err.Error()
		return o
	}
	cmd.ExtraFiles = []*os.File{pw}
	var sr, sw *os.File
	streamed := make(chan []byte, 1)
	if p.Opts["stream"] != "" {
		sr, sw, err = os.Pipe()
		if err != nil {
			o.class, o.msg = "error", err.Error()
			return o
		}
		cmd.ExtraFiles = append(cmd.ExtraFiles, sw)
	}
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		o.class, o.msg = "error", err.Error()
		return o
	}
	pw.Close()
	if sw != nil {
		sw.Close()
		go func() { b, _ := io.ReadAll(sr); sr.Close(); streamed <- b }()
	}
	rb, _ := io.ReadAll(pr)
	pr.Close()
	werr := cmd.Wait()
	if sw != nil {
		o.stream = parseStream(<-streamed)
	}
	o.stderr = errb.String()
	if len(rb) > 0 {
		var r plan.Report
		if json.Unmarshal(rb, &r) == nil && r.Done {
			o.rep = &r
		}
	}
	code, sig := 0, syscall.Signal(0)
	if ee, ok := werr.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			sig = ws.Signal()
		} else {
			code = ws.ExitStatus()
		}
	} else if werr != nil {
		o.class, o.msg = "error", werr.Error()
		return o
	}
	o.code, o.sig = code, sig
	switch {
	case ctx.Err() != nil:
		o.class, o.msg = "error", fmt.Sprintf("the run did not end within %v", to)
	case code == 99 && heapRe.MatchString(o.stderr):
		m := heapRe.FindStringSubmatch(o.stderr)
		o.class = "heap"
		o.msg = "memory of the C side: " + m[1]
		if l, err := exec.Command("addr2line", "-f", "-e", c.bin, m[5]).Output(); err == nil {
			f := strings.Fields(string(l))
			if len(f) >= 2 {
				o.msg += " in " + f[0]
				o.detail = f[1]
			}
		}
	case code == 99 && craceRe.MatchString(o.stderr):
		m := craceRe.FindStringSubmatch(o.stderr)
		o.class = "data-race"
		o.msg = "data race on memory of the C side: " + m[1] + " of tasks " + m[2] + " and " + m[3]
		if l, err := exec.Command("addr2line", "-f", "-e", c.bin, m[4]).Output(); err == nil {
			f := strings.Fields(string(l))
			if len(f) >= 2 {
				o.msg += " in " + f[0]
				o.detail = f[1]
			}
		}
	case (code == 2 || sig == syscall.SIGSEGV || sig == syscall.SIGABRT || sig == syscall.SIGBUS) && o.rep == nil:
		o.class = "crash"
		o.msg = "the program crashed: " + crashLine(o.stderr, sig)
	case code != 0 && code != 66 || sig != 0:
		o.class, o.msg = "error", fmt.Sprintf("exit %d signal %v: %s", code, sig, tailOf(o.stderr, 1500))
	case o.rep == nil:
		o.class, o.msg = "error", "no report: "+tailOf(o.stderr, 1500)
	case len(o.rep.Violations) > 0:
		v := o.rep.Violations[0]
		for _, x := range o.rep.Violations {
			if x.Class == "sim-error" {
				v = x
				break
			}
		}
		o.class, o.msg = v.Class, v.Msg
		if v.Class == "data-race" {
			o.detail = raceText(o.stderr)
			o.msg += ": " + raceSummary(o.detail)
		}
		if v.Class == "sim-error" || v.Class == "sim-limit" {
			o.class = "error"
		}
	}
	return o
}

func parseStream(b []byte) (out [][]simrt.Decision) {
	for _, l := range strings.Split(string(b), "\n") {
		if l == "E" {
			out = append(out, nil)
			continue
		}
		var d simrt.Decision
		if n, _ := fmt.Sscan(l, &d.Step, &d.To, &d.Kind, &d.From, &d.Site); n == 5 && len(out) > 0 {
			out[len(out)-1] = append(out[len(out)-1], d)
		}
	}
	return
}

func crashLine(s string, sig syscall.Signal) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "SIGSEGV") || strings.HasPrefix(l, "SIGABRT") {
			return l
		}
	}
	if sig != 0 {
		return sig.String()
	}
	return tailOf(strings.TrimSpace(s), 300)
}

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "\n=================="); j > 0 {
		s = s[:j]
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// raceSummary names the two functions.
func raceSummary(s string) string {
	var f []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if (strings.Contains(l, "Write at") || strings.Contains(l, "Read at") || strings.Contains(l, "rite at") || strings.Contains(l, "ead at")) && i+1 < len(lines) {
			k := "read"
			if strings.Contains(l, "rite at") {
				k = "write"
			}
			f = append(f, k+" in "+strings.TrimSpace(lines[i+1]))
		}
	}
	return strings.Join(f, " / ")
}

// limited keeps the first and last parts of a stream.
type limited struct{ head, tail []byte }

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if room := 1<<18 - len(l.head); room > 0 {
		k := min(room, len(p))
		l.head = append(l.head, p[:k]...)
		p = p[k:]
	}
	l.tail = append(l.tail, p...)
	if len(l.tail) > 1<<17 {
		l.tail = append([]byte{}, l.tail[len(l.tail)-1<<16:]...)
	}
	return n, nil
}
func (l *limited) String() string {
	if len(l.tail) == 0 {
		return string(l.head)
	}
	return string(l.head) + "\n...\n" + string(l.tail)
}
