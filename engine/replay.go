package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Replayer runs the native build of the harnesses.
type Replayer struct {
	bin  string
	th   bool
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	runs int64
}

type nativeAnswer struct {
	Status string `json:"status"`
	Label  string `json:"label"`
	Obs    []struct {
		L string `json:"l"`
		V []byte `json:"v"`
	} `json:"obs"`
}

// buildReplay compiles cmd/replay with a registry of the harness functions.
func buildReplay(harnessDir, work string, names []string, race bool) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"jinverif/h\"\n\nvar registry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(work, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := filepath.Join(work, "overlay.json")
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(harnessDir, "cmd/replay/registry.go"): reg}})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "replay")
	args := []string{"build", "-overlay", ov}
	cg := "CGO_ENABLED=0"
	if race {
		bin += "-race"
		args = append(args, "-race")
		cg = "CGO_ENABLED=1"
	}
	args = append(args, "-o", bin, "./cmd/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = harnessDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", cg)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return bin, nil
}

func (r *Replayer) stop() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *Replayer) start() error {
	r.cmd = exec.Command(r.bin)
	r.cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1", "GOMAXPROCS=4")
	in, err := r.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.in = in
	r.out = bufio.NewReaderSize(out, 1<<20)
	return r.cmd.Start()
}

// run replays one input vector. A run that does not end in time is "hang"; a
// run that ends the process is "crash".
func (r *Replayer) run(h string, in []int64, timeout time.Duration, rep int) nativeAnswer {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.runs++
	if r.cmd == nil {
		if err := r.start(); err != nil {
			r.cmd = nil
			return nativeAnswer{Status: "error", Label: err.Error()}
		}
	}
	if in == nil {
		in = []int64{}
	}
	b, _ := json.Marshal(map[string]any{"h": h, "in": in, "th": r.th, "rep": rep})
	r.in.Write(append(b, '\n'))
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	out := r.out
	go func() {
		l, err := out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			err := r.cmd.Wait()
			r.cmd = nil
			code := -1
			if e, ok := err.(*exec.ExitError); ok {
				code = e.ExitCode()
			}
			switch code {
			case 66:
				return nativeAnswer{Status: "race"}
			case 7:
				return nativeAnswer{Status: "hang", Label: "memory grows without end"}
			}
			return nativeAnswer{Status: "crash", Label: fmt.Sprint(err)}
		}
		var a nativeAnswer
		if err := json.Unmarshal(x.line, &a); err != nil {
			return nativeAnswer{Status: "error", Label: err.Error()}
		}
		return a
	case <-time.After(timeout):
		r.stop()
		return nativeAnswer{Status: "hang", Label: "no answer"}
	}
}
