// Command replay runs harnesses natively on concrete inputs: one JSON request
// per line on stdin, one JSON answer per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"jinverif/vf"
)

type request struct {
	H   string  `json:"h"`
	In  []int64 `json:"in"`
	Th  bool    `json:"th"`
	Rep int     `json:"rep"`
}

type answer struct {
	Status string      `json:"status"` // ok, fail, panic, assume, mismatch
	Label  string      `json:"label"`
	Obs    []vf.ObsVal `json:"obs"`
}

// where is the place in jin that was running when it panicked.
func where() string {
	pc := make([]uintptr, 64)
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "github.com/ecoshub/jin.") {
			return fmt.Sprintf(" at %s (%s:%d)", strings.TrimPrefix(f.Function, "github.com/ecoshub/"), filepath.Base(f.File), f.Line)
		}
		if !more {
			return ""
		}
	}
}

func one(q request) (a answer) {
	f := registry[q.H]
	if f == nil {
		return answer{Status: "mismatch", Label: "no such harness"}
	}
	vf.R = &vf.Run{In: q.In, Th: q.Th}
	defer vf.R.Clean()
	defer func() {
		a.Obs = vf.R.Obs
		if r := recover(); r != nil {
			if x, ok := r.(vf.Failure); ok {
				a.Status, a.Label = x.Kind, x.Label
			} else {
				a.Status, a.Label = "panic", fmt.Sprint(r)+where()
			}
		}
		if vf.R.HasF && a.Status != "assume" && a.Status != "mismatch" {
			a.Status, a.Label = "fail", vf.R.Failed
		}
	}()
	f()
	a.Status = "ok"
	return
}

func main() {
	go func() { // a runaway allocation is reported as a hang by the caller
		var m runtime.MemStats
		for {
			time.Sleep(50 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				os.Exit(7)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	for {
		var q request
		if err := dec.Decode(&q); err != nil {
			return
		}
		var a answer
		n := q.Rep
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			a = one(q)
			if a.Status != "ok" {
				break
			}
		}
		b, _ := json.Marshal(a)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
