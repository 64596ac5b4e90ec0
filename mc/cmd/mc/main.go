// Command mc checks one property of the library by exhaustive exploration.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/core"
	"verif/mc/world"
)

type check struct {
	level string
	run   func(r *core.Run)
}

var checks = map[string]check{}

func register(id, level string, run func(r *core.Run)) { checks[id] = check{level, run} }

// lockedReader replaces the global random source by a deterministic one.
type lockedReader struct {
	sync.Mutex
	r io.Reader
	// use serialises the operations that depend on the global source.
	use sync.Mutex
}

func (l *lockedReader) With(r io.Reader, f func()) {
	l.use.Lock()
	defer l.use.Unlock()
	l.Lock()
	old := l.r
	l.r = r
	l.Unlock()
	defer func() { l.Lock(); l.r = old; l.Unlock() }()
	f()
}

func (l *lockedReader) Read(b []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	return l.r.Read(b)
}

var globalRand = &lockedReader{r: core.NewPRF(1, "global")}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: mc run PROPERTY quick|thorough | mc list")
		os.Exit(2)
	}
	id, tier := os.Args[2], "quick"
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	switch os.Args[1] {
	case "run":
		os.Exit(parent(id, tier, root))
	case "child":
		os.Exit(child(id, tier, seed, root))
	case "c26":
		job, _ := strconv.Atoi(os.Args[3])
		os.Exit(c26worker(os.Args[2], job, seed))
	case "c21":
		quietLog()
		part, _ := strconv.Atoi(os.Args[3])
		of, _ := strconv.Atoi(os.Args[4])
		only, _ := strconv.Atoi(os.Args[5])
		os.Exit(c21worker(os.Args[2], part, of, seed, only))
	}
	os.Exit(2)
}

// parent runs the exploration in a child process, so that a fatal error of the
// runtime (a race on a map, exhausted stack) is seen as what it is.
func parent(id, tier, root string) int {
	if _, ok := checks[id]; !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	var last string
	for try := 0; try < 2; try++ {
		cmd := exec.Command(os.Args[0], "child", id, tier)
		var errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = os.Stdout, &errb
		err := cmd.Run()
		if err == nil {
			return 0
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
			return 1
		}
		last = errb.String()
		if len(last) > 6000 {
			last = last[:3000] + "\n...\n" + last[len(last)-3000:]
		}
		fmt.Println("child ended abnormally:", err)
	}
	fmt.Println(last)
	if strings.Contains(last, "fatal error:") && !strings.Contains(last, "out of memory") && strings.Contains(last, "libsignal-go/protocol") {
		path := core.WriteReplay(root, core.Violation{Property: id, Part: "process", What: "the process died", Trace: last})
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 2
}

var logFile *os.File

func child(id, tier string, seed int64, root string) (code int) {
	debug.SetGCPercent(200)
	rand.Reader = globalRand
	world.GlobalRand = globalRand
	scratch, realErr, err := quietLog()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	r := core.NewRun(id, tier, seed, root)
	r.Bound("cores", runtime.GOMAXPROCS(0))
	go func() {
		// The exploration itself has a deadline; this one is for an operation that never returns.
		limit := 780 * time.Second
		if tier == "thorough" {
			limit = 4 * time.Hour
		}
		time.Sleep(limit)
		fmt.Fprintln(realErr, "harness: time limit")
		os.Exit(3)
	}()
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(realErr, "%v\n%s\n", e, debug.Stack())
			code = 3
		}
	}()
	c := checks[id]
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	c.run(r)
	return r.Finish(c.level)
}

// known reads the findings that are recorded but not repaired.
type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func knownFindings(root string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS.jsonl"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.TrimSpace(l) != "" && json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

// isKnown reports a recorded, unrepaired finding of the property.
func isKnown(r *core.Run, id string) bool {
	for _, k := range knownFindings(r.Root) {
		if k.Property == r.Prop && k.ID == id && k.Status == "known" {
			r.Known(k.What)
			return true
		}
	}
	return false
}

// quietLog sends the log of the library nowhere. It logs through glog, to files in
// the temporary directory by default.
func quietLog() (scratch string, realErr *os.File, err error) {
	if scratch, err = os.MkdirTemp("", "mc-"); err != nil {
		return
	}
	flag.CommandLine.Parse(nil)
	flag.Set("logtostderr", "true")
	flag.Set("log_dir", scratch)
	realErr = os.Stderr
	if logFile, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
		return
	}
	os.Stderr = logFile
	return
}
