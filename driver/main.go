// Command verifdriver generates inputs, runs the real library on them and
// records what it did. It decides nothing: the records are checked by TLC
// against the TLA+ specification in ../spec.
//
//	verifdriver gen -suite T01 -seed 1 -tier quick -shards 8 -out DIR [-scen DIR]
//	verifdriver worker
//	verifdriver run CASE.json      (replays one recorded case, prints its record)
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"time"
)

// Case is one input; Rec adds what happened.
type Case struct {
	ID int             `json:"id"`
	K  string          `json:"k"`
	In json.RawMessage `json:"in"`
}

type Rec struct {
	ID  int             `json:"id"`
	K   string          `json:"k"`
	In  json.RawMessage `json:"in"`
	St  string          `json:"st"` // ok, panic, crash, timeout
	Msg string          `json:"msg"`
	KB  int             `json:"kb"` // kilobytes allocated
	Out json.RawMessage `json:"out,omitempty"`
}

type execFn func(in json.RawMessage, hook func()) (interface{}, error)

var execs = map[string]execFn{}

func register[T any](kind string, f func(in *T) interface{}) {
	execs[kind] = func(raw json.RawMessage, hook func()) (interface{}, error) {
		in := new(T)
		if err := json.Unmarshal(raw, in); err != nil {
			return nil, err
		}
		if h, ok := any(in).(interface{ setHook(func()) }); ok {
			h.setHook(hook)
		}
		return f(in), nil
	}
}

func runCase(c *Case) (rec Rec) {
	rec = Rec{ID: c.ID, K: c.K, In: c.In, St: "ok"}
	f := execs[c.K]
	if f == nil {
		fmt.Fprintln(os.Stderr, "driver: unknown kind", c.K)
		os.Exit(3)
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	defer func() {
		if p := recover(); p != nil {
			rec.St, rec.Msg, rec.Out = "panic", fmt.Sprint(p)+"\n"+string(debug.Stack()), nil
		}
	}()
	out, err := f(c.In, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver: bad case:", err)
		os.Exit(3)
	}
	runtime.ReadMemStats(&after)
	rec.KB = int((after.TotalAlloc - before.TotalAlloc) >> 10)
	if rec.Out, err = json.Marshal(out); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
	return rec
}

func worker() {
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	if os.Getenv("VERIF_RACE") == "" {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, "driver: worker:", err)
			os.Exit(3)
		}
		rec := runCase(&c)
		// the parent still has the input
		rec.In = nil
		b, err := json.Marshal(&rec)
		if err != nil {
			fmt.Fprintln(os.Stderr, "driver: worker:", err)
			os.Exit(3)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// proc is a worker process.
type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startProc() *proc {
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	cmd := exec.Command(exe, "worker")
	p := &proc{cmd: cmd, err: &tail{}}
	cmd.Stderr = p.err
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
	if p.in, err = cmd.StdinPipe(); err != nil {
		fatal(err)
	}
	so, err := cmd.StdoutPipe()
	if err != nil {
		fatal(err)
	}
	p.out = bufio.NewReaderSize(so, 1<<20)
	if err = cmd.Start(); err != nil {
		fatal(err)
	}
	return p
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// do runs one case; dead tells that the process is of no further use.
func (p *proc) do(c *Case, line []byte, timeout time.Duration) (rec Rec, dead bool) {
	rec = Rec{ID: c.ID, K: c.K, St: "crash"}
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := p.in.Write(line); err != nil {
			ch <- res{nil, err}
			return
		}
		b, err := p.out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			p.kill()
			if p.cmd.ProcessState != nil && p.cmd.ProcessState.ExitCode() == 3 {
				fatal(fmt.Errorf("worker: %s", p.err))
			}
			rec.Msg = p.err.String()
			return rec, true
		}
		if err := json.Unmarshal(r.b, &rec); err != nil {
			fatal(err)
		}
		return rec, rec.St == "panic"
	case <-time.After(timeout):
		p.kill()
		rec.St = "timeout"
		return rec, true
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(2)
}

// Gen collects the cases of a suite.
type Gen struct {
	r     *rand.Rand
	tier  string
	scen  string // directory with scenarios enumerated by TLC
	cases []Case
}

func (g *Gen) thorough() bool { return g.tier == "thorough" }

// n picks the number of repetitions for the tier.
func (g *Gen) n(quick, thorough int) int {
	if g.thorough() {
		return thorough
	}
	if quick < thorough {
		return min(thorough, 4*quick)
	}
	return quick
}

func (g *Gen) add(kind string, in interface{}) {
	b, err := json.Marshal(in)
	if err != nil {
		fatal(err)
	}
	g.cases = append(g.cases, Case{ID: len(g.cases) + 1, K: kind, In: b})
}

// scenarios reads the TLC-enumerated scenario file name.json into v.
func (g *Gen) scenarios(name string, v interface{}) {
	b, err := os.ReadFile(filepath.Join(g.scen, name+".json"))
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal(err)
	}
}

var suites = map[string]func(g *Gen){}

func generate(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	suite := fs.String("suite", "", "property")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	shards := fs.Int("shards", 8, "")
	out := fs.String("out", "", "")
	scen := fs.String("scen", "", "")
	workers := fs.Int("workers", 8, "")
	secs := fs.Int("timeout", 10, "seconds per case")
	fs.Parse(args)
	f := suites[*suite]
	if f == nil {
		fatal(fmt.Errorf("unknown suite %q", *suite))
	}
	g := &Gen{r: rand.New(rand.NewSource(*seed*1000003 + 17)), tier: *tier, scen: *scen}
	f(g)

	recs := make([]Rec, len(g.cases))
	var next, hung int
	done := make([]bool, len(g.cases))
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for {
				mu.Lock()
				i := next
				next++
				enough := hung >= 4
				mu.Unlock()
				// hanging runs take long, and a few of them are enough
				if i >= len(g.cases) || enough {
					break
				}
				c := &g.cases[i]
				line, _ := json.Marshal(c)
				line = append(line, '\n')
				if p == nil {
					p = startProc()
				}
				rec, dead := p.do(c, line, time.Duration(*secs)*time.Second)
				if dead {
					p.kill()
					p = nil
				}
				if rec.St == "timeout" {
					// once more, with ample time, before it counts
					p = startProc()
					rec, dead = p.do(c, line, 6*time.Duration(*secs)*time.Second)
					if dead {
						p.kill()
						p = nil
					}
					if rec.St == "timeout" {
						mu.Lock()
						hung++
						mu.Unlock()
					}
				}
				done[i] = true
				rec.In = c.In
				recs[i] = rec
			}
			if p != nil {
				p.in.Close()
				p.kill()
			}
		}()
	}
	wg.Wait()

	// distribute by size
	size := make([]int, 2**shards)
	var ws []*bufio.Writer
	var files []*os.File
	for s := 0; s < 2**shards; s++ {
		fh, err := os.Create(filepath.Join(*out, fmt.Sprintf("%c-%d.ndjson", "cv"[s / *shards], s%*shards)))
		if err != nil {
			fatal(err)
		}
		files = append(files, fh)
		ws = append(ws, bufio.NewWriterSize(fh, 1<<20))
	}
	kinds := map[string]int{}
	status := map[string]int{}
	seen := map[string]bool{}
	ran := 0
	for i := range recs {
		if !done[i] {
			continue
		}
		ran++
		b, err := json.Marshal(&recs[i])
		if err != nil {
			fatal(err)
		}
		// container kinds in the first half, video kinds in the second
		lo := 0
		if recs[i].K[0] == 'v' {
			lo = *shards
		}
		s := lo
		for j := lo; j < lo+*shards; j++ {
			if size[j] < size[s] {
				s = j
			}
		}
		size[s] += len(b) + 200
		if !bytes.Contains(recs[i].In, []byte(`"b":[]`)) {
			seen[recs[i].K+string(recs[i].In)] = true
		}
		ws[s].Write(b)
		ws[s].WriteByte('\n')
		kinds[recs[i].K]++
		status[recs[i].St]++
	}
	for s := range ws {
		ws[s].Flush()
		files[s].Close()
	}
	sum, _ := json.Marshal(map[string]interface{}{"cases": ran, "kinds": kinds, "status": status, "distinct": len(seen)})
	fmt.Println(string(sum))
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: gen | worker | run"))
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "gen":
		generate(os.Args[2:])
	case "run":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal(err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fatal(err)
		}
		rec := runCase(&c)
		o, _ := json.Marshal(&rec)
		fmt.Println(string(o))
	default:
		fatal(fmt.Errorf("unknown mode %q", os.Args[1]))
	}
}
