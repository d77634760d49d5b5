//go:build vsched

package vharness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"github.com/bifurcation/mint/vsched"
)

// A scen is a concurrent program over mint.  build makes a fresh instance: its
// threads, and what decides about the end of an execution.
type scen struct {
	name  string
	build func(c *Case) (threads []func(), check func(ex *vsched.Exec))
	bound int // preemptions, quick
	deep  int // preemptions, thorough
	parts int
	delay bool // every deviation counts, also where a thread cannot go on
}

// explore runs s under every schedule with up to bound preemptions; of those of
// the first level only the part'th of parts.
func explore(c *Case, s scen, bound, part, parts int) (execs int) {
	type node struct {
		devs []vsched.Dev
		used int
	}
	stack := []node{{nil, 0}}
	steps, diverged := 0, 0
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if c.Expired() {
			break
		}
		ex := schedule(c, s, n.devs)
		execs++
		steps += ex.Steps
		if ex.Diverged {
			diverged++
		}
		for i := len(ex.Choices) - 1; i >= 0; i-- {
			ch := ex.Choices[i]
			if len(n.devs) == 0 && i%parts != part {
				continue
			}
			u := n.used
			if !ch.Free || s.delay {
				u++
			}
			if u > bound {
				continue
			}
			devs := append(append([]vsched.Dev{}, n.devs...), vsched.Dev{At: ch.At, To: ch.To})
			stack = append(stack, node{devs, u})
		}
	}
	c.Count(execs)
	c.Transitions(steps)
	c.Traces(execs)
	if diverged > 0 {
		c.Outcome("schedule not reproduced")
	}
	return
}

func schedule(c *Case, s scen, devs []vsched.Dev) *vsched.Exec {
	threads, check := s.build(c)
	ex := &vsched.Exec{Devs: devs}
	c.trace = c.trace[:0]
	ex.Run(threads...)
	c.Log("schedule %v of %s (switches to: %v)", devs, s.name, ex.Trace)
	for i, p := range ex.Panics {
		if p != nil {
			c.Fail("panic", "thread %d: %v\n%s", i, p, ex.Stacks[i])
		}
	}
	if ex.Deadlock {
		c.Fail("deadlock", "no thread can go on (finished: %v)", ex.Finished())
	}
	check(ex)
	return ex
}

// concurrent explores the scenarios, and then has those with fewer preemptions
// judged by the race detector, in processes of their own.
func concurrent(x *Ctx, scens []scen) {
	if name := os.Getenv("VERIF_RACE_SCEN"); name != "" {
		runtime.GOMAXPROCS(3)
		for _, s := range scens {
			if s.name == name {
				s := s
				cs := &Cases{}
				cs.Add("race-child/"+name, func(c *Case) {
					fmt.Printf("EXECS %d\n", explore(c, s, x.Pick(0, 1), 0, 1))
					os.Exit(0)
				})
				x.filter = ""
				x.Run(cs, 1)
			}
		}
		return
	}
	cs := &Cases{}
	if bin := os.Getenv("VERIF_RACE_BIN"); bin != "" && !isChild() {
		for _, s := range scens {
			s := s
			cs.Add("race/"+s.name, func(c *Case) {
				cmd := exec.Command(bin, "-test.run", "^TestCheck$", "-test.timeout", "0")
				cmd.Env = append(os.Environ(), "VERIF_RACE_SCEN="+s.name, "VERIF_RACE_BIN=", "GORACE=halt_on_error=0 exitcode=0")
				out, err := cmd.CombinedOutput()
				n := 0
				if i := strings.Index(string(out), "EXECS "); i >= 0 {
					fmt.Sscanf(string(out[i:]), "EXECS %d", &n)
				}
				for _, t := range raceReports(string(out)) {
					c.Fail("race", "%.4000s", t)
				}
				if n == 0 && !c.Expired() {
					c.Log("the child: %v %.2000s", err, out)
					c.Outcome("race child without an answer")
				}
				c.Count(n)
				c.Outcome("race-free")
			})
		}
		x.Run(cs, x.Pick(6, 6))
	}
	jobs := map[string]func(c *Case){}
	cs = &Cases{}
	pool := make(chan *worker, concWorkers)
	for i := 0; i < concWorkers; i++ {
		pool <- nil
	}
	for _, s := range scens {
		parts := s.parts
		if parts == 0 {
			parts = 1
		}
		bound := x.Pick(s.bound, s.deep)
		for k := 0; k < parts; k++ {
			s, k := s, k
			name := fmt.Sprintf("sched/%s/%d", s.name, k)
			jobs[name] = func(c *Case) {
				c.States(explore(c, s, bound, k, parts))
			}
			cs.Add(name, func(c *Case) { handOut(c, pool) })
		}
	}
	if os.Getenv("VERIF_WORKER") != "" {
		serve(x, jobs)
		if os.Getenv("VERIF_PROFILE") != "" {
			return
		}
		os.Exit(0)
	}
	x.Run(cs, concWorkers)
	for i := 0; i < concWorkers; i++ {
		if w := <-pool; w != nil {
			w.stop()
		}
	}
}

const concWorkers = 8

// Schedules are explored in processes of their own, one at a time in each:
// package-level state and locks of mint's then belong to one execution only.
type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	r   *os.File
	log bytes.Buffer
}

type workReply struct {
	Failed, Capped                      bool
	Kind, Detail                        string
	Trace                               []string
	Evals, States, Transitions, Traces_ int64
	Outcomes                            map[string]int
}

func newWorker(x *Ctx) (*worker, error) {
	r, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: exec.Command(os.Args[0], "-test.run", "^TestCheck$", "-test.timeout", "0"), r: r}
	left := x.budget - time.Since(x.start)
	w.cmd.Env = append(os.Environ(), "VERIF_WORKER=1", fmt.Sprintf("VERIF_BUDGET_S=%d", int(left.Seconds())+1))
	if x.filter == "" {
		w.cmd.Env = append(w.cmd.Env, "VERIF_CASE=")
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Stdout, w.cmd.Stderr = &w.log, &w.log
	if w.in, err = w.cmd.StdinPipe(); err == nil {
		err = w.cmd.Start()
	}
	pw.Close()
	if err != nil {
		r.Close()
		return nil, err
	}
	w.out = json.NewDecoder(r)
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.r.Close()
}

func handOut(c *Case, pool chan *worker) {
	w := <-pool
	if w == nil {
		var err error
		if w, err = newWorker(c.Ctx); err != nil {
			pool <- nil
			panic(err)
		}
	}
	var r workReply
	fmt.Fprintln(w.in, c.Name)
	if err := w.out.Decode(&r); err != nil {
		w.stop()
		pool <- nil
		c.Fail("crash", "the process exploring schedules ended: %v\n%.6000s", err, w.log.String())
	}
	if r.Kind == "hang" {
		w.stop()
		w = nil
	}
	pool <- w
	c.Count(int(r.Evals))
	c.States(int(r.States))
	c.Transitions(int(r.Transitions))
	c.Traces(int(r.Traces_))
	for k := range r.Outcomes {
		c.Outcome(k)
	}
	if r.Capped {
		c.Ctx.mu.Lock()
		c.Ctx.capped = true
		c.Ctx.mu.Unlock()
	}
	for _, t := range r.Trace {
		c.Log("%s", t)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("SCEN", c.Name, r.Evals)
	}
	if r.Failed {
		c.Fail(r.Kind, "%s", r.Detail)
	}
}

// serve is what a worker does.
func serve(x *Ctx, jobs map[string]func(c *Case)) {
	runtime.GOMAXPROCS(1)
	out := json.NewEncoder(os.NewFile(3, "replies"))
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<16)
	for in.Scan() {
		f := jobs[in.Text()]
		if f == nil {
			fmt.Println("no such job:", in.Text())
			return
		}
		cx := &Ctx{Prop: x.Prop, Tier: x.Tier, Seed: x.Seed, Level: x.Level, start: x.start, budget: x.budget, filter: x.filter, root: x.root,
			distinct: map[string]int{}, notes: map[string]interface{}{}, seenCases: map[string]bool{}}
		c := cx.execute(NamedCase{Name: in.Text(), F: f}, false)
		out.Encode(workReply{c.failed, cx.capped, c.kind, c.detail, c.trace, cx.evals, cx.states, cx.transitions, cx.traces, cx.distinct})
		if c.kind == "hang" {
			return
		}
	}
}

// raceReports returns the reports of races between two accesses by mint: the
// harness's transports are not synchronised.
func raceReports(out string) (l []string) {
	parts := strings.Split(out, "WARNING: DATA RACE")
	for _, t := range parts[1:] {
		if i := strings.Index(t, "\n====="); i >= 0 {
			t = t[:i]
		}
		accesses, ours := 0, 0
		lines := strings.Split(t, "\n")
		for i, line := range lines {
			if !strings.Contains(line, " by goroutine ") && !strings.Contains(line, " by main goroutine") {
				continue
			}
			accesses++
			for _, f := range lines[i+1:] {
				f = strings.TrimSpace(f)
				if strings.HasPrefix(f, "/") || strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") {
					continue
				}
				if strings.HasPrefix(f, "github.com/bifurcation/mint") && !strings.HasPrefix(f, "github.com/bifurcation/mint/vsched") {
					ours++
				}
				break
			}
		}
		if accesses == 2 && ours == 2 {
			l = append(l, t)
		}
	}
	return
}

// isChild tells if this process only explores schedules for another.
func isChild() bool { return os.Getenv("VERIF_RACE_SCEN") != "" || os.Getenv("VERIF_WORKER") != "" }
