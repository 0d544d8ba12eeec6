package eng

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of workers and single runs.
const (
	exitOK      = 0
	exitFail    = 10 // oracle failure, reported in the result file
	exitHang    = 11 // a case used too much CPU
	exitMem     = 12 // a case used too much memory
	exitTrouble = 13
)

type fakeTB struct {
	failed bool
	log    []string
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return "verif" }
func (f *fakeTB) Logf(format string, args ...any) {
}
func (f *fakeTB) Log(args ...any)                  {}
func (f *fakeTB) Skipf(format string, args ...any) { runtime.Goexit() }
func (f *fakeTB) Skip(args ...any)                 { runtime.Goexit() }
func (f *fakeTB) SkipNow()                         { runtime.Goexit() }
func (f *fakeTB) Errorf(format string, args ...any) {
	f.failed = true
	f.log = append(f.log, fmt.Sprintf(format, args...))
}
func (f *fakeTB) Error(args ...any)                 { f.failed = true; f.log = append(f.log, fmt.Sprint(args...)) }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Errorf(format, args...); f.FailNow() }
func (f *fakeTB) Fatal(args ...any)                 { f.Error(args...); f.FailNow() }
func (f *fakeTB) FailNow()                          { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

const memLimit = 2 << 30

// watchdog ends the process when one case uses too much CPU or memory. begin is
// called before each case.
type watchdog struct {
	seq   atomic.Int64
	off   atomic.Bool
	limit float64
}

func (w *watchdog) begin() {
	w.off.Store(false)
	w.seq.Add(1)
}

// end stops the clock until the next begin.
func (w *watchdog) end() { w.off.Store(true) }

func (w *watchdog) run() {
	last, start := int64(-1), 0.0
	for range time.Tick(200 * time.Millisecond) {
		if s := w.seq.Load(); s != last {
			last, start = s, cpuSeconds()
		} else if s != 0 && !w.off.Load() && cpuSeconds()-start > w.limit {
			os.Exit(exitHang)
		}
		if heapBytes() > memLimit {
			os.Exit(exitMem)
		}
	}
}

// journal keeps the current case on disk, so that it is known when the process
// dies.
type journal struct{ f *os.File }

func (j *journal) write(b []byte) {
	var hdr [8]byte
	binary.LittleEndian.PutUint64(hdr[:], uint64(len(b)))
	j.f.WriteAt(append(hdr[:], b...), 0)
}

func readJournal(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if n == 0 || n > uint64(len(b)-8) {
		return nil
	}
	return b[8 : 8+n]
}

func (p *Prop) part(name string) *Part {
	for _, q := range p.Parts {
		if q.Name == name {
			return q
		}
	}
	return nil
}

// Worker runs a shard and returns the exit code.
func Worker(sh *Shard) int {
	p := Get(sh.Property)
	part := p.part(sh.Part)
	Dir, Tier = sh.Dir, sh.Tier
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.checks", strconv.Itoa(sh.Checks))
	flag.Set("rapid.seed", strconv.FormatUint(sh.Seed, 10))
	flag.Set("rapid.nofailfile", "true")
	shrink := "15s"
	if part.External {
		shrink = "20s"
	}
	flag.Set("rapid.shrinktime", shrink)
	debug.SetPanicOnFault(true)

	jf, err := os.Create(sh.Out + ".journal")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	j := &journal{jf}
	w := &watchdog{limit: part.CPULimit}
	if !part.External {
		go w.run()
	}

	res := &Result{Labels: map[string]int{}}
	seen := map[uint64]struct{}{}
	var fail *Failure
	var trouble error
	sampleAt := 1
	tb := &fakeTB{}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rapid.Check(tb, func(t *rapid.T) {
			if trouble != nil {
				return
			}
			if fail == nil && sh.Deadline != 0 && time.Now().Unix() > sh.Deadline {
				res.Cut = true
				return
			}
			c := part.draw(t)
			b, err := json.Marshal(c)
			if err != nil {
				trouble = err
				return
			}
			j.write(b)
			w.begin()
			o := &Obs{labels: map[string]int{}}
			err = part.runCase(c, o)
			w.end()
			var inc Inconclusive
			if errors.As(err, &inc) {
				trouble = err
				return
			}
			if fail == nil {
				res.Evals++
				for l, n := range o.labels {
					res.Labels[l] += n
				}
				// Counting distinct cases ends at some number, to save memory.
				if o.nontr && len(seen) < 2<<20 {
					if _, ok := seen[hash(b)]; !ok {
						seen[hash(b)] = struct{}{}
						if res.Evals >= sampleAt && len(res.Samples) < 3 && len(b) < 6000 {
							res.Samples = append(res.Samples, b)
							sampleAt = res.Evals * 4
						}
					}
				}
			}
			var nw Narrowed
			if errors.As(err, &nw) {
				// The smaller case replaces the drawn one, if it fails too.
				w.begin()
				if e2 := part.runCase(nw.Case, &Obs{labels: map[string]int{}}); e2 != nil && !errors.As(e2, &inc) {
					if b2, e3 := json.Marshal(nw.Case); e3 == nil {
						b, err = b2, e2
					}
				}
			}
			w.end()
			if err != nil {
				fail = &Failure{Property: p.ID, Part: part.Name, How: "oracle", Error: err.Error(), Case: b, Measured: isMeasured(err)}
				t.Fatalf("property violated")
			}
		})
	}()
	wg.Wait()
	j.write(nil)
	res.NonTrivial = len(seen)
	res.Fail = fail
	code := exitOK
	switch {
	case fail != nil:
		code = exitFail
	case trouble != nil:
		res.Err = trouble.Error()
		code = exitTrouble
	case tb.failed:
		res.Err = fmt.Sprintf("generator trouble: %v", tb.log)
		code = exitTrouble
	}
	hs := make([]byte, 0, 8*len(seen))
	for h := range seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(sh.Out+".hashes", hs, 0o644); err != nil {
		return exitTrouble
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(sh.Out+".json", b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	return code
}

// One runs a single case; the exit code says how it went and a failure's message
// goes to stdout.
func One(f *Failure, dir string, limit float64) int {
	p := Get(f.Property)
	if p == nil || p.part(f.Part) == nil {
		fmt.Fprintf(os.Stderr, "unknown property or part %s/%s\n", f.Property, f.Part)
		return exitTrouble
	}
	part := p.part(f.Part)
	Dir = dir
	debug.SetPanicOnFault(true)
	c, err := part.dec(f.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	if limit <= 0 {
		limit = part.CPULimit
	}
	w := &watchdog{limit: limit}
	if !part.External {
		go w.run()
	}
	w.begin()
	err = part.runCase(c, &Obs{labels: map[string]int{}, Again: true})
	var inc Inconclusive
	if errors.As(err, &inc) {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	if err != nil {
		fmt.Println(err)
		return exitFail
	}
	return exitOK
}
