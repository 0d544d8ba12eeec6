package eng

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Root is /verif.
var Root = "/verif"

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func shardSeed(seed int, part string, index int) uint64 {
	x := mix(mix(uint64(seed)) ^ hash([]byte(part)) ^ mix(uint64(index)+7))
	if x == 0 {
		x = 1
	}
	return x
}

type runOut struct {
	code   int
	stdout string
	stderr string
	err    error
}

func (p *Part) binary(dir string) string {
	if p.Race {
		return filepath.Join(dir, "runner-race")
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return exe
}

func (p *Part) spawn(ctx context.Context, dir string, args ...string) runOut {
	cmd := exec.CommandContext(ctx, p.binary(dir), args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMAXPROCS="+fmt.Sprint(procs(p)))
	err := cmd.Run()
	o := runOut{stdout: so.String(), stderr: se.String()}
	if cmd.ProcessState == nil {
		o.code, o.err = -1, err
		return o
	}
	o.code = cmd.ProcessState.ExitCode()
	if o.code < 0 {
		o.err = err
	}
	return o
}

func procs(p *Part) int {
	if p.Race {
		return 4
	}
	return 2
}

// prepare runs the setups of a property.
func prepare(p *Prop, dir string) error {
	for _, part := range p.Parts {
		if part.Race {
			if _, err := os.Stat(filepath.Join(dir, "runner-race")); err == nil {
				continue
			}
			cmd := exec.Command("go", "build", "-race", "-o", filepath.Join(dir, "runner-race"), "./cmd/runner")
			cmd.Dir = filepath.Join(Root, "harness")
			cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("race build: %v\n%s", err, out)
			}
		}
	}
	for _, part := range p.Parts {
		if part.Setup != nil {
			if err := part.Setup(dir); err != nil {
				return fmt.Errorf("setup of %s: %w", part.Name, err)
			}
		}
	}
	return nil
}

type task struct {
	part *Part
	sh   Shard
	out  runOut
	res  *Result
	ran  bool
}

// Check runs a property; the result is the exit code of the check.
func Check(id, tier string, seed int, scale float64) int {
	start := time.Now()
	p := Get(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %s\n", id)
		return 2
	}
	Tier = tier
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if err := prepare(p, dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	Dir = dir
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	deadline := start.Add(budget).Unix()

	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	var tasks []*task
	for _, part := range p.Parts {
		n := part.Quick
		if tier == "thorough" {
			n = part.Thorough
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		shards := 8
		if part.Shards > 0 && part.Shards < shards {
			shards = part.Shards
		}
		if shards > n {
			shards = n
		}
		for i := 0; i < shards; i++ {
			k := n / shards
			if i < n%shards {
				k++
			}
			tasks = append(tasks, &task{part: part, sh: Shard{Property: id, Part: part.Name, Index: i, Seed: shardSeed(seed, id+"/"+part.Name, i),
				Checks: k, Tier: tier, Dir: dir, Out: filepath.Join(dir, fmt.Sprintf("out-%s-%d", part.Name, i)), Deadline: deadline}})
		}
	}

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < ncpu; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(tasks) || ctx.Err() != nil {
					return
				}
				t := tasks[i]
				b, _ := json.Marshal(t.sh)
				t.out = t.part.spawn(ctx, dir, "worker", string(b))
				t.ran = ctx.Err() == nil
				if rb, err := os.ReadFile(t.sh.Out + ".json"); err == nil {
					res := new(Result)
					if json.Unmarshal(rb, res) == nil {
						t.res = res
					}
				}
				if t.out.code != exitOK && t.ran {
					cancel()
				}
			}
		}()
	}
	wg.Wait()

	// Failures first.
	var fails []*Failure
	var troubles []string
	for _, t := range tasks {
		if !t.ran {
			continue
		}
		switch {
		case t.out.code == exitOK && t.res != nil:
		case t.out.code == exitFail && t.res != nil && t.res.Fail != nil:
			f := t.res.Fail
			sh := t.sh
			f.Shard = &sh
			fails = append(fails, f)
		case t.out.code == exitTrouble:
			msg := t.out.stderr
			if t.res != nil {
				msg = t.res.Err
			}
			troubles = append(troubles, fmt.Sprintf("%s shard %d: %s", t.part.Name, t.sh.Index, msg))
		default:
			// The worker died: the journal says on which case.
			c := readJournal(t.sh.Out + ".journal")
			if c == nil {
				troubles = append(troubles, fmt.Sprintf("%s shard %d died outside a case: exit %d %v\n%s", t.part.Name, t.sh.Index, t.out.code, t.out.err, tail(t.out.stderr, 3000)))
				continue
			}
			sh := t.sh
			fails = append(fails, &Failure{Property: id, Part: t.part.Name, How: howOf(t.out), Error: crashText(t.out), Case: c, Shard: &sh})
		}
	}
	ev := summarize(p, tier, seed, tasks)
	code := 0
	var vpath string
	var once *Failure
	for _, f := range fails {
		path, ok := confirm(p, f, dir)
		if ok {
			code, vpath = 1, path
			fmt.Printf("%s/%s fails (%s): %s\n", f.Property, f.Part, f.How, tail(f.Error, 3000))
			fmt.Printf("minimal case: %s\n", tail(string(f.Case), 4000))
			break
		}
		switch {
		case f.Measured || f.How == "hang" || f.How == "memory":
			// Times and allocations are measured, and other processes have a say
			// in them: what cannot be measured again is no observation of the code.
			fmt.Printf("note: %s: a measurement did not repeat: %s: %s\n", f.Part, f.How, tail(f.Error, 2000))
		case f.How == "oracle" && !p.part(f.Part).External:
			// A wrong answer was seen, even if it depends on more than the case.
			once = f
		default:
			troubles = append(troubles, fmt.Sprintf("%s: a failure did not reproduce: %s: %s", f.Part, f.How, tail(f.Error, 2000)))
		}
	}
	if f := once; code == 0 && f != nil {
		code, vpath = 1, save(f)
		fmt.Printf("%s/%s failed once, and did not when run again: %s\n", f.Property, f.Part, tail(f.Error, 3000))
		fmt.Printf("case: %s\n", tail(string(f.Case), 4000))
	}
	// Recorded findings: they are no violations, and they are not searched for.
	if code == 0 {
		for _, k := range p.Known {
			if k.Check() != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			}
		}
	}
	ev.Violations = 0
	if code == 1 {
		ev.Violations = 1
	}
	ev.Wall = time.Since(start).Seconds()
	if err := writeEvidence(ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			return 2
		}
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, vpath)
		return 1
	}
	if len(troubles) > 0 {
		for _, t := range troubles {
			fmt.Fprintln(os.Stderr, "TROUBLE:", t)
		}
		return 2
	}
	fmt.Printf("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, ev.evals, ev.nontr, ev.Wall)
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func howOf(o runOut) string {
	switch o.code {
	case exitHang:
		return "hang"
	case exitMem:
		return "memory"
	}
	return "crash"
}

func crashText(o runOut) string {
	switch o.code {
	case exitHang:
		return "a single case used too much CPU time (endless loop?)"
	case exitMem:
		return fmt.Sprintf("the heap grew beyond %d bytes", memLimit)
	}
	return fmt.Sprintf("the process died: exit %d %v\n%s", o.code, o.err, tail(o.stderr, 3000))
}

// single runs one case in a fresh process. how is empty if it doesn't fail, and
// says like Failure.How in what way it does otherwise.
func single(part *Part, f *Failure, c []byte, dir string, limit float64) (how, msg string) {
	g := *f
	g.Case, g.Shard = c, nil
	name := filepath.Join(dir, fmt.Sprintf("single-%d.json", hash(c)))
	b, _ := json.Marshal(g)
	if err := os.WriteFile(name, b, 0o644); err != nil {
		return "", err.Error()
	}
	defer os.Remove(name)
	o := part.spawn(context.Background(), dir, "one", name, dir, fmt.Sprint(limit))
	switch o.code {
	case exitOK, exitTrouble:
		return "", ""
	case exitFail:
		return "oracle", o.stdout
	}
	if o.err != nil && strings.Contains(o.err.Error(), "killed") {
		// Killed from outside: says nothing.
		return "", ""
	}
	return howOf(o), crashText(o)
}

// confirm reproduces a failure in a fresh process, reduces it if rapid could not,
// and saves it.
func confirm(p *Prop, f *Failure, dir string) (string, bool) {
	part := p.part(f.Part)
	ok := false
	n := 10
	if f.How == "hang" || f.How == "memory" {
		n = 3
	}
	for i := 0; i < n && !ok; i++ {
		how, msg := single(part, f, f.Case, dir, 0)
		if how != "" {
			ok = true
			if how != "oracle" || f.How != "oracle" {
				f.How, f.Error = how, msg
			}
		}
	}
	if ok {
		f.Shard = nil
		if f.How != "oracle" || part.External {
			reduce(part, f, dir)
		}
	} else if f.Shard != nil && f.How != "hang" && f.How != "memory" && !f.Measured {
		// It may need what the cases before it left behind.
		sh := *f.Shard
		sh.Out += "-again"
		sh.Deadline = 0
		b, _ := json.Marshal(sh)
		o := part.spawn(context.Background(), dir, "worker", string(b))
		if o.code != exitOK && o.code != exitTrouble && !(o.err != nil && strings.Contains(o.err.Error(), "killed")) {
			ok = true
		}
	}
	if !ok {
		return "", false
	}
	return save(f), true
}

// save writes the replay file.
func save(f *Failure) string {
	rd := filepath.Join(Root, "replays")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%s-%016x.json", f.Property, f.Part, hash(f.Case)))
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path
}

// Replay runs a saved failure again.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f := new(Failure)
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Get(f.Property)
	if p == nil || p.part(f.Part) == nil {
		fmt.Fprintln(os.Stderr, "unknown property or part")
		return 2
	}
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if err := prepare(p, dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	part := p.part(f.Part)
	how, msg := single(part, f, f.Case, dir, 0)
	bad := how != ""
	if !bad && f.Shard != nil {
		sh := *f.Shard
		sh.Dir, sh.Out, sh.Deadline = dir, filepath.Join(dir, "again"), 0
		b, _ := json.Marshal(sh)
		o := part.spawn(context.Background(), dir, "worker", string(b))
		bad, msg = o.code != exitOK && o.code != exitTrouble, "the shard fails again"
	}
	if bad {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	fmt.Println("passes")
	return 0
}

// reduce shrinks the case of a crash or hang by deleting parts of its JSON.
func reduce(part *Part, f *Failure, dir string) {
	limit := 0.0
	if f.How == "hang" {
		limit = part.CPULimit / 6
	}
	end := time.Now().Add(60 * time.Second)
	var v interface{}
	dec := json.NewDecoder(bytes.NewReader(f.Case))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return
	}
	try := func() bool {
		if time.Now().After(end) {
			return false
		}
		b, _ := json.Marshal(v)
		if len(b) >= len(f.Case) {
			return false
		}
		if _, err := part.dec(b); err != nil {
			return false
		}
		how, msg := single(part, f, b, dir, limit)
		// A smaller case that fails otherwise may just not make sense.
		bad := how == f.How && (strings.HasPrefix(msg, "panic:") == strings.HasPrefix(f.Error, "panic:"))
		if bad {
			f.Case, f.Error = b, msg
		}
		return bad
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		walk(&v, func(get func() interface{}, set func(interface{})) {
			switch x := get().(type) {
			case []interface{}:
				for n := len(x) / 2; n >= 1; n /= 2 {
					for i := 0; i+n <= len(x); {
						y := append(append([]interface{}{}, x[:i]...), x[i+n:]...)
						set(y)
						if try() {
							x, changed = y, true
						} else {
							set(x)
							i += n
						}
					}
				}
			case map[string]interface{}:
				var keys []string
				for k := range x {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					old := x[k]
					delete(x, k)
					if try() {
						changed = true
					} else {
						x[k] = old
					}
				}
			}
		})
	}
}

func walk(v *interface{}, fn func(get func() interface{}, set func(interface{}))) {
	fn(func() interface{} { return *v }, func(x interface{}) { *v = x })
	switch x := (*v).(type) {
	case []interface{}:
		for i := range x {
			e := x[i]
			walkIn(&e, func(n interface{}) { x[i] = n }, fn)
		}
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := x[k]
			walkIn(&e, func(n interface{}) { x[k] = n }, fn)
		}
	}
}

func walkIn(e *interface{}, put func(interface{}), fn func(get func() interface{}, set func(interface{}))) {
	fn(func() interface{} { return *e }, func(n interface{}) { *e = n; put(n) })
	switch x := (*e).(type) {
	case []interface{}:
		for i := range x {
			c := x[i]
			walkIn(&c, func(n interface{}) { x[i] = n }, fn)
		}
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			c, ok := x[k]
			if ok {
				walkIn(&c, func(n interface{}) { x[k] = n }, fn)
			}
		}
	}
}
