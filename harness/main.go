// Command zzverif evaluates the executable form of the contracts on the real
// code (bounded part of the checks).  It is compiled into the module under
// test with "go build -overlay", and uses exported names only.
//
//	zzverif -prop C17 -tier quick -seed 1 -out result.json     all shards
//	zzverif -prop C17 -case section:index -seed 1              one case
package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Key     string `json:"key"`
	Case    string `json:"case"`
	What    string `json:"what"`
	Details string `json:"details"`
	Input   string `json:"input"`
}

type Result struct {
	Evals      int64            `json:"evals"`
	Distinct   int64            `json:"distinct"`
	Samples    []string         `json:"samples"`
	Violations []*Violation     `json:"violations"`
	Sections   map[string]int64 `json:"sections"`
	Counters   map[string]int64 `json:"counters"`
	Stopped    string           `json:"stopped,omitempty"`
}

// W is one worker (process) evaluating a share of the cases.
type W struct {
	prop     string
	seed     int64
	thorough bool
	shard, n int
	only     string // section:index
	res      Result
	hashes   map[uint64]struct{}
	seen     map[string]int
	slot     []byte
	curCase  string
	curInput func() string
	rng      *rand.Rand
	started  atomic.Int64
	limit    atomic.Int64
	mu       sync.Mutex
	outFile  string
	deadline time.Time
	maxAlloc uint64
}

var props = map[string]func(w *W){}

func register(p string, f func(w *W)) { props[p] = f }

const slotSize = 1 << 20

// Scale picks a number of cases by tier.
func (w *W) Scale(quick, thorough int) int {
	if w.thorough {
		return thorough
	}
	return quick
}

// Each evaluates f for the cases 0..n-1 of a section, spread over the shards.
// The random source depends on the seed, the section and the index only.
func (w *W) Each(section string, n int, f func(i int, r *rand.Rand)) {
	if os.Getenv("ZZTIME") != "" {
		t0 := time.Now()
		defer func() { w.Count("ms "+section, time.Since(t0).Milliseconds()) }()
	}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s:%d", section, i)
		if w.only != "" {
			if w.only != id {
				continue
			}
		} else if i%w.n != w.shard {
			continue
		}
		if time.Now().After(w.deadline) {
			w.res.Stopped = "time limit reached in section " + section
			return
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%s", w.seed, w.prop, id)
		w.rng = rand.New(rand.NewSource(int64(h.Sum64())))
		w.curCase = id
		w.curInput = nil
		w.setSlot(id, nil)
		w.res.Sections[section]++
		w.guard(20*time.Second, func() { f(i, w.rng) })
	}
}

func (w *W) setSlot(id string, data []byte) {
	if w.slot == nil {
		return
	}
	if len(data) > slotSize-1024 {
		data = data[:slotSize-1024]
	}
	binary.LittleEndian.PutUint32(w.slot, uint32(len(id)))
	copy(w.slot[4:], id)
	binary.LittleEndian.PutUint32(w.slot[512:], uint32(len(data)))
	copy(w.slot[516:], data)
}

// Input declares the input of the current evaluation (one per evaluation).
func (w *W) Input(data []byte) {
	w.res.Evals++
	h := fnv.New64a()
	h.Write(data)
	w.hashes[h.Sum64()] = struct{}{}
	w.curInput = func() string { return hex.EncodeToString(data) }
	w.setSlot(w.curCase, data)
	if len(w.res.Samples) < 3 {
		d := data
		if len(d) > 64 {
			d = d[:64]
		}
		w.res.Samples = append(w.res.Samples, fmt.Sprintf("%s %d bytes %x", w.curCase, len(data), d))
	}
}

// Eval counts an evaluation described by a string.
func (w *W) Eval(desc string) {
	w.res.Evals++
	h := fnv.New64a()
	h.Write([]byte(desc))
	w.hashes[h.Sum64()] = struct{}{}
	w.curInput = func() string { return desc }
	w.setSlot(w.curCase, []byte(desc))
	if len(w.res.Samples) < 3 {
		d := desc
		if len(d) > 160 {
			d = d[:160]
		}
		w.res.Samples = append(w.res.Samples, w.curCase+" "+d)
	}
}

func (w *W) Count(name string, n int64) { w.res.Counters[name] += n }

// guard runs f, turning panics into violations and watching the time.
func (w *W) guard(limit time.Duration, f func()) (ok bool) {
	w.limit.Store(int64(limit))
	w.started.Store(time.Now().UnixNano())
	defer func() {
		w.started.Store(0)
		if r := recover(); r != nil {
			st := string(debug.Stack())
			w.Fail("panic:"+panicSite(st), "panic: %v", r)
			w.addDetails(st)
			ok = false
		}
	}()
	f()
	return true
}

// tick restarts the clock of the watchdog (for cases with many parts).
func (w *W) tick() { w.started.Store(time.Now().UnixNano()) }

// NoPanic runs f; a panic is a violation and false is returned.
func (w *W) NoPanic(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			w.Fail("panic:"+panicSite(st), "%s: panic: %v", what, r)
			w.addDetails(st)
			ok = false
		}
	}()
	f()
	return true
}

// panicSite names the innermost function of the module in a stack trace.
func panicSite(st string) string {
	i := strings.Index(st, "\npanic(")
	if i >= 0 {
		st = st[i+1:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "seehuhn.de/go/") && !strings.Contains(l, "zzverif") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return strings.TrimPrefix(l, "seehuhn.de/go/sfnt/")
		}
	}
	return "?"
}

func (w *W) addDetails(s string) {
	if n := len(w.res.Violations); n > 0 {
		v := w.res.Violations[n-1]
		if v.Case == w.curCase && v.Details == "" {
			v.Details = s
		}
	}
}

// Fail records a violation under a key (one replay per key).
func (w *W) Fail(key, format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seen[key]++
	if w.seen[key] > 1 {
		return
	}
	in := ""
	if w.curInput != nil {
		in = w.curInput()
	}
	w.res.Violations = append(w.res.Violations, &Violation{Key: key, Case: w.curCase, What: fmt.Sprintf(format, args...), Input: in})
}

// Check records a violation if cond is false.
func (w *W) Check(cond bool, key, format string, args ...any) bool {
	if !cond {
		w.Fail(key, format, args...)
	}
	return cond
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// Bounded runs f without panic and checks the bytes it allocates.
func (w *W) Bounded(what string, limit uint64, f func()) bool {
	a := allocated()
	ok := w.NoPanic(what, f)
	if b := allocated() - a; ok && b > limit {
		w.Fail("alloc:"+what, "%s allocated %d bytes (limit %d)", what, b, limit)
		return false
	}
	return ok
}

func (w *W) write() {
	w.res.Distinct = int64(len(w.hashes))
	b, _ := json.Marshal(&w.res)
	if w.outFile != "" {
		os.WriteFile(w.outFile, b, 0o644)
	} else {
		os.Stdout.Write(b)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *W) watchdog() {
	// The limit is for the processor time of this process (so that a busy
	// machine does not matter); a call which waits forever is found by the
	// much larger limit for the elapsed time.
	var ms runtime.MemStats
	var cur int64
	var cpu0 time.Duration
	for {
		time.Sleep(200 * time.Millisecond)
		s := w.started.Load()
		if s != cur {
			cur, cpu0 = s, cpuTime()
			continue
		}
		if s != 0 && (int64(cpuTime()-cpu0) > w.limit.Load() || time.Now().UnixNano()-s > 10*w.limit.Load()) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			w.die("hang", fmt.Sprintf("no result after %v", time.Duration(w.limit.Load())), string(buf))
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			w.die("memory", fmt.Sprintf("heap grew to %d MB", ms.HeapAlloc>>20), string(buf))
		}
	}
}

func (w *W) die(key, what, stack string) {
	site := panicSite(stack)
	w.Fail(key+":"+site, "%s", what)
	w.addDetails(stack)
	w.res.Stopped = key
	w.write()
	os.Exit(0)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	shard := flag.Int("shard", -1, "shard (internal)")
	nsh := flag.Int("n", 8, "number of shards")
	only := flag.String("case", "", "section:index of a single case")
	slot := flag.String("slot", "", "slot file (internal)")
	limit := flag.Duration("limit", 10*time.Minute, "time limit")
	flag.Parse()
	if p := os.Getenv("ZZPROF"); p != "" {
		fd, _ := os.Create(fmt.Sprintf("%s.%d", p, os.Getpid()))
		pprof.StartCPUProfile(fd)
		defer pprof.StopCPUProfile()
	}
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no executable contract for", *prop)
		os.Exit(3)
	}
	if *shard < 0 && *only == "" {
		os.Exit(parent(*prop, *tier, *seed, *out, *nsh, *limit))
	}
	w := &W{prop: *prop, seed: *seed, thorough: *tier == "thorough", shard: *shard, n: *nsh, only: *only,
		hashes: map[uint64]struct{}{}, seen: map[string]int{}, outFile: *out, deadline: time.Now().Add(*limit)}
	w.res.Sections = map[string]int64{}
	w.res.Counters = map[string]int64{}
	debug.SetMaxStack(256 << 20)
	if *slot != "" {
		fd, err := os.OpenFile(*slot, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			fd.Truncate(slotSize)
			if b, err := syscall.Mmap(int(fd.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				w.slot = b
			}
		}
	}
	go w.watchdog()
	w.guard(time.Hour, func() { f(w) })
	w.write()
	if *only != "" {
		fmt.Println()
		for _, v := range w.res.Violations {
			fmt.Printf("%s: %s\n%s\n", v.Key, v.What, v.Details)
		}
		if len(w.res.Violations) > 0 {
			os.Exit(1)
		}
	}
}

func parent(prop, tier string, seed int64, out string, n int, limit time.Duration) int {
	dir, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	total := Result{Sections: map[string]int64{}, Counters: map[string]int64{}}
	results := make([]*Result, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := filepath.Join(dir, fmt.Sprintf("out%d", i))
			sl := filepath.Join(dir, fmt.Sprintf("slot%d", i))
			cmd := exec.Command(exe, "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(i), "-n", fmt.Sprint(n), "-out", o, "-slot", sl, "-limit", limit.String())
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
			if prop == "C16" || prop == "C19" {
				cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
			}
			var errOut strings.Builder
			cmd.Stderr = &limitedWriter{sb: &errOut}
			err := cmd.Run()
			r := &Result{}
			b, rerr := os.ReadFile(o)
			if rerr == nil {
				json.Unmarshal(b, r)
			}
			if err != nil || rerr != nil {
				v := &Violation{What: fmt.Sprintf("process died: %v", err), Details: errOut.String()}
				v.Key = "crash:" + panicSite(errOut.String())
				if strings.Contains(errOut.String(), "DATA RACE") {
					v.Key = "race:" + panicSite(errOut.String())
					v.What = "data race"
				}
				if s, err := os.ReadFile(sl); err == nil && len(s) == slotSize {
					k := binary.LittleEndian.Uint32(s)
					v.Case = string(s[4 : 4+k])
					m := binary.LittleEndian.Uint32(s[512:])
					v.Input = hex.EncodeToString(s[516 : 516+m])
				}
				r.Violations = append(r.Violations, v)
			}
			results[i] = r
		}()
	}
	wg.Wait()
	keys := map[string]bool{}
	for _, r := range results {
		total.Evals += r.Evals
		total.Distinct += r.Distinct
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for k, v := range r.Sections {
			total.Sections[k] += v
		}
		for k, v := range r.Counters {
			total.Counters[k] += v
		}
		if r.Stopped != "" {
			total.Stopped = r.Stopped
		}
		for _, v := range r.Violations {
			if !keys[v.Key] {
				keys[v.Key] = true
				total.Violations = append(total.Violations, v)
			}
		}
	}
	sort.Slice(total.Violations, func(i, j int) bool { return total.Violations[i].Key < total.Violations[j].Key })
	b, _ := json.MarshalIndent(&total, "", " ")
	if out == "" {
		os.Stdout.Write(b)
	} else {
		os.WriteFile(out, b, 0o644)
	}
	return 0
}

type limitedWriter struct {
	sb *strings.Builder
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.sb.Len() < 1<<16 {
		l.sb.Write(p)
	}
	return len(p), nil
}
