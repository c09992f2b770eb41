// Package mon is the monitoring framework: deterministic case scheduling,
// violation recording with replay files, breadcrumbs that survive a crash of
// the process, event counters and evidence output.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property monitor.
type Prop struct {
	ID    string
	Rule  string // how cases are made, what makes one non-trivial
	Notes []string
	Run   func(*Ctx)
}

// Replay identifies one case exactly.
type Replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Workload string `json:"workload"`
	Index    int    `json:"index"`
	Mode     string `json:"mode"`
	Detail   string `json:"detail"`
	Kind     string `json:"kind"`
	Rerun    string `json:"rerun"`
}

// Ctx is the state of one run of one property monitor.
type Ctx struct {
	Prop    *Prop
	Tier    string
	Seed    uint64
	Mode    string // build mode of this binary: plain, race, asan
	Verif   string // /verif
	Repo    string
	Workers int

	// Only, when set, limits the run to one workload/index (replay).
	OnlyWorkload string
	OnlyIndex    int

	mu        sync.Mutex
	viol      []Replay
	violKeys  map[string]int
	nviol     int
	counters  map[string]int64
	distinct  map[uint64]struct{}
	samples   []any
	sampleBy  map[string]int
	known     map[string]string
	knownHit  []string
	evals     atomic.Int64
	crumb     []byte
	stop      atomic.Bool
	incon     []string
	Assume    []string
	startWall time.Time
}

const crumbSlot = 256
const crumbSlots = 64

// New makes a Ctx.
func New(p *Prop, tier string, seed uint64, mode, verif, repo string) *Ctx {
	c := &Ctx{Prop: p, Tier: tier, Seed: seed, Mode: mode, Verif: verif, Repo: repo,
		Workers: min(8, max(2, runtime.NumCPU())), OnlyIndex: -1,
		violKeys: map[string]int{}, counters: map[string]int64{}, distinct: map[uint64]struct{}{},
		sampleBy: map[string]int{}, known: map[string]string{}, startWall: time.Now()}
	return c
}

// OpenCrumbs maps the breadcrumb file so that the supervisor can read, after a
// crash, which cases were in flight.
func (c *Ctx) OpenCrumbs(path string) error {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(crumbSlot * crumbSlots); err != nil {
		return err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, crumbSlot*crumbSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return err
	}
	c.crumb = b
	return nil
}

func (c *Ctx) setCrumb(slot int, workload string, idx int) {
	if c.crumb == nil || slot >= crumbSlots {
		return
	}
	s := c.crumb[slot*crumbSlot : (slot+1)*crumbSlot]
	binary.LittleEndian.PutUint64(s[0:], uint64(idx)+1)
	n := copy(s[16:], workload)
	s[8] = byte(n)
}

func (c *Ctx) clearCrumb(slot int) {
	if c.crumb == nil || slot >= crumbSlots {
		return
	}
	s := c.crumb[slot*crumbSlot : (slot+1)*crumbSlot]
	binary.LittleEndian.PutUint64(s[0:], 0)
}

// ReadCrumbs lists the in-flight cases recorded in a breadcrumb file.
func ReadCrumbs(path string) (out []Replay) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for i := 0; i+crumbSlot <= len(b); i += crumbSlot {
		s := b[i : i+crumbSlot]
		idx := binary.LittleEndian.Uint64(s[0:])
		if idx == 0 {
			continue
		}
		n := int(s[8])
		out = append(out, Replay{Workload: string(s[16 : 16+n]), Index: int(idx - 1)})
	}
	return out
}

// W is the per-case handle.
type W struct {
	C        *Ctx
	R        *rand.Rand
	Workload string
	Index    int
	failed   bool
	desc     []string
	counts   map[string]int64
}

// N scales a case count: quick as given, thorough times f.
func (c *Ctx) N(quick int, f int) int {
	if c.Mode != "plain" {
		// These builds are slow.
		quick = max(1, quick/6)
	}
	switch c.Tier {
	case "thorough":
		return quick * f
	case "scan":
		// For trying many changes of the code; not a check.
		return max(1, quick/8)
	}
	return quick
}

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return h.Sum64()
}

// Rand returns the PRNG of a named stream.
func (c *Ctx) Rand(name string, idx int) *rand.Rand {
	return rand.New(rand.NewPCG(c.Seed*0x9e3779b97f4a7c15+hash(name), uint64(idx)+0x1234567))
}

// Workload runs n deterministic cases in parallel.
func (c *Ctx) Workload(name string, n int, f func(*W)) { c.workload(name, n, c.Workers, f) }

// Serial runs n deterministic cases one after another.
func (c *Ctx) Serial(name string, n int, f func(*W)) { c.workload(name, n, 1, f) }

func (c *Ctx) workload(name string, n, workers int, f func(*W)) {
	if c.OnlyWorkload != "" && c.OnlyWorkload != name {
		return
	}
	t0 := time.Now()
	var next atomic.Int64
	lo, hi := 0, n
	if c.OnlyWorkload == name && c.OnlyIndex >= 0 {
		lo, hi = c.OnlyIndex, c.OnlyIndex+1
		workers = 1
	}
	next.Store(int64(lo))
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			counts := map[string]int64{}
			for !c.stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= hi {
					break
				}
				w := &W{C: c, R: c.Rand(name, i), Workload: name, Index: i, counts: counts}
				c.setCrumb(slot, name, i)
				c.runCase(w, f)
				c.evals.Add(1)
			}
			c.clearCrumb(slot)
			c.mu.Lock()
			for k, v := range counts {
				c.counters[k] += v
			}
			c.mu.Unlock()
		}(k)
	}
	wg.Wait()
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "[%s] workload %s: %d cases %.2fs\n", c.Prop.ID, name, hi-lo, time.Since(t0).Seconds())
	}
}

type abort struct{}

func (c *Ctx) runCase(w *W, f func(*W)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			w.fail("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f(w)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "jsoncolor") || strings.Contains(l, "verifharness") || strings.HasPrefix(l, "panic") {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Note attaches a description used if the case fails.
func (w *W) Note(format string, a ...any) { w.desc = append(w.desc, fmt.Sprintf(format, a...)) }

// Fail records a violation and continues.
func (w *W) Fail(format string, a ...any) { w.fail("oracle", format, a...) }

// Fatalf records a violation and ends the case.
func (w *W) Fatalf(format string, a ...any) { w.fail("oracle", format, a...); panic(abort{}) }

func (w *W) fail(kind, format string, a ...any) {
	w.failed = true
	msg := fmt.Sprintf(format, a...)
	if len(w.desc) > 0 {
		msg += "\n  case: " + strings.Join(w.desc, "\n  case: ")
	}
	if len(msg) > 6000 {
		msg = msg[:6000] + "...(truncated)"
	}
	w.C.AddViolation(Replay{Property: w.C.Prop.ID, Tier: w.C.Tier, Seed: w.C.Seed, Workload: w.Workload,
		Index: w.Index, Mode: w.C.Mode, Detail: msg, Kind: kind})
}

// Violations returns how many violations were seen.
func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol
}

// AddViolation records a violation.
func (c *Ctx) AddViolation(r Replay) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol++
	key := r.Workload
	c.violKeys[key]++
	lim := 3
	if os.Getenv("VERIF_DEBUG") != "" {
		lim = 1000
	}
	if c.violKeys[key] <= lim && len(c.viol) < 2000 {
		c.viol = append(c.viol, r)
	}
	if c.nviol > 20000 {
		c.stop.Store(true)
	}
}

// Count counts an observed event.
func (w *W) Count(ev string, n int) { w.counts[ev] += int64(n) }

// Distinct records a non-trivial case by content.
func (w *W) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprintf(h, "%v", x)
		}
		h.Write([]byte{0})
	}
	s := h.Sum64()
	w.C.mu.Lock()
	w.C.distinct[s] = struct{}{}
	w.C.mu.Unlock()
}

// Sample keeps up to four samples per workload.
func (w *W) Sample(format string, a ...any) {
	w.C.mu.Lock()
	defer w.C.mu.Unlock()
	if w.C.sampleBy[w.Workload] >= 2 {
		return
	}
	w.C.sampleBy[w.Workload]++
	s := fmt.Sprintf(format, a...)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	w.C.samples = append(w.C.samples, map[string]any{"workload": w.Workload, "index": w.Index, "case": s})
}

// Want samples only when useful.
func (w *W) WantSample() bool {
	w.C.mu.Lock()
	defer w.C.mu.Unlock()
	return w.C.sampleBy[w.Workload] < 2
}

// Inconclusive records that something could not be decided.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.incon = append(c.incon, fmt.Sprintf(format, a...))
}

// Counter reads a counter.
func (c *Ctx) Counter(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

// AddCount adds to a counter outside a case.
func (c *Ctx) AddCount(name string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counters[name] += n
}

// MustObserve makes a run that observed too few of an event inconclusive.
func (c *Ctx) MustObserve(name string, atLeast int64) {
	if c.OnlyWorkload != "" || c.stop.Load() || c.Tier == "scan" {
		return
	}
	if c.Mode != "plain" {
		atLeast = max(1, atLeast/12)
	}
	if got := c.Counter(name); got < atLeast {
		c.Inconclusive("observed only %d of event %q, need %d", got, name, atLeast)
	}
}

// LoadKnown reads the known-findings file.
func (c *Ctx) LoadKnown(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	var kf struct {
		Findings []struct {
			Property string `json:"property"`
			Probe    string `json:"probe"`
			What     string `json:"what"`
		} `json:"findings"`
	}
	if err := json.Unmarshal(b, &kf); err != nil {
		return err
	}
	for _, f := range kf.Findings {
		if f.Property == c.Prop.ID {
			c.known[f.Probe] = f.What
		}
	}
	return nil
}

// Probe runs one fixed, named input. If it fails and the known-findings file
// lists it, it is reported as a known finding; otherwise it is a violation.
func (c *Ctx) Probe(name string, f func(w *W) (ok bool, detail string)) {
	c.Serial("probe:"+name, 1, func(w *W) {
		ok, detail := f(w)
		w.Count("fixed probes", 1)
		if ok {
			return
		}
		c.mu.Lock()
		what, listed := c.known[name]
		if listed {
			c.knownHit = append(c.knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.Prop.ID, what))
		}
		c.mu.Unlock()
		if !listed {
			w.Fail("probe %s: %s", name, detail)
		}
	})
}

// Finish prints results, writes evidence and returns the exit status.
func (c *Ctx) Finish(evidence, replayDir string, wall float64) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.knownHit {
		fmt.Println(k)
	}
	code := 0
	if len(c.viol) > 0 {
		code = 1
		_ = os.MkdirAll(replayDir, 0o755)
		for i := range c.viol {
			WriteReplay(replayDir, &c.viol[i], i < 5 || os.Getenv("VERIF_DEBUG") != "")
		}
		if c.nviol > len(c.viol) {
			fmt.Printf("(%d violating observations in all)\n", c.nviol)
		}
	} else if len(c.incon) > 0 {
		code = 3
		for _, s := range c.incon {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", c.Prop.ID, s)
		}
	}
	if evidence != "" {
		cov := map[string]any{
			"evaluations":         c.evals.Load(),
			"distinct_nontrivial": len(c.distinct),
			"rule":                c.Prop.Rule,
			"samples":             c.samples,
			"observed_events":     c.counters,
			"build_mode":          c.Mode,
			"workers":             c.Workers,
			"known_findings":      len(c.knownHit),
		}
		ev := map[string]any{"property": c.Prop.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
			"coverage": cov, "assumptions": append([]string{}, c.Assume...), "wall_s": wall, "violations": c.nviol}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			if code == 0 {
				code = 2
			}
		}
	}
	keys := make([]string, 0, len(c.counters))
	for k := range c.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s [%s/%s] %d executions, %d distinct non-trivial, %d violating, %.1fs\n", c.Prop.ID, c.Tier, c.Mode, c.evals.Load(), len(c.distinct), c.nviol, wall)
	for _, k := range keys {
		fmt.Printf("   observed %-52s %d\n", k, c.counters[k])
	}
	return code
}

// Wall is the elapsed wall time.
func (c *Ctx) Wall() float64 { return time.Since(c.startWall).Seconds() }

// WriteReplay writes the replay file and prints the VIOLATION line.
func WriteReplay(dir string, r *Replay, verbose bool) {
	_ = os.MkdirAll(dir, 0o755)
	name := fmt.Sprintf("%s-%016x.json", r.Property, hash(r.Workload, r.Index, r.Seed, r.Mode, r.Kind))
	p := filepath.Join(dir, name)
	r.Rerun = fmt.Sprintf("./check replay %s", p)
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
	if verbose {
		fmt.Printf("  workload=%s index=%d kind=%s\n", r.Workload, r.Index, r.Kind)
		for _, l := range strings.Split(r.Detail, "\n") {
			fmt.Println("  |", l)
		}
	}
}
