// Command harness decides the properties of /verif/properties.jsonl for
// go-protoparser by property-based testing.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case is one generated case: everything a check needs, so that it can be
// replayed without the generator.
type Case struct {
	Prop   string   `json:"prop"`
	Kind   string   `json:"kind,omitempty"`
	Src    []byte   `json:"src,omitempty"`
	Strs   [][]byte `json:"strs,omitempty"`
	Ints   []int    `json:"ints,omitempty"`
	Strict bool     `json:"strict,omitempty"`
	Body   bool     `json:"body,omitempty"`
	Debug  bool     `json:"debug,omitempty"`
	File   string   `json:"file,omitempty"`
	Fills  []Fill   `json:"fills,omitempty"`
	Scale  string   `json:"scale,omitempty"` // what the fills are
}

// Result of a check on a case.
type Result struct {
	Viol string
	NT   bool // non-trivial by the rule of the property
	N    int  // executions this case stands for (1 when 0)
	NTN  int  // how many of them are non-trivial; they are distinct (1 when 0 and NT)
	Tags []string
}

func viol(f string, a ...interface{}) Result { return Result{Viol: fmt.Sprintf(f, a...)} }

// Prop is a property with its generator and its check.
type Prop struct {
	ID       string
	Level    string
	Rule     string
	Quick    int // rapid iterations
	Thorough int
	HangSec  int
	Shards   int
	Gen      func(r R, x *Exec)
	Check    func(c *Case) Result
	NoShrink bool
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.HangSec == 0 {
		p.HangSec = 20
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Exec runs the cases of one shard.
type Exec struct {
	p        *Prop
	t        *rapid.T
	stats    Stats
	hashes   map[uint64]uint32
	cur      *os.File
	lastCase *Case
	lastMsg  string
	failed   bool // shrinking: do not count
	started  atomic.Int64
	seenTag  map[string]int
}

type Sample struct {
	N    int      `json:"n"`
	Tags []string `json:"tags,omitempty"`
	Case string   `json:"case"`
}

type Stats struct {
	Evals   int
	NT      int
	Classes map[string]int
	Samples []Sample
	Slowest float64 // seconds
}

type ShardOut struct {
	Stats Stats
	Case  *Case
	Msg   string
	Error string
}

type harnessError string

// Do runs one case.
func (x *Exec) Do(c *Case) {
	c.Prop = x.p.ID
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if x.cur != nil {
		hdr := []byte(fmt.Sprintf("%010d\n", len(b)))
		x.cur.WriteAt(append(hdr, b...), 0)
	}
	x.started.Store(time.Now().UnixNano())
	began := time.Now()
	res := safeCheck(x.p, c)
	x.started.Store(0)
	if !x.failed {
		if d := time.Since(began).Seconds(); d > x.stats.Slowest {
			x.stats.Slowest = d
		}
		if res.N == 0 {
			res.N = 1
		}
		x.stats.Evals += res.N
		for _, t := range res.Tags {
			x.stats.Classes[t]++
		}
		if res.NT {
			h := fnv.New64a()
			h.Write(b)
			if res.NTN == 0 {
				res.NTN = 1
			}
			x.hashes[h.Sum64()] = uint32(res.NTN)
			x.stats.NT++
			n := x.stats.NT
			if n == 1 || n == 7 || n == 60 || n == 400 || n == 3000 {
				x.stats.Samples = append(x.stats.Samples, Sample{x.stats.Evals, res.Tags, c.text(900)})
			}
		}
	}
	if res.Viol != "" {
		x.failed = true
		cc := *c
		x.lastCase, x.lastMsg = &cc, res.Viol
		x.t.Fatalf("violation")
	}
}

// safeCheck turns a panic of the code under test into a violation.
func safeCheck(p *Prop, c *Case) (res Result) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(harnessError); ok {
				panic(h)
			}
			res = viol("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	res = p.Check(c.expand())
	if c.Scale != "" && res.NT {
		res.Tags = append(append([]string{}, res.Tags...), "scaled: "+c.Scale)
	}
	return res
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// text writes a case out for people.
func (c *Case) text(max int) string {
	var b strings.Builder
	if c.Kind != "" {
		fmt.Fprintf(&b, "kind=%s ", c.Kind)
	}
	if c.Strict {
		b.WriteString("strict ")
	}
	if c.Body {
		b.WriteString("body-comments ")
	}
	if c.Debug {
		b.WriteString("debug ")
	}
	if c.File != "" {
		fmt.Fprintf(&b, "file=%q ", c.File)
	}
	if len(c.Ints) > 0 {
		fmt.Fprintf(&b, "ints=%v ", c.Ints)
	}
	if len(c.Src) > 0 {
		fmt.Fprintf(&b, "src=%q ", c.Src)
	}
	for _, s := range c.Strs {
		fmt.Fprintf(&b, "str=%q ", s)
	}
	for _, f := range c.Fills {
		where := ""
		if f.In > 0 {
			where = fmt.Sprintf("str %d ", f.In-1)
		}
		fmt.Fprintf(&b, "with %d times %q inserted at %soffset %d ", f.N, f.Unit, where, f.At)
	}
	s := strings.TrimSpace(b.String())
	if len(s) > max {
		s = s[:max] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// tb is a minimal rapid.TB.
type tb struct {
	rapid.TB
	mu     sync.Mutex
	failed bool
	msgs   []string
}

func (t *tb) Helper()                           {}
func (t *tb) Name() string                      { return "prop" }
func (t *tb) Logf(f string, a ...interface{})   {}
func (t *tb) Log(a ...interface{})              {}
func (t *tb) Skipf(f string, a ...interface{})  { runtime.Goexit() }
func (t *tb) Skip(a ...interface{})             { runtime.Goexit() }
func (t *tb) SkipNow()                          { runtime.Goexit() }
func (t *tb) msg(s string)                      { t.mu.Lock(); t.msgs = append(t.msgs, s); t.mu.Unlock() }
func (t *tb) Errorf(f string, a ...interface{}) { t.failed = true; t.msg(fmt.Sprintf(f, a...)) }
func (t *tb) Error(a ...interface{})            { t.failed = true; t.msg(fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...interface{})            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                          { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 3 {
		fatalf("usage: harness run ID | shard ID index total outdir | replay FILE")
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(os.Args[2]))
	case "shard":
		i, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		os.Exit(shard(os.Args[2], i, n, os.Args[5]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "digest":
		os.Exit(digest(os.Args[2]))
	}
	fatalf("unknown command %s", os.Args[1])
}

func seedEnv() uint64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return uint64(s)
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func (p *Prop) iterations() int {
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	if tier() == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

const hangExit = 13

// patience multiplies the limits of a shard that is run a second time.
func patience() int {
	if k, _ := strconv.Atoi(os.Getenv("VERIF_PATIENCE")); k > 1 {
		return k
	}
	return 1
}

// cpuTime is the processor time this process has used.
func cpuTime() int64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return time.Now().UnixNano()
	}
	return u.Utime.Nano() + u.Stime.Nano()
}

// watchdog ends the process when a case runs for sec seconds and also uses that much processor time (a busy machine
// makes no case a hanging one), or runs for four times as long without using it.
func watchdog(x *Exec, sec int) {
	sec *= patience()
	limit := int64(sec) * 1e9
	var case0, cpu0 int64
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() > 3<<30 {
			fmt.Fprintln(os.Stderr, "a case uses more than 3 GB of heap")
			os.Exit(hangExit)
		}
		s := x.started.Load()
		if s == 0 {
			continue
		}
		if s != case0 {
			case0, cpu0 = s, cpuTime()
		}
		if wall := time.Now().UnixNano() - s; wall > 4*limit || wall > limit && cpuTime()-cpu0 > limit {
			fmt.Fprintf(os.Stderr, "a case runs for more than %d s\n", sec)
			os.Exit(hangExit)
		}
	}
}

func shard(id string, i, n int, out string) int {
	p := props[id]
	if p == nil {
		fatalf("unknown property %s", id)
	}
	f, err := os.Create(filepath.Join(out, fmt.Sprintf("cur%d", i)))
	if err != nil {
		fatalf("%v", err)
	}
	x := &Exec{p: p, hashes: map[uint64]uint32{}, cur: f}
	x.stats.Classes = map[string]int{}
	go watchdog(x, p.HangSec)

	seed := splitmix(seedEnv()*1000003+uint64(i)) >> 1
	if seed == 0 {
		seed = 1
	}
	checks := (p.iterations() + n - 1) / n
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "8s")
	if p.NoShrink {
		flag.Set("rapid.shrinktime", "0s")
	}
	t := &tb{}
	o := ShardOut{}
	done := make(chan bool)
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			x.t = rt
			defer func() {
				if e := recover(); e != nil {
					if h, ok := e.(harnessError); ok {
						fmt.Fprintln(os.Stderr, "harness error:", string(h))
						os.Exit(2)
					}
					panic(e)
				}
			}()
			if p.NoShrink && x.lastCase != nil {
				rt.Fatal(x.lastMsg) // found already, no need to run it once more
			}
			p.Gen(R{rt}, x)
		})
	}()
	<-done
	if x.lastCase != nil {
		if !p.NoShrink {
			shrinkCase(x)
		}
		o.Case, o.Msg = x.lastCase, x.lastMsg
	} else if t.failed {
		o.Error = strings.Join(t.msgs, "\n")
	}
	o.Stats = x.stats
	var hb bytes.Buffer
	for h, n := range x.hashes {
		var b [12]byte
		binary.LittleEndian.PutUint64(b[:], h)
		binary.LittleEndian.PutUint32(b[8:], n)
		hb.Write(b[:])
	}
	if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("hash%d", i)), hb.Bytes(), 0o644); err != nil {
		fatalf("%v", err)
	}
	b, _ := json.Marshal(o)
	if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("out%d", i)), b, 0o644); err != nil {
		fatalf("%v", err)
	}
	return 0
}

// shrinkCase removes parts of the texts of the failing case as long as it fails.
func shrinkCase(x *Exec) {
	budget := 4000
	deadline := time.Now().Add(20 * time.Second)
	try := func(c Case) bool {
		if budget <= 0 {
			return false
		}
		if budget--; time.Now().After(deadline) {
			budget = 0
			return false
		}
		x.started.Store(time.Now().UnixNano())
		res := safeCheck(x.p, &c)
		x.started.Store(0)
		if res.Viol == "" {
			return false
		}
		x.lastCase, x.lastMsg = &c, res.Viol
		return true
	}
	shrinkFills := func() {
		for i := len(x.lastCase.Fills) - 1; i >= 0; i-- {
			c := *x.lastCase
			c.Fills = append(append([]Fill{}, c.Fills[:i]...), c.Fills[i+1:]...)
			if try(c) {
				continue
			}
			// the least number of repetitions, taking a failure for monotonic
			for lo, hi := 0, x.lastCase.Fills[i].N; lo+1 < hi; {
				mid := lo + (hi-lo)/2
				c := *x.lastCase
				c.Fills = append([]Fill{}, c.Fills...)
				if c.Fills[i].N == 1 {
					break
				}
				old := c.Fills[i].N
				for k := range c.Fills { // nesting: both sides together
					if c.Fills[k].N == old {
						c.Fills[k].N = mid
					}
				}
				if try(c) {
					hi = mid
				} else {
					lo = mid
				}
			}
		}
	}
	shrinkFills()
	shrinkText := func(in int, get func(c *Case) []byte, set func(c *Case, b []byte)) {
		for progress := true; progress && budget > 0; {
			progress = false
			for size := len(get(x.lastCase)) / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= len(get(x.lastCase)); {
					s := get(x.lastCase)
					c := *x.lastCase
					c.Strs = append([][]byte{}, x.lastCase.Strs...)
					set(&c, append(append([]byte{}, s[:at]...), s[at+size:]...))
					c.Fills = cutFills(c.Fills, in, at, size)
					if try(c) {
						progress = true
					} else {
						at += size
					}
					if budget <= 0 {
						return
					}
				}
			}
		}
	}
	for i := len(x.lastCase.Strs) - 1; i >= 0; i-- {
		c := *x.lastCase
		c.Strs = append(append([][]byte{}, c.Strs[:i]...), c.Strs[i+1:]...)
		c.Fills = nil
		for _, f := range x.lastCase.Fills {
			if f.In > i+1 {
				f.In--
			} else if f.In == i+1 {
				continue
			}
			c.Fills = append(c.Fills, f)
		}
		try(c)
	}
	for i := range x.lastCase.Strs {
		i := i
		shrinkText(i+1, func(c *Case) []byte { return c.Strs[i] }, func(c *Case, b []byte) { c.Strs[i] = b })
	}
	shrinkText(0, func(c *Case) []byte { return c.Src }, func(c *Case, b []byte) { c.Src = b })
	shrinkFills()
}

// Replay file.
type Replay struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Text     string `json:"text"`
	Case     *Case  `json:"case"`
	// Shard, when set, replays a whole shard: the failure needs the history of
	// the process.
	Shard *struct {
		Index, Total int
		Seed         uint64
		Tier         string
	} `json:"shard,omitempty"`
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	p := props[rp.Property]
	if p == nil {
		fatalf("unknown property %q", rp.Property)
	}
	if rp.Shard != nil {
		dir, err := os.MkdirTemp("", "replay")
		if err != nil {
			fatalf("%v", err)
		}
		defer os.RemoveAll(dir)
		os.Setenv("VERIF_SEED", strconv.FormatUint(rp.Shard.Seed, 10))
		os.Setenv("VERIF_TIER", rp.Shard.Tier)
		shard(rp.Property, rp.Shard.Index, rp.Shard.Total, dir)
		var o ShardOut
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d", rp.Shard.Index)))
		json.Unmarshal(b, &o)
		if o.Case != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", rp.Property, file, strings.ToValidUTF8(o.Msg, "?"))
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	x := &Exec{p: p}
	go watchdog(x, 3*p.HangSec)
	x.started.Store(time.Now().UnixNano())
	n := 1
	if p.ID == "C10" {
		n = 20
	}
	for ; n > 0; n-- {
		if res := safeCheck(p, rp.Case); res.Viol != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", rp.Property, file, strings.ToValidUTF8(res.Viol, "?"))
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	return s
}

type shardRun struct {
	out  *ShardOut
	err  string
	died bool
	// stopped because another shard has found something
	stopped bool
}

// grace is the time the other shards have when one has found something.
const grace = 45 * time.Second

func runShard(id string, i, n int, dir string, stop <-chan bool) shardRun {
	cmd := exec.Command(self(), "shard", id, strconv.Itoa(i), strconv.Itoa(n), dir)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, fmt.Sprintf("race%d", i)), "VERIF_SHARD_DIR="+dir)
	if os.Getenv("GOMAXPROCS") == "" && id != "C10" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	var eb bytes.Buffer
	cmd.Stderr = &limited{w: &eb, n: 20000}
	timer := time.AfterFunc(840*time.Second, func() {
		if tier() == "quick" {
			cmd.Process.Kill()
		}
	})
	ended, stopped := make(chan bool), make(chan bool, 1)
	go func() {
		select {
		case <-ended:
			return
		case <-stop:
		}
		select {
		case <-ended:
		case <-time.After(grace):
			stopped <- true
			cmd.Process.Kill()
		}
	}()
	err := cmd.Start()
	if err == nil {
		err = cmd.Wait()
	}
	close(ended)
	timer.Stop()
	b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d", i)))
	if rerr == nil && err == nil {
		var o ShardOut
		if jerr := json.Unmarshal(b, &o); jerr != nil {
			return shardRun{err: jerr.Error()}
		}
		return shardRun{out: &o}
	}
	select {
	case <-stopped:
		return shardRun{err: "stopped", stopped: true}
	default:
	}
	died := true
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 2 && strings.Contains(eb.String(), "harness error") || ee.ExitCode() == -1) {
		died = false
	}
	return shardRun{err: fmt.Sprintf("%v: %s", err, eb.String()), died: died}
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	n := len(b)
	if len(b) > l.n {
		b = b[:l.n]
	}
	l.n -= len(b)
	l.w.Write(b)
	return n, nil
}

// confirm replays a case in a fresh process.
func confirm(file string, sec int) (bool, string) {
	cmd := exec.Command(self(), "replay", file)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+file+".race", "VERIF_RACE_LOG="+file+".race")
	var ob bytes.Buffer
	cmd.Stdout = &limited{w: &ob, n: 20000}
	cmd.Stderr = &limited{w: &ob, n: 20000}
	timer := time.AfterFunc(time.Duration(sec)*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	hung := !timer.Stop()
	if rs, _ := filepath.Glob(file + ".race.*"); len(rs) > 0 {
		for _, r := range rs {
			os.Remove(r)
		}
	}
	if hung {
		return true, "the case does not end"
	}
	if err == nil {
		return false, ob.String()
	}
	if strings.Contains(ob.String(), "harness error") {
		return false, ob.String()
	}
	s := ob.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return true, s
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func parent(id string) int {
	p := props[id]
	if p == nil {
		fatalf("unknown property %s", id)
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	n := p.Shards
	if n == 0 {
		n = 8
	}
	if k, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS")); k > 0 {
		n = k
	}
	if it := p.iterations(); n > it {
		n = it
	}
	runs := make([]shardRun, n)
	var wg sync.WaitGroup
	var once sync.Once
	stop := make(chan bool)
	for i := range runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = runShard(id, i, n, dir, stop)
			if runs[i].out != nil && runs[i].out.Case != nil {
				once.Do(func() { close(stop) })
			}
		}(i)
	}
	wg.Wait()

	known := knownFindings(id)
	total := Stats{Classes: map[string]int{}}
	distinct := map[uint64]struct{}{}
	nontrivial := 0
	var violations []string
	var kf []string
	harnessErr := ""
	rdir := filepath.Join(verifDir(), "replays")
	if d := os.Getenv("VERIF_REPLAY_DIR"); d != "" {
		rdir = d
	}
	os.MkdirAll(rdir, 0o755)
	report := func(i int, c *Case, msg string, confirmed bool) {
		if len(violations) >= 6 { // two reports are enough
			return
		}
		for k, what := range known {
			if k == c.key() {
				kf = append(kf, what)
				return
			}
		}
		if len(violations) > 0 && time.Since(start) > 150*time.Second {
			return // one is enough, confirming more would take too long
		}
		rp := Replay{Property: id, What: msg, Text: c.text(20000), Case: c}
		file := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", id, seedEnv(), i))
		write := func() {
			b, _ := json.MarshalIndent(rp, "", " ")
			if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
				fatalf("%v", err)
			}
		}
		write()
		ok := confirmed
		if !ok {
			ok, _ = confirm(file, 4*p.HangSec)
		}
		if !ok && id != "C10" {
			// the failure may need the history of the process: run the shard again
			r2dir, _ := os.MkdirTemp("", "verif-again-")
			again := runShard(id, i, n, r2dir, nil)
			os.RemoveAll(r2dir)
			if again.out == nil || again.out.Case == nil {
				harnessErr = fmt.Sprintf("shard %d: a failure was not reproducible: %s\n%s", i, msg, c.text(2000))
				os.Remove(file)
				return
			}
			rp.Shard = &struct {
				Index, Total int
				Seed         uint64
				Tier         string
			}{i, n, seedEnv(), tier()}
			write()
		}
		violations = append(violations, fmt.Sprintf("VIOLATION property=%s replay=%s", id, file))
		if len(msg) > 1200 {
			msg = msg[:1200] + "..."
		}
		violations = append(violations, "  "+strings.ReplaceAll(msg, "\n", "\n  "), "  case: "+c.text(1500))
	}
	take := func(i int, r shardRun) {
		s := r.out.Stats
		total.Evals += s.Evals
		total.NT += s.NT
		if s.Slowest > total.Slowest {
			total.Slowest = s.Slowest
		}
		for k, v := range s.Classes {
			total.Classes[k] += v
		}
		total.Samples = append(total.Samples, s.Samples...)
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hash%d", i)))
		for k := 0; k+12 <= len(b); k += 12 {
			h := binary.LittleEndian.Uint64(b[k:])
			if _, ok := distinct[h]; !ok {
				distinct[h] = struct{}{}
				nontrivial += int(binary.LittleEndian.Uint32(b[k+8:]))
			}
		}
		if r.out.Error != "" {
			harnessErr = fmt.Sprintf("shard %d: %s", i, r.out.Error)
		}
		if r.out.Case != nil {
			report(i, r.out.Case, r.out.Msg, false)
		}
	}
	for i, r := range runs {
		if r.out != nil {
			take(i, r)
		}
	}
	for i, r := range runs {
		if r.out != nil {
			continue
		}
		if r.stopped {
			if len(violations) > 0 {
				continue
			}
			// what the other shard has found is a known one, or none
			if r = runShard(id, i, n, dir, nil); r.out != nil {
				take(i, r)
				continue
			}
		}
		if r.died {
			c := readCur(filepath.Join(dir, fmt.Sprintf("cur%d", i)))
			if c != nil {
				if len(violations) > 0 {
					continue // reported already
				}
				before := len(violations)
				msg := "the process running this case died or did not end: " + r.err
				file := filepath.Join(dir, fmt.Sprintf("died%d.json", i))
				b, _ := json.Marshal(Replay{Property: id, Case: c})
				os.WriteFile(file, b, 0o644)
				if ok, how := confirm(file, 4*p.HangSec); ok {
					report(i, c, msg+"\nreplay: "+how, true)
				}
				if len(violations) > before || len(kf) > 0 {
					continue
				}
				// the case passes by itself: the machine was too busy, or the history matters
				os.Setenv("VERIF_PATIENCE", "5")
				again := runShard(id, i, n, dir, nil)
				os.Unsetenv("VERIF_PATIENCE")
				if again.out != nil {
					take(i, again)
					continue
				}
			}
		}
		harnessErr = fmt.Sprintf("shard %d: %s", i, r.err)
	}

	sort.SliceStable(total.Samples, func(a, b int) bool { return total.Samples[a].N < total.Samples[b].N })
	if len(total.Samples) > 12 {
		var keep []Sample
		for k := 0; k < 12; k++ {
			keep = append(keep, total.Samples[k*len(total.Samples)/12])
		}
		total.Samples = keep
	}
	var samples []interface{}
	for _, s := range total.Samples {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	nviol := 0
	for _, v := range violations {
		if strings.HasPrefix(v, "VIOLATION") {
			nviol++
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier(), "seed": seedEnv(), "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations": total.Evals, "distinct_nontrivial": nontrivial, "rule": p.Rule,
			"samples": samples, "classes": total.Classes, "shards": n,
		},
		"assumptions": append([]string{"the reference tokenizer and parser of /verif/harness follow the documented grammar"}, p.Assume...),
		"slowest_s":   total.Slowest,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	seen := map[string]bool{}
	for _, k := range kf {
		if !seen[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			seen[k] = true
		}
	}
	for _, v := range violations {
		fmt.Println(strings.ToValidUTF8(v, "?"))
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %.1f s\n", id, total.Evals, nontrivial, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "harness error:", harnessErr)
		return 2
	}
	if len(distinct) == 0 {
		fmt.Fprintln(os.Stderr, "harness error: no non-trivial case")
		return 2
	}
	return 0
}

func readCur(file string) *Case {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 11 {
		return nil
	}
	n, err := strconv.Atoi(string(b[:10]))
	if err != nil || len(b) < 11+n {
		return nil
	}
	var c Case
	if json.Unmarshal(b[11:11+n], &c) != nil {
		return nil
	}
	return &c
}

// key identifies a case in the known-findings file.
func (c *Case) key() string {
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%016x", h.Sum64())
}

// knownFindings reads "known: property=<id> key=<case key> <what fails>" lines.
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[f[2][4:]] = f[3]
		}
	}
	return out
}
