// Command replay searches for inputs on which the real code breaks a property, and replays them.
// It runs random histories of API calls against naive reference models.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type scenario struct {
	name string
	max  int // largest history size
	run  func(g *G)
}

var scenarios = map[string][]scenario{}

func reg(prop, name string, max int, run func(*G)) {
	scenarios[prop] = append(scenarios[prop], scenario{prop + "/" + name, max, run})
}

type failure struct{ key, what string }

// G is the source of choices and the log of one history.
type G struct {
	r     *rand.Rand
	size  int
	logOn bool
	log   []string
	steps int64
	hash  uint64
}

func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	v := g.r.Intn(k)
	g.hash = (g.hash ^ uint64(v)) * 1099511628211
	return v
}
func (g *G) bool() bool { return g.n(2) == 0 }

// one in k
func (g *G) one(k int) bool { return g.n(k) == 0 }
func (g *G) u64() uint64 {
	v := g.r.Uint64()
	g.hash = (g.hash ^ v) * 1099511628211
	return v
}
func (g *G) op(f string, a ...interface{}) {
	g.steps++
	if g.logOn {
		g.log = append(g.log, fmt.Sprintf(f, a...))
	}
}
func (g *G) fail(key, f string, a ...interface{}) { panic(failure{key, fmt.Sprintf(f, a...)}) }

type outcome struct {
	failed bool
	key    string
	what   string
	g      *G
}

func runOne(s scenario, seed int64, size int, logOn bool) (o outcome) {
	g := &G{r: rand.New(rand.NewSource(seed)), size: size, logOn: logOn, hash: 14695981039346656037}
	o.g = g
	defer func() {
		if e := recover(); e != nil {
			o.failed = true
			if f, ok := e.(failure); ok {
				o.key, o.what = f.key, f.what
				return
			}
			st := string(debug.Stack())
			// keep only the frames below the panic
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			o.key = "panic"
			o.what = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	s.run(g)
	return
}

type result struct {
	Property string   `json:"property"`
	Found    bool     `json:"found"`
	Scenario string   `json:"scenario"`
	Seed     int64    `json:"seed"`
	Size     int      `json:"size"`
	Log      []string `json:"log"`
	What     string   `json:"what"`
	Key      string   `json:"key"`
	Runs     int64    `json:"runs"`
	Steps    int64    `json:"steps"`
	Distinct int64    `json:"distinct"`
	Error    string   `json:"error"`
	Samples  []string `json:"samples"`
}

func write(path string, r result) {
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0o644)
}

func worker(prop string, seed int64, dur time.Duration, out, cur string) {
	ss := scenarios[prop]
	res := result{Property: prop}
	debug.SetMaxStack(256 << 20)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	f, err := os.OpenFile(cur, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	deadline := time.Now().Add(dur)
	var stop int32
	var mu sync.Mutex
	var wg sync.WaitGroup
	started := make([]int64, nw)
	seen := make([]map[uint64]bool, nw)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		seen[w] = map[uint64]bool{}
		go func(w int) {
			defer wg.Done()
			var runs, steps int64
			var buf [24]byte
			for i := int64(0); atomic.LoadInt32(&stop) == 0 && time.Now().Before(deadline); i++ {
				k := i*int64(nw) + int64(w)
				s := ss[int(k)%len(ss)]
				size := 1 + int(k/int64(len(ss)))%s.max
				sd := seed*1000003 + k
				binary.LittleEndian.PutUint64(buf[0:], uint64(int(k)%len(ss)))
				binary.LittleEndian.PutUint64(buf[8:], uint64(sd))
				binary.LittleEndian.PutUint64(buf[16:], uint64(size))
				f.WriteAt(buf[:], int64(w*24))
				atomic.StoreInt64(&started[w], time.Now().UnixNano())
				o := runOne(s, sd, size, false)
				atomic.StoreInt64(&started[w], 0)
				runs++
				steps += o.g.steps
				if o.g.steps > 1 && len(seen[w]) < 500000 {
					seen[w][o.g.hash] = true
				}
				if o.failed {
					mu.Lock()
					if !res.Found {
						res.Found = true
						res.Scenario, res.Seed, res.Size = s.name, sd, size
					}
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
				}
			}
			mu.Lock()
			res.Runs += runs
			res.Steps += steps
			res.Distinct += int64(len(seen[w]))
			mu.Unlock()
		}(w)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	for {
		select {
		case <-done:
			if res.Found {
				shrink(ss, &res)
			} else {
				for i, s := range ss {
					if i < 4 {
						o := runOne(s, seed*1000003+int64(i), 3, true)
						res.Samples = append(res.Samples, s.name+": "+strings.Join(o.g.log, "; "))
					}
				}
			}
			write(out, res)
			os.Exit(0)
		case <-time.After(500 * time.Millisecond):
			now := time.Now().UnixNano()
			for w := range started {
				if s := atomic.LoadInt64(&started[w]); s != 0 && now-s > int64(25*time.Second) {
					os.Exit(77) // a history that does not end
				}
			}
		}
	}
}

func shrink(ss []scenario, res *result) {
	var s scenario
	for _, x := range ss {
		if x.name == res.Scenario {
			s = x
		}
	}
	end := time.Now().Add(6 * time.Second)
	best := res.Size
	bs := res.Seed
outer:
	for size := 1; size < best; size++ {
		for k := int64(0); k < 3000; k++ {
			if time.Now().After(end) {
				break outer
			}
			if o := runOne(s, 777000+k, size, false); o.failed {
				best, bs = size, 777000+k
				break outer
			}
		}
	}
	o := runOne(s, bs, best, true)
	if !o.failed {
		o = runOne(s, res.Seed, res.Size, true)
		best, bs = res.Size, res.Seed
	}
	res.Size, res.Seed = best, bs
	res.Log, res.What, res.Key = o.g.log, o.what, o.key
	if !o.failed {
		res.What = "the failure did not repeat with the same choices (it depends on the schedule)"
	}
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	dur := fs.Duration("time", 5*time.Second, "")
	out := fs.String("o", "", "")
	cur := fs.String("cur", "", "")
	idx := fs.Int("scenario", 0, "")
	size := fs.Int("size", 1, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "worker":
		worker(*prop, *seed, *dur, *out, *cur)
	case "one":
		// one history in a process of its own
		s := scenarios[*prop][*idx]
		debug.SetMaxStack(256 << 20)
		o := runOne(s, *seed, *size, true)
		for _, l := range o.g.log {
			fmt.Println(l)
		}
		if o.failed {
			fmt.Println("FAILED [" + o.key + "]: " + o.what)
			os.Exit(1)
		}
	case "run":
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			panic(err)
		}
		var w struct {
			Replay result `json:"replay"`
		}
		if err := json.Unmarshal(b, &w); err != nil {
			panic(err)
		}
		for _, s := range scenarios[w.Replay.Property] {
			if s.name == w.Replay.Scenario {
				o := runOne(s, w.Replay.Seed, w.Replay.Size, true)
				fmt.Println(strings.Join(o.g.log, "\n"))
				if o.failed {
					fmt.Println("FAILED [" + o.key + "]: " + o.what)
					os.Exit(1)
				}
				fmt.Println("no failure")
				return
			}
		}
		fmt.Println("nothing to replay")
	case "search":
		if len(scenarios[*prop]) == 0 {
			fmt.Fprintln(os.Stderr, "no scenario for", *prop)
			os.Exit(2)
		}
		self, _ := os.Executable()
		cf := filepath.Join(filepath.Dir(*out), "cur_"+*prop)
		os.Remove(cf)
		os.Remove(*out)
		cmd := exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-time", dur.String(), "-o", *out, "-cur", cf)
		tail := &tailBuf{}
		cmd.Stdout, cmd.Stderr = tail, tail
		err := cmd.Run()
		if _, e := os.Stat(*out); e == nil {
			return
		}
		// the worker died: one of the histories it was running is to blame
		b, _ := os.ReadFile(cf)
		res := result{Property: *prop, Error: fmt.Sprintf("the search process ended with %v: %s", err, tail.String())}
		for i := 0; i+24 <= len(b); i += 24 {
			ix := int(binary.LittleEndian.Uint64(b[i:]))
			sd := int64(binary.LittleEndian.Uint64(b[i+8:]))
			sz := int(binary.LittleEndian.Uint64(b[i+16:]))
			c := exec.Command(self, "one", "-prop", *prop, "-scenario", fmt.Sprint(ix), "-seed", fmt.Sprint(sd), "-size", fmt.Sprint(sz))
			tb := &tailBuf{}
			c.Stdout, c.Stderr = tb, tb
			c.Start()
			dn := make(chan error, 1)
			go func() { dn <- c.Wait() }()
			bad, why := false, ""
			select {
			case e := <-dn:
				bad, why = e != nil, "the process crashed"
			case <-time.After(30 * time.Second):
				c.Process.Kill()
				bad, why = true, "the history does not end within 30 s"
			}
			if bad {
				res.Error = ""
				res.Found = true
				res.Scenario, res.Seed, res.Size = scenarios[*prop][ix].name, sd, sz
				res.Key = "crash"
				res.What = why + ": " + tb.String()
				break
			}
		}
		write(*out, res)
	}
}

// tailBuf keeps the first bytes written to it.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 3000 {
		t.b = append(t.b, p...)
		if len(t.b) > 3000 {
			t.b = t.b[:3000]
		}
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }
