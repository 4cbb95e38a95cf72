package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- the verifier

type span struct {
	File  string `json:"file_name"`
	Line  int    `json:"line_start"`
	End   int    `json:"line_end"`
	Prim  bool   `json:"is_primary"`
	Label string `json:"label"`
}

type diag struct {
	Message  string `json:"message"`
	Level    string `json:"level"`
	Spans    []span `json:"spans"`
	Rendered string `json:"rendered"`
}

type fnTime struct {
	Function string `json:"function"`
	Mode     string `json:"mode:"`
	Micros   int64  `json:"time-micros"`
	Rlimit   int64  `json:"rlimit"`
	Success  bool   `json:"success"`
}

type verusOut struct {
	verified, errors int
	vir              bool // rejected before any query
	timeout          bool
	fns              []fnTime
	diags            []diag
	smtMs            int64
	wall             float64
	version          string
	raw              string
	reproved         []string // proved in a run of their own, not in the run of the unit
}

// verusDeadline bounds the time of all verifier runs of one check together.
var verusDeadline time.Time

func runVerus(dir, file string, limit time.Duration, args ...string) *verusOut {
	if left := time.Until(verusDeadline); !verusDeadline.IsZero() && left < limit {
		limit = left
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	a := append([]string{file, "--error-format=json", "--output-json", "--time-expanded", "--num-threads", "8"}, args...)
	cmd := exec.CommandContext(ctx, "verus", a...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	t0 := time.Now()
	cmd.Run()
	r := &verusOut{wall: time.Since(t0).Seconds(), timeout: ctx.Err() != nil}
	var o struct {
		Res struct {
			VirErr bool `json:"encountered-vir-error"`
			Ok     bool `json:"success"`
			V      int  `json:"verified"`
			E      int  `json:"errors"`
		} `json:"verification-results"`
		Times struct {
			Smt struct {
				Run  int64 `json:"total"`
				Mods []struct {
					F []fnTime `json:"function-breakdown"`
				} `json:"smt-run-module-times"`
			} `json:"smt"`
		} `json:"times-ms"`
		Verus struct {
			Version string `json:"version"`
		} `json:"verus"`
	}
	ok := json.Unmarshal(so.Bytes(), &o) == nil
	r.verified, r.errors, r.vir = o.Res.V, o.Res.E, o.Res.VirErr || !ok
	r.version = o.Verus.Version
	for _, m := range o.Times.Smt.Mods {
		for _, f := range m.F {
			r.fns = append(r.fns, f)
			r.smtMs += f.Micros / 1000
		}
	}
	sc := bufio.NewScanner(&se)
	sc.Buffer(make([]byte, 1<<22), 1<<26)
	for sc.Scan() {
		var d diag
		if json.Unmarshal(sc.Bytes(), &d) == nil && d.Message != "" {
			if d.Level == "error" {
				r.diags = append(r.diags, d)
			}
		} else {
			r.raw += sc.Text() + "\n"
		}
	}
	if !o.Res.Ok && len(r.diags) == 0 {
		r.diags = append(r.diags, diag{Message: "the verifier gave no result", Level: "error", Rendered: r.raw})
		if r.timeout {
			r.diags[len(r.diags)-1].Message = "the verifier ran out of time"
		}
	}
	return r
}

// reprove asks again, function by function and with other solver seeds, for what was not
// proved in the run of the whole unit: the search for a proof depends on the order of the
// declarations, and a proof found in any run is a proof. The answer changes only when
// every function that failed is proved.
func (o *verusOut) reprove(dir, file, rlimit string) {
	if o.vir || o.timeout || o.errors == 0 {
		return
	}
	var names []string
	for _, f := range o.fns {
		if !f.Success {
			names = append(names, f.Function[strings.LastIndex(f.Function, ":")+1:])
		}
	}
	if len(names) == 0 || len(names) > 3 || len(names) != o.errors {
		return
	}
	ok := make([]bool, len(names))
	for seed := 0; seed < 3; seed += 2 {
		var wg sync.WaitGroup
		for i, n := range names {
			if ok[i] {
				continue
			}
			wg.Add(1)
			go func(i int, n string) {
				defer wg.Done()
				a := []string{"--verify-root", "--verify-function", n, "--smt-option", fmt.Sprintf("smt.random_seed=%d", seed)}
				if rlimit != "" {
					a = append(a, "--rlimit", rlimit)
				}
				v := runVerus(dir, file, 60*time.Second, a...)
				ok[i] = !v.vir && !v.timeout && v.errors == 0 && v.verified > 0
				for _, f := range v.fns {
					if !f.Success {
						ok[i] = false
					}
				}
			}(i, n)
		}
		wg.Wait()
		if seed == 0 {
			// what two functions at once do not get is not a matter of luck
			bad := 0
			for _, b := range ok {
				if !b {
					bad++
				}
			}
			if bad > 1 {
				return
			}
		}
	}
	for _, b := range ok {
		if !b {
			return
		}
	}
	o.reproved = names
	o.verified += o.errors
	o.errors = 0
	o.diags = nil
	for i := range o.fns {
		o.fns[i].Success = true
	}
}

// ---------------------------------------------------------------- one unit

type failure struct {
	Unit     string   `json:"unit"`
	Function string   `json:"function"`
	Source   string   `json:"source,omitempty"`
	Message  string   `json:"message"`
	Oblig    string   `json:"obligation"`
	Tags     []string `json:"-"`
	Output   string   `json:"verifier_output"`
}

type unitResult struct {
	name    string
	g       *generated
	out     *verusOut
	fails   []failure
	err     string
	vacuous []string
	vacN    int
	probes  int
	dead    []string
	lines   int
	sameAs  string
}

func (f failure) concerns(prop string) bool {
	if len(f.Tags) == 0 {
		return true
	}
	for _, t := range f.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

func (g *generated) funcAt(n int) *doneFunc {
	for _, f := range g.funcs {
		if n-1 >= f.start && n-1 < f.end {
			return f
		}
	}
	return nil
}

var reTheoryFn = regexp.MustCompile(`\bfn\s+(\w+)`)

func (u *unitResult) fail(d diag) failure {
	f := failure{Unit: u.name, Message: d.Message, Output: d.Rendered}
	var tags []string
	tagged := false
	var fnTags []string
	sort.SliceStable(d.Spans, func(i, j int) bool { return d.Spans[i].Prim && !d.Spans[j].Prim })
	for _, s := range d.Spans {
		if !strings.HasSuffix(s.File, ".rs") || strings.Contains(s.File, "/") {
			continue
		}
		l := u.g.line(s.Line)
		df := u.g.funcAt(s.Line)
		if f.Oblig == "" && l.desc != "" {
			f.Oblig = l.desc
		}
		// the obligation belongs to the function whose body was being verified: a failed
		// precondition has its primary span there, a failed postcondition as well
		if df != nil && f.Function == "" {
			f.Function = df.spec.pkg + ":" + df.spec.name
			f.Source = df.pos
			fnTags = df.spec.tags
		}
		if len(l.tags) > 0 && df != nil && df.spec.pkg+":"+df.spec.name == f.Function {
			tagged = true
			tags = append(tags, l.tags...)
		}
	}
	if f.Function == "" && len(d.Spans) > 0 {
		for n := d.Spans[0].Line; n > 0; n-- {
			if m := reTheoryFn.FindStringSubmatch(u.g.line(n).text); m != nil {
				f.Function = m[1]
				break
			}
		}
	}
	if f.Oblig == "" {
		f.Oblig = d.Message
	} else {
		f.Oblig = d.Message + ": " + f.Oblig
	}
	if tagged {
		f.Tags = tags
	} else {
		f.Tags = fnTags
	}
	return f
}

// vacText is the module that tries to prove false from every precondition.
func (g *generated) vacText() (string, []string) {
	var sb strings.Builder
	var names []string
	sb.WriteString("mod vac { use super::*;\n")
	for i, f := range g.funcs {
		if !f.ok || f.caseN > 0 || len(f.spec.requires) == 0 {
			continue
		}
		// the signature and the requires block, without the ensures and decreases
		var sig string
		var req []string
		in := false
		for n := f.start; n < f.end; n++ {
			t := g.lines[n].text
			if strings.HasPrefix(t, "fn ") {
				sig = t
			}
			switch strings.TrimSpace(t) {
			case "requires":
				in = true
				continue
			case "ensures", "{":
				in = false
			}
			if strings.Contains(t, "decreases ") {
				in = false
			}
			if in {
				req = append(req, t)
			}
			if strings.TrimSpace(t) == "{" {
				break
			}
		}
		k := strings.Index(sig, ") -> (")
		if sig == "" || k < 0 || len(req) == 0 {
			continue
		}
		o := strings.Index(sig, "(")
		nm := fmt.Sprintf("vac_%d_%s", i, f.rust)
		names = append(names, nm)
		fmt.Fprintf(&sb, "fn %s%s) requires\n%s\n{ proof { assert(false); } }\n", nm, sig[o:k], strings.Join(req, "\n"))
	}
	sb.WriteString("}\n")
	return sb.String(), names
}

// Units whose generated texts are the same but for the width in package names carry the same
// obligations: within one run the verifier decides them once.
type shared struct {
	mu sync.Mutex
	m  map[string]*sharedOut
}

type sharedOut struct {
	name    string
	done    chan bool
	once    sync.Once
	out, vo *verusOut
}

func (s *sharedOut) close() { s.once.Do(func() { close(s.done) }) }

var widthRE = regexp.MustCompile(`(domaintree|strtree|iptree)(8|16|32|64)\b`)
var widthRE2 = regexp.MustCompile(`(domaintree|strtree|iptree)(8|16|32|64)_`)

func alphaKey(text, opts string) string {
	return opts + widthRE2.ReplaceAllString(widthRE.ReplaceAllString(text, "${1}W"), "${1}W_")
}

func runUnit(l *loader, root, name, work string, limit time.Duration, deep bool, vars map[string][]string, sh *shared) *unitResult {
	r := &unitResult{name: name}
	u, err := parseUnit(root, name)
	if err != nil {
		r.err = err.Error()
		return r
	}
	u.broken = map[string]string{}
again:
	g, err := generate(l, u, root, vars)
	if err != nil {
		r.err = err.Error()
		return r
	}
	r.g = g
	r.lines = len(g.lines)
	base := "u_" + strings.NewReplacer(":", "_", "/", "_").Replace(name)
	text := g.text()
	if err := os.WriteFile(filepath.Join(work, base+".rs"), []byte(text), 0o644); err != nil {
		r.err = err.Error()
		return r
	}
	args := []string{"--multiple-errors", "6"}
	if u.rlimit != "" {
		args = append(args, "--rlimit", u.rlimit)
	}
	var wg sync.WaitGroup
	vt, vn := g.vacText()
	var lead *sharedOut
	if sh != nil {
		key := alphaKey(text, u.rlimit+"\n")
		sh.mu.Lock()
		o := sh.m[key]
		if o == nil {
			lead = &sharedOut{name: name, done: make(chan bool)}
			sh.m[key] = lead
			defer lead.close()
		}
		sh.mu.Unlock()
		if o != nil {
			<-o.done
			if o.out == nil {
				r.err = "the verifier gave no result for unit " + o.name
				return r
			}
			r.out, r.sameAs = o.out, o.name
			vo := o.vo
			if retry := r.finish(u, g, vo, vn, name); retry {
				if u2, err := parseUnit(root, name); err == nil {
					u2.broken = u.broken
					u = u2
					goto again
				}
			}
			return r
		}
	}
	wg.Add(1)
	var vo *verusOut
	go func() {
		defer wg.Done()
		if len(vn) == 0 {
			return
		}
		t2 := strings.Replace(text, "} // verus!\nfn main() {}", vt+"} // verus!\nfn main() {}", 1)
		os.WriteFile(filepath.Join(work, base+"_vac.rs"), []byte(t2), 0o644)
		vo = runVerus(work, base+"_vac.rs", limit, "--verify-only-module", "vac", "--multiple-errors", "1", "--rlimit", "5")
	}()
	r.out = runVerus(work, base+".rs", limit, args...)
	wg.Wait()
	r.out.reprove(work, base+".rs", u.rlimit)
	if lead != nil {
		lead.out, lead.vo = r.out, vo
		lead.close()
	}
	if retry := r.finish(u, g, vo, vn, name); retry {
		if u2, err := parseUnit(root, name); err == nil {
			u2.broken = u.broken
			u = u2
			goto again
		}
	}
	if deep && len(r.fails) == 0 {
		r.deepProbe(work, base, limit)
	}
	return r
}

// finish reads the verifier's answers; it asks for another round after setting functions aside.
func (r *unitResult) finish(u *unitSpec, g *generated, vo *verusOut, vn []string, name string) bool {
	noAnswer := r.out.verified+r.out.errors == 0
	if (r.out.vir || noAnswer) && len(u.broken) < 12 {
		// what the verifier cannot read is set aside function by function, so that the rest is decided
		n := len(u.broken)
		for _, d := range r.out.diags {
			for _, s := range d.Spans {
				f := g.funcAt(s.Line)
				if f == nil || f.spec.mode != "verify" || f.err != "" {
					continue
				}
				k := f.spec.pkg + ":" + f.spec.name
				if _, ok := u.broken[k]; !ok {
					u.broken[k] = d.Message + "\n" + d.Rendered
				}
			}
		}
		if len(u.broken) > n {
			return true
		}
	}
	for _, f := range g.funcs {
		if f.err != "" {
			r.fails = append(r.fails, failure{Unit: name, Function: f.spec.pkg + ":" + f.spec.name, Message: "not extracted: " + f.err, Oblig: f.spec.pkg + ":" + f.spec.name + ": the function does not reach the verifier", Tags: f.spec.tags, Output: f.err})
		}
	}
	for _, d := range r.out.diags {
		if strings.HasPrefix(d.Message, "aborting due to") {
			continue
		}
		r.fails = append(r.fails, r.fail(d))
	}
	if vo != nil && !vo.timeout {
		r.vacN = len(vn)
		if !vo.vir {
			bad := map[string]bool{}
			for _, f := range vo.fns {
				if i := strings.Index(f.Function, "vac_"); i >= 0 && f.Success {
					bad[f.Function[i:]] = true
				}
			}
			for _, n := range vn {
				if bad[n] {
					r.vacuous = append(r.vacuous, n)
				}
			}
			if vo.errors+len(r.vacuous) < len(vn) {
				r.vacuous = append(r.vacuous, fmt.Sprintf("only %d of %d preconditions were probed", vo.errors, len(vn)))
			}
		} else if !r.out.vir {
			r.vacuous = append(r.vacuous, "the vacuity probe did not run: "+firstDiag(vo))
		}
	}
	return false
}

func firstDiag(o *verusOut) string {
	for _, d := range o.diags {
		return d.Message + " " + d.Rendered
	}
	return o.raw
}

// deepProbe asks for a proof of false before every return of every function: one that
// succeeds for all returns of a function means that nothing was proved about it.
func (r *unitResult) deepProbe(work, base string, limit time.Duration) {
	var sb strings.Builder
	type pr struct {
		f *doneFunc
		n int
	}
	at := map[int]pr{}
	cnt := map[*doneFunc]int{}
	line := 0
	for i, l := range r.g.lines {
		f := r.g.funcAt(i + 1)
		if f != nil && f.caseN == 0 && f.spec.mode == "verify" && strings.HasPrefix(l.text, "return ") && strings.HasSuffix(l.text, ";") {
			sb.WriteString("proof { assert(false); }\n")
			line++
			at[line] = pr{f, i}
			cnt[f]++
		}
		sb.WriteString(l.text + "\n")
		line++
	}
	os.WriteFile(filepath.Join(work, base+"_deep.rs"), []byte(sb.String()), 0o644)
	o := runVerus(work, base+"_deep.rs", limit, "--multiple-errors", "40", "--rlimit", "20")
	hit := map[*doneFunc]int{}
	for _, d := range o.diags {
		for _, s := range d.Spans {
			if p, ok := at[s.Line]; ok {
				hit[p.f]++
			}
		}
		if len(d.Spans) > 0 && strings.Contains(d.Message, "Resource limit") {
			for ln, p := range at {
				if ln >= d.Spans[0].Line && ln <= d.Spans[0].End {
					hit[p.f]++
				}
			}
		}
	}
	for f, n := range cnt {
		r.probes += n
		if hit[f] == 0 {
			r.dead = append(r.dead, f.spec.pkg+":"+f.spec.name)
		}
	}
	sort.Strings(r.dead)
}

// ---------------------------------------------------------------- a property

type propSpec struct {
	ID      string   `json:"id"`
	Units   []string `json:"units"`
	Search  string   `json:"search"`
	Quick   int      `json:"quick_s"` // bounded run next to an accepted proof, seconds
	Assumed []string `json:"assumed"` // assumptions specific to the property
	Bounded []string `json:"bounded"` // functions covered only by the bounded run
	Uses    []string `json:"uses"`    // properties of other packages this one rests on, proved on the same run
}

type searchResult struct {
	Property string   `json:"property"`
	Found    bool     `json:"found"`
	Scenario string   `json:"scenario"`
	Seed     int64    `json:"seed"`
	Size     int      `json:"size"`
	Log      []string `json:"log"`
	What     string   `json:"what"`
	Key      string   `json:"key"`
	Runs     int64    `json:"runs"`
	Steps    int64    `json:"steps"`
	Distinct int64    `json:"distinct"`
	Error    string   `json:"error"`
	Known    []string `json:"known"`
	Samples  []string `json:"samples"`
}

func search(root, repo, work, prop string, seed int64, dur time.Duration) searchResult {
	var r searchResult
	dir := filepath.Join(work, "replay")
	os.MkdirAll(dir, 0o755)
	src := filepath.Join(root, "replay")
	// a scratch copy of the harness module with a replace directive for the repository
	ents, err := os.ReadDir(src)
	if err != nil {
		r.Error = err.Error()
		return r
	}
	for _, e := range ents {
		if e.IsDir() {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(src, e.Name()))
		if e.Name() == "go.mod" {
			b = []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo))
		}
		os.WriteFile(filepath.Join(dir, e.Name()), b, 0o644)
	}
	bin := filepath.Join(work, "replay.bin")
	if _, err := os.Stat(bin); err != nil {
		cmd := exec.Command("go", "build", "-o", bin, ".")
		cmd.Dir = dir
		cmd.Env = goEnv()
		if o, err := cmd.CombinedOutput(); err != nil {
			r.Error = "the replay harness does not build against the repository: " + err.Error() + "\n" + string(o)
			return r
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), dur+60*time.Second)
	defer cancel()
	outf := filepath.Join(work, "search_"+prop+".json")
	cmd := exec.CommandContext(ctx, bin, "search", "-prop", prop, "-seed", fmt.Sprint(seed), "-time", dur.String(), "-o", outf)
	cmd.Env = append(goEnv(), "GOMEMLIMIT=8GiB")
	cmd.Dir = work
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(outf)
	if rerr != nil || json.Unmarshal(b, &r) != nil {
		tail := string(o)
		if len(tail) > 4000 {
			tail = tail[len(tail)-4000:]
		}
		r.Error = fmt.Sprintf("search ended with %v: %s", err, tail)
	}
	return r
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "HOME=/root", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "PATH=/usr/local/go/bin:"+os.Getenv("PATH"))
}

func loadProps(root string) []propSpec {
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	die(err)
	var ps []propSpec
	die(json.Unmarshal(b, &ps))
	return ps
}

type knownFinding struct{ prop, key, text string }

// known-findings.txt: lines "known: property=<id> key=<key> <what>" (reported, not an alarm)
// and "fixed: property=<id> <commit> <what>" (suppresses nothing).
func loadKnown(root, prop string) []knownFinding {
	b, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	var r []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			r = append(r, knownFinding{m[1], m[2], m[3]})
		}
	}
	return r
}

func check(root, repo, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	var ps propSpec
	for _, p := range loadProps(root) {
		if p.ID == prop {
			ps = p
		}
	}
	if ps.ID == "" {
		die(fmt.Errorf("no check for property %s", prop))
	}
	if bad := consistent(root, ps.Units); len(bad) > 0 {
		fmt.Printf("ERROR property=%s %s\n", prop, strings.Join(bad, "; "))
		return 2
	}
	work, err := os.MkdirTemp("", "dv-"+prop+"-")
	die(err)
	defer os.RemoveAll(work)
	limit := 420 * time.Second
	deep := tier == "thorough"
	if deep {
		limit = 3000 * time.Second
	}
	verusDeadline = t0.Add(590 * time.Second)
	if deep {
		verusDeadline = t0.Add(3 * time.Hour)
	}
	vars := loadVars(root)
	res := make([]*unitResult, len(ps.Units))
	sh := &shared{m: map[string]*sharedOut{}}
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, u := range ps.Units {
		wg.Add(1)
		go func(i int, u string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if e := recover(); e != nil {
					res[i] = &unitResult{name: u, err: fmt.Sprint("the extraction stopped: ", e)}
				}
			}()
			res[i] = runUnit(newLoader(repo), root, u, work, limit, deep, vars, sh)
		}(i, u)
	}
	// the bounded run over the real code, next to the proof
	qd := time.Duration(ps.Quick) * time.Second
	if qd == 0 {
		qd = 5 * time.Second
	}
	if deep {
		qd = 300 * time.Second
	}
	smoke := make(chan searchResult, 1)
	go func() {
		if ps.Search == "" {
			smoke <- searchResult{}
			return
		}
		smoke <- search(root, repo, work, ps.Search, seed, qd)
	}()
	wg.Wait()
	sm := <-smoke

	var fails, other []failure
	obl, dis := 0, 0
	var smt int64
	var funcs, assumed, trusted []string
	var vac []string
	vacN, probes := 0, 0
	seenT := map[string]bool{}
	backend := ""
	var slow []fnTime
	same := []string{}
	for _, r := range res {
		if r.err != "" {
			fails = append(fails, failure{Unit: r.name, Message: r.err, Oblig: "the unit " + r.name + " does not reach the verifier", Output: r.err})
			continue
		}
		n := r.out.verified + r.out.errors
		if r.sameAs == "" {
			obl += n
			dis += r.out.verified
			smt += r.out.smtMs
			for _, n := range r.out.reproved {
				same = append(same, r.name+": "+n+" was proved in a run of its own")
			}
		} else {
			same = append(same, r.name+": the same generated text as "+r.sameAs+" but for the package name")
		}
		backend = "Verus " + r.out.version + " (Z3 bundled with Verus)"
		vacN += r.vacN
		probes += r.probes
		for _, v := range r.vacuous {
			vac = append(vac, r.name+": "+v)
		}
		for _, v := range r.dead {
			vac = append(vac, r.name+": every return of "+v+" proves false")
		}
		if n == 0 {
			// nothing was decided, whatever the messages say
			fails = append(fails, failure{Unit: r.name, Message: "the verifier decided no obligation", Oblig: "the verifier decided no obligation of unit " + r.name})
		}
		for _, f := range r.fails {
			hit := f.concerns(prop)
			for _, u := range ps.Uses {
				hit = hit || f.concerns(u)
			}
			if hit {
				fails = append(fails, f)
			} else {
				other = append(other, f)
			}
		}
		for _, f := range r.g.funcs {
			id := f.spec.pkg + ":" + f.spec.name
			switch f.spec.mode {
			case "verify":
				funcs = append(funcs, fmt.Sprintf("%s (%s, %d lines)", id, f.pos, f.loc))
			case "assume":
				assumed = append(assumed, fmt.Sprintf("%s: contract used here, proved in unit %s", id, f.spec.where))
			default:
				trusted = append(trusted, fmt.Sprintf("%s: contract trusted (%s)", id, f.spec.where))
			}
		}
		for _, t := range r.g.scanTrust() {
			if !seenT[t] {
				seenT[t] = true
				trusted = append(trusted, t)
			}
		}
		if r.sameAs == "" {
			slow = append(slow, r.out.fns...)
		}
	}
	sort.Slice(slow, func(i, j int) bool { return slow[i].Micros > slow[j].Micros })
	if len(slow) > 8 {
		slow = slow[:8]
	}
	var slowS []string
	for _, f := range slow {
		slowS = append(slowS, fmt.Sprintf("%s %.2fs", f.Function, float64(f.Micros)/1e6))
	}
	sort.Strings(funcs)
	funcs = uniq(funcs)
	assumed = uniq(assumed)
	trusted = uniq(trusted)

	// vacuity is an error of the machinery, not of the repository
	if len(vac) > 0 && len(fails) == 0 && len(other) == 0 {
		fmt.Printf("ERROR property=%s the specification is vacuous: %s\n", prop, strings.Join(vac, "; "))
		os.RemoveAll(work)
		return 2
	}
	known := loadKnown(root, prop)
	found := searchResult{}
	reported := map[string]bool{}
	use := func(s searchResult) {
		if s.Found {
			for _, k := range known {
				if k.key == s.Key {
					return
				}
			}
			found = s
		}
	}
	use(sm)
	nsearch := int64(0)
	if !found.Found && (len(fails) > 0 || len(other) > 0) && ps.Search != "" {
		left := 700*time.Second - time.Since(t0)
		d := 150 * time.Second
		if deep {
			d, left = 900*time.Second, 3600*time.Second
		}
		if d > left {
			d = left
		}
		if d > 5*time.Second {
			s := search(root, repo, work, ps.Search, seed+1000, d)
			nsearch = s.Runs
			use(s)
			if s.Error != "" && sm.Error == "" {
				sm.Error = s.Error
			}
		}
	}
	for _, k := range known {
		if !reported[k.key] {
			reported[k.key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	violations := 0
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	rp := filepath.Join(root, "evidence", "replay-"+prop+".json")
	os.Remove(rp)
	writeReplay := func(v interface{}) {
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
	}
	code := 0
	switch {
	case found.Found:
		violations = 1
		code = 1
		writeReplay(map[string]interface{}{"property": prop, "kind": "failing input replayed on the real code", "failed_obligations": fails, "other_failed_obligations": other, "replay": found,
			"how": "cd /verif && ./replay.sh " + rp})
		for _, f := range fails {
			fmt.Printf("failed obligation: %s [%s]\n", f.Oblig, f.Unit)
		}
		fmt.Printf("%s\n", found.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	case len(fails) > 0:
		violations = 1
		code = 1
		writeReplay(map[string]interface{}{"property": prop, "kind": "failed obligation, no failing input found", "failed_obligations": fails, "search_runs": nsearch, "search_error": sm.Error})
		for _, f := range fails {
			fmt.Printf("failed obligation: %s [%s]\n", f.Oblig, f.Unit)
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	case sm.Error != "":
		fmt.Printf("ERROR property=%s %s\n", prop, sm.Error)
		code = 2
	}
	level := "proof"
	tb := append([]string{
		"the extraction of /repo's Go source to Verus (tool/): memory as one map per struct type, int as 64-bit, no out-of-memory, no other goroutine writes while a call runs",
		"prelude/prelude.rs: contracts of the memory model, strings, slices, channels and the standard library stubs",
		"the Verus verifier and its Z3",
	}, trusted...)
	cov := map[string]interface{}{
		"obligations":                            obl,
		"discharged":                             dis,
		"checker_cmd":                            "verus (one file per unit generated by /verif/bin/dv from /repo on this run): " + strings.Join(ps.Units, " "),
		"trusted_base":                           tb,
		"functions_under_contract":               funcs,
		"contracts_used_from_other_units":        nn(assumed),
		"solver_time_ms":                         smt,
		"back_end":                               backend,
		"obligations_shared":                     same,
		"slowest_queries":                        slowS,
		"precondition_vacuity_probes":            vacN,
		"failed_obligations_of_other_properties": len(other),
		"bounded_run": map[string]interface{}{
			"note": "random histories on the real code against a naive oracle; not counted as proved", "histories": sm.Runs + nsearch, "operations": sm.Steps, "distinct_histories": sm.Distinct, "functions_covered_only_here": nn(ps.Bounded),
		},
	}
	if deep {
		cov["return_vacuity_probes"] = probes
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": nn(ps.Assumed), "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d histories=%d %.0fs\n", prop, obl, dis, len(funcs), sm.Runs, time.Since(t0).Seconds())
	}
	os.RemoveAll(work)
	return code
}

func nn(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func uniq(s []string) []string {
	sort.Strings(s)
	var r []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			r = append(r, x)
		}
	}
	return r
}

// scanTrust lists every unproved statement in the generated text outside the prelude.
func (g *generated) scanTrust() []string {
	var r []string
	for i, l := range g.lines {
		if l.desc == "prelude" || l.desc == "case split" {
			continue
		}
		t := l.text
		if k := strings.Index(t, "//"); k >= 0 {
			t = t[:k]
		}
		switch {
		case strings.Contains(t, "assume(") || strings.Contains(t, "admit(") || strings.Contains(t, "assume_specification") || regexp.MustCompile(`\baxiom\b`).MatchString(t):
			r = append(r, "unproved: "+strings.TrimSpace(l.text))
		case strings.Contains(t, "external_body"):
			if g.funcAt(i+1) != nil {
				continue
			}
			n := i
			for n < len(g.lines)-1 && !strings.Contains(g.lines[n].text, " fn ") && !strings.HasPrefix(g.lines[n].text, "fn ") && n < i+4 {
				n++
			}
			if m := reTheoryFn.FindStringSubmatch(g.lines[n].text); m != nil {
				if strings.HasPrefix(m[1], "str_lit_") {
					continue
				}
				r = append(r, "external: "+m[1])
			}
		}
	}
	return r
}
