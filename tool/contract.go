package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// Contract files (contracts/*.con) hold the specification of the real functions, keyed by
// package, function and loop ordinal. Syntax: lines starting with '%' are directives, the
// lines after a directive up to the next one are its text (Verus specification syntax).

type clause struct {
	text string
	tags []string // property ids the clause carries; empty = all
	file string
	line int
}

type loopSpec struct {
	inv     []clause
	dec     string
	body    string // ghost code at the top of every iteration
	tail    string // ghost code at the end of every iteration (and before continue)
	after   string // ghost code right after the loop (on break)
	pre     string // ghost code before the loop
	missing bool
	split   []string // exhaustive cases, each verified in its own copy of the function
}

type callHook struct {
	callee string
	ord    int // -1: all
	before string
	after  string
}

type funcSpec struct {
	pkg      string // package dir relative to the repository
	name     string
	heap     string // "mut", "ro" or "none"
	retName  string
	requires []clause
	ensures  []clause
	decr     string
	entry    string
	exit     string
	vars     []string
	loops    map[int]*loopSpec
	hooks    []callHook
	mode     string // "verify" (default), "assume" (proved in another unit), "trusted"
	where    string // for assume: the unit that proves it; for trusted: why
	attrs    []string
	tags     []string // properties the untagged obligations of the function belong to; empty = all
	ghostArg string
	isGlobal bool
	inline   bool
	panics   bool // a panic is an outcome the contract speaks about
	split    []string // exhaustive cases at entry
	writes   *writesSpec
	src      string // name in the source when it differs from the contract's
	gone     bool   // an unexported function that no longer exists: its callers are verified without it
	file     string
	line     int
}

// writesSpec: which objects that existed at entry a function may store to (by struct type,
// expressions over the parameters and H0). No such clause: anything.
type writesSpec struct {
	tags  []string
	items map[string][]string
	file  string
	line  int
}

type unitSpec struct {
	name    string
	params  []([2]string)
	pkgs    []string
	theory  []string
	rust    string // raw rust text appended after types
	funcs   []*funcSpec
	byName  map[string]*funcSpec // pkg + ":" + name
	rlimit  string
	deps    []string
	types   []string
	opaque  []string
	thNames []string
	conUse  []conUse // the contract files, as proved or used here // struct types whose fields no function of the unit may use
	tids    []string
	broken  map[string]string // functions the verifier rejects outright: only their contract is emitted
}

func (sp *funcSpec) srcName() string {
	if sp.src != "" {
		return sp.src
	}
	return sp.name
}

func substParams(s string, params [][2]string) string {
	for i := 0; i < 4; i++ {
		o := s
		for _, p := range params {
			s = strings.ReplaceAll(s, "@"+p[0]+"@", p[1])
		}
		if s == o {
			break
		}
	}
	return s
}

// parseContract reads a contract file into u, substituting u.params.
func (u *unitSpec) parseContract(path string, params [][2]string, defMode, defWhere string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	text := substParams(string(b), params)
	sc := bufio.NewScanner(strings.NewReader(text))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var cur *funcSpec
	var curLoop *loopSpec
	var curHook *callHook
	curPkg := ""
	var flush func(string)
	var buf strings.Builder
	line := 0
	base := filepath.Base(path)
	done := func() {
		if flush != nil {
			flush(strings.TrimRight(buf.String(), "\n"))
		}
		flush = nil
		buf.Reset()
	}
	clauses := func(dst *[]clause, tags []string) func(string) {
		start := line
		return func(s string) {
			// one clause per paragraph line ending with ',' at depth 0
			for _, c := range splitClauses(s, start+1) {
				c.tags = tags
				c.file = base
				*dst = append(*dst, c)
			}
		}
	}
	skip := 0
	for sc.Scan() {
		line++
		l := sc.Text()
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "%if ") || strings.HasPrefix(t, "%ifnot ") {
			// %if X Y : keep the section when X == Y
			f := strings.Fields(t)
			ok := len(f) == 3 && f[1] == f[2]
			if len(f) == 2 {
				ok = f[1] != "" && !strings.HasPrefix(f[1], "@")
			}
			if f[0] == "%ifnot" {
				ok = !ok
			}
			if skip > 0 || !ok {
				skip++
			} else {
				skip += 0
			}
			if skip == 0 {
				// keep: push a zero marker
				u.ifDepthPush()
			}
			continue
		}
		if t == "%endif" {
			if skip > 0 {
				skip--
			} else {
				u.ifDepthPop()
			}
			continue
		}
		if skip > 0 {
			continue
		}
		if strings.HasPrefix(t, "##") {
			continue
		}
		if !strings.HasPrefix(t, "%") {
			buf.WriteString(l + "\n")
			continue
		}
		done()
		f := strings.Fields(t)
		switch f[0] {
		case "%pkg":
			curPkg = f[1]
			found := false
			for _, p := range u.pkgs {
				if p == curPkg {
					found = true
				}
			}
			if !found {
				u.pkgs = append(u.pkgs, curPkg)
			}
		case "%rust":
			flush = func(s string) { u.rust += s + "\n" }
		case "%func", "%global":
			curLoop = nil
			cur = &funcSpec{pkg: curPkg, name: f[1], heap: "ro", retName: "ret", loops: map[int]*loopSpec{}, mode: defMode, where: defWhere, file: base, line: line}
			if cur.mode == "" {
				cur.mode = "verify"
			}
			if f[0] == "%global" {
				cur.isGlobal = true
				cur.heap = "none"
			}
			for _, x := range f[2:] {
				switch {
				case x == "mut" || x == "ro" || x == "none":
					cur.heap = x
				case x == "trusted":
					cur.mode = "trusted"
				case x == "panics":
					cur.panics = true
				case x == "inline":
					cur.inline = true
				case strings.HasPrefix(x, "ret="):
					cur.retName = x[4:]
				default:
					return fmt.Errorf("%s:%d: bad func option %q", path, line, x)
				}
			}
			curLoop, curHook = nil, nil
			u.funcs = append(u.funcs, cur)
			u.byName[cur.pkg+":"+cur.name] = cur
		case "%tags":
			cur.tags = strings.Fields(strings.TrimPrefix(t, "%tags"))
		case "%trust":
			cur.mode = "trusted"
			cur.where = strings.TrimSpace(strings.TrimPrefix(t, "%trust"))
		case "%vars":
			cur.vars = f[1:]
		case "%attr":
			cur.attrs = append(cur.attrs, strings.TrimSpace(strings.TrimPrefix(t, "%attr")))
		case "%ghostarg":
			cur.ghostArg = strings.TrimSpace(strings.TrimPrefix(t, "%ghostarg"))
		case "%requires":
			flush = clauses(&cur.requires, f[1:])
		case "%ensures":
			flush = clauses(&cur.ensures, f[1:])
		case "%writes":
			w := &writesSpec{tags: f[1:], items: map[string][]string{}, file: base, line: line}
			cur.writes = w
			flush = func(s string) {
				for _, l := range strings.Split(s, "\n") {
					if k := strings.Index(l, ": "); k > 0 {
						n := strings.TrimSpace(l[:k])
						for _, e := range strings.Split(l[k+2:], ";") {
							w.items[n] = append(w.items[n], strings.TrimSpace(e))
						}
					}
				}
			}
		case "%decreases":
			c := cur
			flush = func(s string) { c.decr = strings.TrimSpace(s) }
		case "%entry":
			c := cur
			flush = func(s string) { c.entry += s }
		case "%exit":
			c := cur
			flush = func(s string) { c.exit += s }
		case "%loop":
			n := 0
			fmt.Sscanf(f[1], "%d", &n)
			curLoop = &loopSpec{}
			cur.loops[n] = curLoop
		case "%inv":
			flush = clauses(&curLoop.inv, f[1:])
		case "%split":
			sp, c := cur, curLoop
			flush = func(s string) {
				var l []string
				for _, x := range strings.Split(s, "\n") {
					if strings.TrimSpace(x) != "" {
						l = append(l, strings.TrimSpace(x))
					}
				}
				if c != nil {
					c.split = l
				} else {
					sp.split = l
				}
			}
		case "%dec":
			c := curLoop
			flush = func(s string) { c.dec = strings.TrimSpace(s) }
		case "%body":
			c := curLoop
			flush = func(s string) { c.body = s }
		case "%tail":
			c := curLoop
			flush = func(s string) { c.tail = s }
		case "%pre":
			c := curLoop
			flush = func(s string) { c.pre = s }
		case "%afterloop":
			c := curLoop
			flush = func(s string) { c.after = s }
		case "%call":
			cur.hooks = append(cur.hooks, callHook{callee: f[1], ord: -1})
			curHook = &cur.hooks[len(cur.hooks)-1]
			if len(f) > 2 {
				fmt.Sscanf(f[2], "%d", &curHook.ord)
			}
		case "%before":
			h, i := cur, len(cur.hooks)-1
			flush = func(s string) { h.hooks[i].before = s }
		case "%after":
			h, i := cur, len(cur.hooks)-1
			flush = func(s string) { h.hooks[i].after = s }
		case "%end":
		default:
			return fmt.Errorf("%s:%d: unknown directive %q", path, line, f[0])
		}
		_ = curHook
	}
	done()
	return nil
}

func (u *unitSpec) ifDepthPush() {}
func (u *unitSpec) ifDepthPop()  {}

// splitClauses splits specification text into clauses at top-level commas at end of line.
func splitClauses(s string, start int) []clause {
	var out []clause
	depth := 0
	cur := ""
	curLine := start
	for i, l := range strings.Split(s, "\n") {
		code := l
		if k := strings.Index(code, "//"); k >= 0 {
			code = code[:k]
		}
		if strings.TrimSpace(code) == "" {
			continue
		}
		if strings.TrimSpace(cur) == "" {
			curLine = start + i
		}
		for _, r := range code {
			switch r {
			case '(', '{', '[':
				depth++
			case ')', '}', ']':
				depth--
			}
		}
		cur += strings.TrimRight(code, " \t") + "\n"
		if depth == 0 && strings.HasSuffix(strings.TrimSpace(code), ",") {
			c := strings.TrimSpace(cur)
			out = append(out, clause{text: strings.TrimSuffix(c, ","), line: curLine})
			cur = ""
		}
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, clause{text: strings.TrimSuffix(strings.TrimSpace(cur), ","), line: curLine})
	}
	return out
}

// parseUnit reads a unit description:
//
//	%unit NAME
//	%param NAME VALUE
//	%opaque PKG:TYPE...                  (declared without its fields: a function that uses one is rejected)
//	%theory FILE...
//	%contract FILE [KEY=VALUE...]        (functions verified in this unit)
//	%assume FILE UNIT [KEY=VALUE...]     (contracts proved by UNIT, used here at call sites)
//
// A unit is named FILE or FILE:V; in the second form @V@ stands for V in the unit file.
func parseUnit(root, name string) (*unitSpec, error) {
	u := &unitSpec{byName: map[string]*funcSpec{}}
	var extra [][2]string
	file := name
	if k := strings.Index(name, ":"); k >= 0 {
		file = name[:k]
		extra = append(extra, [2]string{"V", name[k+1:]})
	}
	path := filepath.Join(root, "units", file+".unit")
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if err := u.parseUnitText(root, path, string(b), extra); err != nil {
		return nil, err
	}
	u.name = name
	return u, nil
}

func (u *unitSpec) parseUnitText(root, path, text string, extra [][2]string) error {
	params := append([][2]string{}, extra...)
	for i, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		t = substParams(t, params)
		f := strings.Fields(t)
		switch f[0] {
		case "%unit":
			u.name = f[1]
		case "%param":
			params = append(params, [2]string{f[1], strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(strings.TrimPrefix(t, "%param")), f[1]))})
		case "%rlimit":
			u.rlimit = f[1]
		case "%type":
			u.types = append(u.types, f[1:]...)
			for _, ty := range f[1:] {
				pk := strings.SplitN(ty, ":", 2)[0]
				if !hasStr(u.pkgs, pk) {
					u.pkgs = append(u.pkgs, pk)
				}
			}
		case "%opaque":
			u.opaque = append(u.opaque, f[1:]...)
		case "%tid":
			u.tids = append(u.tids, f[1:]...)
		case "%theory":
			ps := params
			for _, kv := range f[2:] {
				k := strings.SplitN(kv, "=", 2)
				ps = append([][2]string{{k[0], k[1]}}, ps...)
			}
			tb, err := os.ReadFile(filepath.Join(root, "theory", f[1]))
			if err != nil {
				return err
			}
			u.theory = append(u.theory, "// ---- theory "+f[1]+"\n"+substParams(string(tb), ps))
			inst := f[1]
			for _, kv := range f[2:] {
				if strings.HasPrefix(kv, "X=") {
					inst += " " + kv // the suffix of every name an instance of this file defines
				}
			}
			u.thNames = append(u.thNames, inst)
		case "%contract", "%assume":
			rest := f[2:]
			mode, where := "verify", ""
			if f[0] == "%assume" {
				mode, where = "assume", f[2]
				u.deps = append(u.deps, f[2])
				rest = f[3:]
			}
			ps := params
			cu := conUse{file: f[1], where: where, args: map[string]string{}}
			for _, kv := range rest {
				k := strings.SplitN(kv, "=", 2)
				ps = append([][2]string{{k[0], k[1]}}, ps...)
				cu.args[k[0]] = k[1]
			}
			u.conUse = append(u.conUse, cu)
			if err := u.parseContract(filepath.Join(root, "contracts", f[1]), ps, mode, where); err != nil {
				return err
			}
		default:
			return fmt.Errorf("%s:%d: unknown directive %q", path, i+1, f[0])
		}
	}
	u.params = params
	return nil
}

type conUse struct {
	file, where string
	args        map[string]string
}

// Parameters that only name tags, or say that structures of importing packages stay as they are.
func looseParam(k string) bool {
	return strings.HasPrefix(k, "P_") || k == "P" || k == "XFRAME" || k == "FRAME" || k == "IFRAME"
}

// consistent checks that every contract used at call sites in one of the units is proved, with the
// same parameters and under the same definitions, by another one of them.
func consistent(root string, names []string) []string {
	var bad []string
	us := map[string]*unitSpec{}
	for _, n := range names {
		u, err := parseUnit(root, n)
		if err != nil {
			return []string{err.Error()}
		}
		us[n] = u
	}
	for _, n := range names {
		for _, c := range us[n].conUse {
			if c.where == "" {
				continue
			}
			o := us[c.where]
			if o == nil {
				bad = append(bad, fmt.Sprintf("%s uses contracts of unit %s, which is not verified on this run", n, c.where))
				continue
			}
			ok := false
			for _, d := range o.conUse {
				if d.where != "" || d.file != c.file {
					continue
				}
				same := true
				for k, v := range c.args {
					same = same && (looseParam(k) || d.args[k] == v)
				}
				for k, v := range d.args {
					same = same && (looseParam(k) || c.args[k] == v)
				}
				ok = ok || same
			}
			if !ok {
				bad = append(bad, fmt.Sprintf("%s uses %s of unit %s with other parameters", n, c.file, c.where))
			}
			for i, t := range us[n].thNames {
				for j, s := range o.thNames {
					if s == t && us[n].theory[i] != o.theory[j] {
						bad = append(bad, fmt.Sprintf("%s and %s use different definitions from %s", n, c.where, t))
					}
				}
			}
		}
	}
	return bad
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var reGhostVar = regexp.MustCompile(`let ghost (?:mut )?\(?([\w, ]+)`)

// ghostNames lists the ghost variables the contract declares.
func (sp *funcSpec) ghostNames() []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		for _, m := range reGhostVar.FindAllStringSubmatch(s, -1) {
			for _, n := range strings.Split(m[1], ",") {
				if n = strings.TrimSpace(n); n != "" && !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	add(sp.entry)
	add(sp.exit)
	for _, l := range sp.loops {
		add(l.pre)
		add(l.body)
		add(l.tail)
		add(l.after)
	}
	for _, h := range sp.hooks {
		add(h.before)
		add(h.after)
	}
	return out
}
