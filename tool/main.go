package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dv gen|verify|vars|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "gen":
		fs := flag.NewFlagSet("gen", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		root := fs.String("root", "/verif", "")
		out := fs.String("o", "", "")
		fs.Parse(os.Args[2:])
		u, err := parseUnit(*root, fs.Arg(0))
		die(err)
		g, err := generate(newLoader(*repo), u, *root, loadVars(*root))
		die(err)
		for _, f := range g.funcs {
			if f.err != "" {
				fmt.Fprintf(os.Stderr, "NOT TRANSLATED %s:%s: %s\n", f.spec.pkg, f.spec.name, f.err)
			}
		}
		if *out != "" {
			die(os.WriteFile(*out, []byte(g.text()), 0o644))
		} else {
			fmt.Print(g.text())
		}
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		root := fs.String("root", "/verif", "")
		fs.Parse(os.Args[2:])
		os.Exit(check(*root, *repo, fs.Arg(0)))
	case "unit":
		fs := flag.NewFlagSet("unit", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		root := fs.String("root", "/verif", "")
		deep := fs.Bool("deep", false, "")
		fs.Parse(os.Args[2:])
		work, err := os.MkdirTemp("", "dv-")
		die(err)
		bad := false
		for _, n := range fs.Args() {
			r := runUnit(newLoader(*repo), *root, n, work, 3000*time.Second, *deep, loadVars(*root), nil)
			if r.err != "" {
				fmt.Println(n, "error:", r.err)
				bad = true
				continue
			}
			for _, f := range r.fails {
				fmt.Printf("%s: FAIL %v %s\n%s\n", n, f.Tags, f.Oblig, f.Output)
				bad = true
			}
			for _, v := range append(r.vacuous, r.dead...) {
				fmt.Printf("%s: VACUOUS %s\n", n, v)
				bad = true
			}
			fmt.Printf("%s: verified=%d errors=%d vac=%d probes=%d smt=%dms wall=%.1fs\n", n, r.out.verified, r.out.errors, r.vacN, r.probes, r.out.smtMs, r.out.wall)
		}
		os.RemoveAll(work)
		if bad {
			os.Exit(1)
		}
	case "consistent":
		for _, p := range loadProps("/verif") {
			for _, b := range consistent("/verif", p.Units) {
				fmt.Println(p.ID, b)
			}
		}
	case "vars":
		fs := flag.NewFlagSet("vars", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		root := fs.String("root", "/verif", "")
		fs.Parse(os.Args[2:])
		m := map[string][]string{}
		seen := map[string]bool{}
		for _, p := range loadProps(*root) {
			for _, un := range p.Units {
				if seen[un] {
					continue
				}
				seen[un] = true
				u, err := parseUnit(*root, un)
				die(err)
				l := newLoader(*repo)
				for _, sp := range u.funcs {
					pk, err := l.load(sp.pkg)
					die(err)
					fd := pk.funcs[sp.name]
					if fd == nil || sp.isGlobal {
						continue
					}
					t := &tr{l: l, u: u}
					var ns []string
					for _, id := range t.localDefs(fd) {
						ns = append(ns, id.Name+" "+shortType(pk.info.Defs[id]))
					}
					var as []string
					for _, o := range t.reassigned(fd) {
						as = append(as, o.Name()+" "+shortType(o))
					}
					m["="+sp.pkg+":"+sp.name] = as
					m[sp.pkg+":"+sp.name] = ns
					m["#"+sp.pkg+":"+sp.name] = []string{sigString(pk.info.Defs[fd.Name].(*types.Func))}
					if m["#"+sp.pkg] == nil {
						for n := range pk.funcs {
							m["#"+sp.pkg] = append(m["#"+sp.pkg], n)
						}
						sort.Strings(m["#"+sp.pkg])
					}
				}
			}
		}
		b, _ := json.MarshalIndent(m, "", " ")
		die(os.WriteFile(filepath.Join(*root, "contracts", "vars.json"), append(b, '\n'), 0o644))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
}

func loadVars(root string) map[string][]string {
	m := map[string][]string{}
	b, err := os.ReadFile(filepath.Join(root, "contracts", "vars.json"))
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}
