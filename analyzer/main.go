package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func dumpPaths(ps []*Path) {
	for i, p := range ps {
		fmt.Printf("--- path %d: %s at %s\n", i, p.Outcome, p.Pos)
		fi, ei := 0, 0
		for fi < len(p.Facts) || ei < len(p.Events) {
			if ei >= len(p.Events) || fi < len(p.Facts) && p.Facts[fi].Seq < p.Events[ei].Seq {
				f := p.Facts[fi]
				fmt.Printf("  ? %v = %v   [%s]\n", f.Atom, f.Val, f.Pos)
				fi++
				continue
			}
			e := p.Events[ei]
			var a []string
			for _, x := range e.Deep {
				a = append(a, x.String())
			}
			r := ""
			if e.DRecv != nil {
				r = e.DRecv.String() + " . "
			}
			fmt.Printf("  ! %s %s%s(%s)   [%s in %s]\n", e.Kind, r, e.Fn, strings.Join(a, ", "), e.Pos, e.Stack[len(e.Stack)-1])
			ei++
		}
		for _, r := range p.RetDeep {
			fmt.Printf("  => %v\n", r)
		}
	}
}

func main() {
	t0 := time.Now()
	repo := os.Getenv("AN_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := os.Getenv("AN_DIR")
	if dir == "" {
		dir = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: analyzer check ID [tier] | all | dump FUNC | ids")
		os.Exit(2)
	}
	sort.Slice(rules, func(i, j int) bool { return rules[i].id < rules[j].id })
	if os.Args[1] == "ids" {
		for _, r := range rules {
			fmt.Println(r.id)
		}
		return
	}
	p, err := load(repo)
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		} else {
			loopK = 3
		}
		os.Exit(check(p, err, dir, os.Args[2], tier, t0))
	case "all":
		bad := 0
		for _, r := range rules {
			t := time.Now()
			if check(p, err, dir, r.id, "quick", t) != 0 {
				bad++
			}
			if d := time.Since(t); d > 5*time.Second {
				fmt.Printf("  (%s took %v)\n", r.id, d)
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "dump":
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		cfg := Cfg{}
		if os.Getenv("AN_CRYPTO") != "" {
			cfg.Pure = cryptoPure
		}
		if os.Getenv("AN_PURESCHEMA") != "" {
			cfg.Pure = pureSchema
		}
		for _, a := range os.Args[3:] {
			switch {
			case a == "generic":
				cfg.Generic = true
				cfg.LoopK = 1
			case strings.HasPrefix(a, "opaque="):
				l := strings.Split(a[7:], ",")
				cfg.Opaque = func(n string) bool {
					for _, x := range l {
						if strings.Contains(n, x) {
							return true
						}
					}
					return false
				}
			}
		}
		for _, f := range p.Funcs {
			if fname(f) == os.Args[2] && f.Parent() == nil && f.Synthetic == "" {
				e := p.engine(cfg)
				ps := e.RunFn(f)
				dumpPaths(ps)
				fmt.Printf("%d paths, pruned %d, over %v\n", len(ps), e.Pruned, e.Over)
				if want := os.Getenv("AN_CLOSURE"); want != "" {
					c := &Ctx{P: p, obls: map[string]int{}, seen: map[string]bool{}, fns: map[string]bool{}, cons: map[string]bool{}}
					for _, pt := range ps {
						for _, ev := range pt.Events {
							for _, a := range ev.Args {
								if t := unconv(a); t.Op == "closure" && strings.Contains(t.S, want) {
									fmt.Println("=== closure", t.S)
									_, _, q := c.runFunc(pt.st, t, cfg)
									dumpPaths(q)
									fmt.Println(len(q), "paths")
									return
								}
							}
						}
					}
				}
				return
			}
		}
		for _, f := range p.Funcs {
			if strings.Contains(fname(f), os.Args[2]) {
				fmt.Println(fname(f))
			}
		}
	case "sys":
		c := &Ctx{P: p, obls: map[string]int{}, seen: map[string]bool{}, fns: map[string]bool{}, cons: map[string]bool{}}
		for _, m := range c.system().Mods {
			fmt.Println("module", m.Name, m.Type)
			for _, h := range m.H {
				fmt.Printf("   %s %s -> %s\n", h.Kind, tname(h.Trans), tname(h.Typ))
			}
			for _, o := range m.Objs {
				fmt.Printf("   object %s %v\n", tname(o.Typ), o.Sch)
			}
			for _, o := range m.Needs {
				fmt.Printf("   needs %s\n", tname(o))
			}
			for _, o := range m.Svcs {
				fmt.Printf("   service %v\n", o)
			}
			fmt.Printf("   auth %v genesis %v\n", m.Auth, m.Gen)
		}
		for _, v := range c.fails {
			fmt.Println(v)
		}
	}
}
