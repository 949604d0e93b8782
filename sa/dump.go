package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func dumpMain(args []string) {
	p, err := Load(os.Getenv("VARIANT"))
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	for _, n := range args {
		if n == "all" {
			for _, fn := range p.Exported() {
				t0 := time.Now()
				s, err := Summarize(p, fn, Config{})
				if err != nil {
					fmt.Println("ERR", fname(fn), err)
				} else {
					fmt.Println("ok", fname(fn), len(s.Events), s.Ev.steps, time.Since(t0).Milliseconds())
				}
			}
			continue
		}
		fn := p.Func(n)
		if fn == nil {
			fmt.Println("no func", n)
			continue
		}
		t0 := time.Now()
		cfg := Config{}
		if tr := os.Getenv("TRACK"); tr != "" {
			cfg = trackCfg(p, strings.Split(tr, ",")...)
		}
		cfg.NoEnter = os.Getenv("ENTER") == ""
		if os.Getenv("KEEPUSER") != "" {
			cfg.KeepOnUser = func(string) bool { return true }
		}
		if op := os.Getenv("OPAQUE"); op != "" {
			old := cfg.Opaque
			cfg.Opaque = func(fn *ssa.Function) bool {
				return strings.Contains(","+op+",", ","+fname(fn)+",") || old != nil && old(fn)
			}
		}
		s, err := Summarize(p, fn, cfg)
		if err != nil {
			fmt.Println("ERR", err)
			continue
		}
		dumpSummary(p, s)
		fmt.Println("  time", time.Since(t0).Milliseconds(), "ms work", workDone)
	}
}

func sh(t *Term) string { return shortN(t.String(), 160) }
func shB(t *BDD) string { return shortN(bddString(t), 160) }
func shortN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func dumpEvents(p *Program, evs []*Event, ind string) {
	for _, e := range evs {
		fmt.Printf("%s%s %s @%s in %s", ind, e.Kind, e.Name, posOf(p, e), fname(e.In))
		if e.Guard != bddTrue {
			fmt.Printf(" IF %s", shB(e.Guard))
		}
		if e.Loc != nil {
			fmt.Printf("   %s := %s", sh(e.Loc), sh(e.Val))
		}
		if e.Recv != nil {
			fmt.Printf("  recv %s", sh(e.Recv))
		}
		for i, a := range e.Args {
			fmt.Printf("  arg%d %s", i, sh(a))
		}
		fmt.Println()
		if e.Loop != nil {
			l := e.Loop
			for _, ph := range l.Phis {
				fmt.Printf("%s   phi %s init=%s back=%s step=%v inv=%v\n", ind, sh(ph.Var), sh(ph.Init), sh(ph.Back), ph.Step, ph.Invariant)
			}
			fmt.Printf("%s   havoc %s\n", ind, shortN(fmt.Sprint(l.Havoc), 200))
			for _, hl := range l.HavocL {
				fmt.Printf("%s   havocL %s\n", ind, sh(hl))
			}
			dumpEvents(p, l.Events, ind+"    ")
			for _, x := range l.Exits {
				fmt.Printf("%s   exit if %s\n", ind, shB(x.Guard))
			}
			fmt.Printf("%s   back if %s\n", ind, shB(l.BackG))
		}
		if e.Sub != nil {
			fmt.Printf("%s   sub %v ret %v\n", ind, e.Sub.Params, e.Sub.Ret)
			dumpEvents(p, e.Sub.Events, ind+"    ")
		}
	}
}

func posOf(p *Program, e *Event) string {
	if e.Instr == nil {
		return "-"
	}
	return p.Pos(e.Instr.Pos())
}

func dumpSummary(p *Program, s *Summary) {
	fmt.Println("==", fname(s.Fn), "steps", s.Ev.steps)
	dumpEvents(p, s.Events, "  ")
	if s.Assume != bddTrue {
		fmt.Println("  assume", shB(s.Assume))
	}
	if s.Ret != nil {
		fmt.Println("  ret", s.Ret)
	}
	if s.Mem != nil && os.Getenv("CELLS") != "" {
		var ls []*Term
		for l := range s.Mem.cells {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
		for _, l := range ls {
			fmt.Printf("  cell %s = %s\n", sh(l), sh(s.Mem.cells[l]))
		}
	}
}

func effMain(args []string) {
	p, err := Load("")
	if err != nil {
		fmt.Println(err)
		return
	}
	fn := p.Func(args[0])
	e := p.eff.of(fn)
	fmt.Println("TDyn", e.TDyn, "TExt", sortedSet(e.TExt))
	fmt.Println("TW", sortedSet(e.TW))
	if len(args) > 1 {
		for g := range e.TCalls {
			if p.eff.of(g) != nil && p.eff.of(g).W[args[1]] {
				fmt.Println("writer", fname(g))
				// path
				prev := map[string]string{fname(fn): ""}
				q := []string{fname(fn)}
				byName := map[string]*FnEff{fname(fn): e}
				for len(q) > 0 {
					x := q[0]
					q = q[1:]
					for c := range byName[x].Callees {
						n := fname(c)
						if _, ok := prev[n]; !ok && p.eff.of(c) != nil {
							prev[n] = x
							byName[n] = p.eff.of(c)
							q = append(q, n)
						}
					}
				}
				for n := fname(g); n != ""; n = prev[n] {
					fmt.Print(n, " <- ")
				}
				fmt.Println()
			}
		}
	}
}
