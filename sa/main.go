package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	ID          string
	Explanation string
	Assume      []string
	Variants    []string // default: "", "debug"
	Run         func(c *Ctx)
	Thorough    func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}

	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dumpMain(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "eff" {
		effMain(os.Args[2:])
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "first" { // development: default build only, stops at the first check that reports
		progs := map[string]*Program{}
		for _, k := range strings.Split(os.Args[2], ",") {
			ck := *checks[k]
			if ck.Variants == nil {
				ck.Variants = []string{""}
			}
			if runCheck(&ck, progs) != 0 {
				os.Exit(1)
			}
		}
		return
	}
	if len(os.Args) != 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: sa check <id> | sa dump <func>...")
		os.Exit(1)
	}
	id := os.Args[2]
	if id == "all" {
		bad := 0
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		progs := map[string]*Program{}
		for _, k := range ids {
			bad += runCheck(checks[k], progs)
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	rc := runCheck(ck, map[string]*Program{})
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(ck *Check, progs map[string]*Program) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	variants := ck.Variants
	if variants == nil {
		variants = []string{"", "debug"}
	}
	merged := map[string]*Viol{}
	var order []string
	cov := map[string]interface{}{}
	obls, done, sites := map[string]int{}, map[string]int{}, 0
	seen := map[string]bool{}
	var samples, notes []string
	for _, v := range variants {
		var viols []*Viol
		p := progs[v]
		if p == nil {
			var err error
			p, err = Load(v)
			if err != nil {
				viols = []*Viol{{Rule: "load", Construct: "package cp (tags: " + v + ")", Pos: "-", Msg: err.Error()}}
			} else {
				progs[v] = p
			}
		}
		if p != nil {
			resetTerms()
			c := newCtx(p, ck.ID)
			c.part(ck.ID, func() { ck.Run(c) })
			if tier == "thorough" && ck.Thorough != nil {
				c.part(ck.ID, func() { ck.Thorough(c) })
			}
			viols = c.viols
			for k, n := range c.obls {
				obls[k] += n
			}
			for k, n := range c.done {
				done[k] += n
			}
			for k := range c.seen {
				seen[k] = true
			}
			sites += c.sites
			if samples == nil {
				samples = c.samples
			}
			notes = append(notes, c.notes...)
		}
		for _, x := range viols {
			k := x.Rule + "|" + x.Construct
			vn := v
			if vn == "" {
				vn = "default"
			}
			if m := merged[k]; m != nil {
				if m.Variants[len(m.Variants)-1] != vn {
					m.Variants = append(m.Variants, vn)
				}
				continue
			}
			x.Variants = []string{vn}
			merged[k] = x
			order = append(order, k)
		}
	}
	total, disch := 0, 0
	for k, n := range obls {
		total += n
		disch += done[k]
	}
	// known findings
	known := loadKnown(ck.ID)
	nviol := 0
	var rep strings.Builder
	for _, k := range order {
		x := merged[k]
		if d, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, d)
			continue
		}
		nviol++
		fmt.Fprintf(&rep, "%s: [%s] %s: %s (build: %s)\n", x.Pos, x.Rule, x.Construct, x.Msg, strings.Join(x.Variants, ","))
	}
	ruleCounts := map[string]string{}
	for k, n := range obls {
		ruleCounts[k] = fmt.Sprintf("%d of %d discharged", done[k], n)
	}
	fnl := sortedSet(seen)
	if len(samples) > 40 {
		step := len(samples) / 40
		var s2 []string
		for i := 0; i < len(samples); i += step + 1 {
			s2 = append(s2, samples[i])
		}
		samples = s2
	}
	cov["explanation"] = ck.Explanation
	cov["obligations"] = total
	cov["discharged"] = disch
	cov["rules"] = ruleCounts
	cov["functions_analysed"] = len(fnl)
	cov["functions"] = fnl
	cov["sites_inspected"] = sites
	cov["build_variants"] = variants
	cov["samples"] = samples
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": ck.Assume, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, ck.ID+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if nviol > 0 {
		path := filepath.Join(dir, ck.ID+".violations.txt")
		os.WriteFile(path, []byte(rep.String()), 0o644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		return 1
	}
	os.Remove(filepath.Join(dir, ck.ID+".violations.txt"))
	fmt.Printf("OK property=%s obligations=%d functions=%d wall=%.1fs\n", ck.ID, total, len(fnl), time.Since(t0).Seconds())
	return 0
}

// known findings: lines "known: property=<id> key=<rule|construct> :: <what fails>"
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		if k, d, ok := strings.Cut(rest, " :: "); ok {
			out[k] = d
		}
	}
	return out
}
