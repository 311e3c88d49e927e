package main

// The check command: roots, retries without proof aids, evidence, replay, verdict.

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct {
	prop, fn, kind, text, what string
}

func checkCmd(args []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	dir := fl.String("repo", "/repo/src", "module directory")
	vdir := fl.String("verif", "/verif", "directory with contracts/, replay/, evidence/, known-findings.txt")
	only := fl.String("fn", "", "only this function (development)")
	verbose := fl.Bool("v", false, "verbose")
	dev := fl.Bool("dev", false, "development: no evidence, no replay")
	tier := fl.String("tier", "quick", "quick or thorough")
	fl.Parse(args)
	if *only != "" {
		*dev = true
	}
	t0 := time.Now()
	w, err := loadWorld(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	dropped := map[string]bool{}
	var c *Checker
	var first []*Obligation
	for attempt := 0; attempt < 3; attempt++ {
		c = runOnce(w, *vdir, *prop, *only, *tier, *verbose, dropped)
		fs := c.failures()
		if attempt == 0 {
			first = fs
		}
		if len(fs) == 0 {
			break
		}
		// contracts that are only proof aids may be given up
		more := false
		for _, o := range fs {
			if con := c.specs.contracts[o.fn]; con != nil && !dropped[o.fn] && c.isAid(o.fn) {
				dropped[o.fn] = true
				more = true
			}
		}
		if !more || *only != "" {
			break
		}
		c.logf("retrying without the contracts of %s\n", strings.Join(sortedKeys(dropped), ", "))
	}
	feasSess.stop()
	c.logf("load+check %.1fs solver %.1fs runs %d feas %d\n", time.Since(t0).Seconds(), float64(solverTime)/1e9, solverRuns, feasRuns)
	fails := c.failures()
	if len(fails) > 0 && len(first) > 0 && len(dropped) > 0 {
		// the first run names the most specific obligations
		fails = first
	}
	c.dropped = sortedKeys(dropped)
	c.finish(*vdir, *dir, *tier, *dev, fails, t0)
}

// isAid: the contract is not itself a statement of the property.
func (c *Checker) isAid(n string) bool {
	con := c.specs.contracts[n]
	if con == nil || con.trusted {
		return false
	}
	if con.opts["aux"] != "" {
		return true
	}
	for _, r := range c.roots {
		if r == n {
			return false
		}
	}
	return true
}

func runOnce(w *World, vdir, prop, only, tier string, verbose bool, dropped map[string]bool) (c *Checker) {
	specs := newSpecs()
	if err := specs.load(filepath.Join(vdir, "contracts")); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c = newChecker(w, specs, prop)
	c.verbose = verbose
	c.alone = only != ""
	c.thorough = tier == "thorough"
	if c.thorough {
		solverDeadline = solverDeadline.Add(50 * time.Minute)
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				c.specFail = &Obligation{fn: "specifications", kind: "unsupported", desc: fmt.Sprint(e), goal: False, status: "unknown"}
				return
			}
			panic(r)
		}
	}()
	ex0 := c.newExec("specs", nil, nil, 999)
	ex0.prefix = "spec."
	ex0.defineSpecFns()
	ex0.declareLemmas()
	for n := range dropped {
		if con := specs.contracts[n]; con != nil {
			con.dropped = true
		}
	}
	for _, n := range specs.order {
		con := specs.contracts[n]
		root := false
		for _, p := range con.props {
			if p == prop {
				root = true
			}
		}
		if only != "" {
			root = n == only
		}
		if !root {
			continue
		}
		if w.fns[n] == nil && con.opts["aux"] != "" {
			c.absent = append(c.absent, n)
			continue
		}
		c.roots = append(c.roots, n)
		if con.dropped {
			continue
		}
		if !c.add(n) {
			c.missing = append(c.missing, n)
		}
	}
	c.checkAll()
	c.proveLemmas()
	return c
}

func shortTerm(t *Term, budget *int) string {
	if *budget <= 0 {
		return "…"
	}
	*budget--
	if len(t.args) == 0 || t.op == "forall" || t.op == "exists" {
		if t.op == "forall" || t.op == "exists" {
			return "(" + t.op + " …)"
		}
		s := t.String()
		*budget -= len(s) / 10
		return s
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" " + shortTerm(a, budget))
	}
	return sb.String() + ")"
}

func short(t *Term) string {
	b := 40
	return trunc(shortTerm(t, &b), 300)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func loadFindings(file, prop string) (out []finding) {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, what, ok := strings.Cut(l[7:], " :: ")
		if !ok {
			continue
		}
		fd := finding{what: what}
		// property=.. fn=.. kind=.. text=.. (text last, may contain blanks)
		if i := strings.Index(head, " text="); i >= 0 {
			fd.text = head[i+6:]
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				fd.prop = v
			case "fn":
				fd.fn = v
			case "kind":
				fd.kind = v
			}
		}
		if fd.prop == prop && fd.fn != "" && fd.kind != "" {
			out = append(out, fd)
		}
	}
	return out
}

func (c *Checker) finish(vdir, repo, tier string, dev bool, fails []*Obligation, t0 time.Time) {
	// count what was discharged
	tot, ok := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	nloops, ninv := 0, 0
	var fnLines []string
	ext := map[string]bool{}
	ass := map[string]bool{}
	inl := map[string]bool{}
	trusted := map[string]bool{}
	for _, n := range c.order {
		r := c.funcs[n]
		t, k := 0, 0
		for _, o := range r.ex.obls {
			if o.cand != nil && o.cand.dead || o.meas != nil && o.meas.dead {
				continue
			}
			if o.lw != nil && o.status != "unsat" {
				continue // answered by forgetting the whole field in the loop
			}
			t++
			if o.status == "unsat" {
				k++
				by[o.by]++
			}
			kinds[o.kind]++
		}
		if r.fatal != nil {
			t++
		}
		for _, rec := range r.ex.recs {
			nloops++
			for _, cd := range rec.cands {
				if !cd.dead {
					ninv++
				}
			}
		}
		tot += t
		ok += k
		fnLines = append(fnLines, fmt.Sprintf("%s %d/%d", n, k, t))
		for x := range r.ex.externs {
			ext[x] = true
		}
		for x := range r.ex.assumptions {
			ass[x] = true
		}
		for x := range r.ex.inlined {
			inl[x] = true
		}
		for x := range r.ex.callees {
			if con := c.specs.contracts[x]; con != nil && con.trusted {
				trusted[x] = true
			}
		}
		fmt.Printf("%-55s %d/%d paths %d\n", n, k, t, r.ex.paths)
	}
	for _, o := range c.lemmas {
		tot++
		kinds["lemma"]++
		if o.status == "unsat" {
			ok++
			by[o.by]++
		}
	}
	if c.specFail != nil {
		tot++
	}
	for _, n := range c.missing {
		_ = n
		tot++
	}
	// findings
	known := loadFindings(filepath.Join(vdir, "known-findings.txt"), c.prop)
	seen := map[string]bool{}
	var viol []*Obligation
	for _, o := range fails {
		hit := false
		for _, k := range known {
			if k.fn == o.fn && k.kind == o.kind && strings.Contains(o.desc, k.text) {
				hit = true
				if !seen[k.what] {
					seen[k.what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.what)
				}
			}
		}
		if !hit {
			viol = append(viol, o)
		}
	}
	names := []string{}
	nseen := map[string]bool{}
	for _, o := range viol {
		l := fmt.Sprintf("%s: %s [%s] %s at %s", o.fn, o.kind, o.status, trunc(o.desc, 220), o.pos)
		if nseen[l] {
			continue
		}
		nseen[l] = true
		names = append(names, l)
		if len(names) <= 12 {
			fmt.Println("FAIL " + l)
			if dev {
				fmt.Println("     goal " + short(o.goal))
			}
		}
	}
	if len(names) > 12 {
		fmt.Printf("... and %d more\n", len(names)-12)
	}
	fmt.Printf("property %s: %d functions under contract, %d obligations, %d discharged, %.1fs\n", c.prop, len(c.order), tot, ok, time.Since(t0).Seconds())
	if dev {
		if len(viol) > 0 {
			os.Exit(1)
		}
		return
	}
	input := ""
	replay := ""
	if len(viol) > 0 {
		var log string
		input, log = runReplay(vdir, repo, c.prop, tier)
		replay = filepath.Join(vdir, "evidence", "replay-"+c.prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", c.prop)
		if input != "" {
			fmt.Fprintf(&sb, "failing input found by running the real code:\n%s\n\nrerun: cd %s && /verif/replay.sh %s\n\n", input, vdir, c.prop)
		} else {
			fmt.Fprintf(&sb, "no failing input found; the proof of these obligations failed.\n\n")
		}
		fmt.Fprintf(&sb, "failed obligations (of %d):\n", tot)
		for i, o := range viol {
			if i >= 40 {
				fmt.Fprintf(&sb, "... %d more\n", len(viol)-i)
				break
			}
			fmt.Fprintf(&sb, "- %s: %s [%s] %s at %s\n  goal: %s\n  solver: %s\n", o.fn, o.kind, o.status, o.desc, o.pos, short(o.goal), strings.ReplaceAll(o.output, "\n", " | "))
		}
		fmt.Fprintf(&sb, "\nreplay log:\n%s\n", log)
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fnsWithout := []string{}
	for n := range inl {
		if c.funcs[n] == nil {
			fnsWithout = append(fnsWithout, n)
		}
	}
	sort.Strings(fnsWithout)
	tb := []string{
		"gvc, the verification-condition generator in /verif/gvc (contracts in /verif/contracts/*.gvc, SSA form of /repo/src built by golang.org/x/tools/go/ssa v0.52.0 on every run)",
		"back ends: z3-new (z3 5.x), z3 4.8.12, cvc5 1.1.2; an obligation counts as discharged when one of them answers unsat or the simplifier reduces it to true",
	}
	for _, x := range sortedKeys(ext) {
		tb = append(tb, "model of external function "+x)
	}
	for _, x := range sortedKeys(trusted) {
		tb = append(tb, "assumed (trusted) contract of "+x)
	}
	for _, l := range c.specs.lemmas {
		if l.axiom {
			if _, u := usedAxioms.Load("lemma_" + l.name); u {
				tb = append(tb, "axiom "+l.name)
			}
		}
	}
	assum := append([]string{}, []string{
		"slices, strings and files are shorter than 2^48 elements; allocation never fails",
		"arguments passed only to fmt formatting have no side effects when formatted",
	}...)
	for _, a := range c.specs.assume {
		if strings.HasPrefix(a, "{") {
			tags, txt, _ := strings.Cut(a[1:], "}")
			if !strings.Contains(" "+tags+" ", " "+c.prop+" ") {
				continue
			}
			a = strings.TrimSpace(txt)
		}
		assum = append(assum, a)
	}
	for _, x := range sortedKeys(ass) {
		assum = append(assum, x)
	}
	for _, g := range c.specs.ginv {
		if g.hasTag(c.prop) {
			assum = append(assum, "global invariant (proved at package initialisation and preserved by every function under contract; functions outside the contracts are assumed to preserve it): "+g.text)
		}
	}
	cov := map[string]interface{}{
		"obligations":              tot,
		"discharged":               ok,
		"checker_cmd":              "bash /verif/check.sh " + c.prop + " " + tier,
		"trusted_base":             tb,
		"functions_under_contract": fnLines,
		"inlined_functions":        fnsWithout,
		"discharged_by":            by,
		"obligation_kinds":         kinds,
		"loops":                    nloops,
		"loop_invariants_kept":     ninv,
		"lemma_obligations":        len(c.lemmas),
		"solver_time_s":            float64(solverTime) / 1e9,
		"solver_runs":              solverRuns,
		"failed_obligations":       names,
		"contracts_given_up":       c.dropped,
		"bounded_stand_ins":        []string{},
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": assum, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(vdir, "evidence", c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(viol) > 0 {
		if input != "" {
			fmt.Println("failing input: " + trunc(strings.ReplaceAll(input, "\n", " "), 400))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, replay)
		}
		os.Exit(1)
	}
	if len(c.order) == 0 {
		fmt.Println("no function under contract")
		os.Exit(2)
	}
}

// runReplay searches a failing input by running the real code (test files laid
// over the repository's packages); it runs only after a proof failed.
func runReplay(vdir, repo, prop, tier string) (input, log string) {
	src := filepath.Join(vdir, "replay", prop)
	if _, err := os.Stat(src); err != nil {
		return "", "no replay harness for " + prop
	}
	tmp, err := os.MkdirTemp("", "gvc-replay-")
	if err != nil {
		return "", err.Error()
	}
	defer os.RemoveAll(tmp)
	helper, err := os.ReadFile(filepath.Join(vdir, "replay", "helper.go.txt"))
	if err != nil {
		return "", err.Error()
	}
	repl := map[string]string{}
	pkgs := map[string]bool{}
	filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		// the first line says where the file belongs:  //package-dir: p2p
		b, _ := os.ReadFile(p)
		l, _, _ := strings.Cut(string(b), "\n")
		pd := strings.TrimSpace(strings.TrimPrefix(l, "//package-dir:"))
		repl[filepath.Join(repo, pd, "zz_verif_"+filepath.Base(p))] = p
		if !pkgs[pd] {
			pkgs[pd] = true
			pn := filepath.Base(pd)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					pn = strings.TrimSpace(l[8:])
					break
				}
			}
			h := filepath.Join(tmp, strings.ReplaceAll(pd, "/", "_")+"_helper_test.go")
			os.WriteFile(h, []byte("package "+pn+"\n"+string(helper)), 0o644)
			repl[filepath.Join(repo, pd, "zz_verif_helper_test.go")] = h
		}
		return nil
	})
	// the package's own tests are not part of the replay
	for pd := range pkgs {
		ents, _ := os.ReadDir(filepath.Join(repo, pd))
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				repl[filepath.Join(repo, pd, e.Name())] = ""
			}
		}
	}
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 400 * time.Second
	}
	var logs strings.Builder
	for _, pd := range sortedKeys(pkgs) {
		ctx, cancel := context.WithTimeout(context.Background(), budget+20*time.Second)
		cf := filepath.Join(tmp, "case")
		os.Remove(cf)
		scratch := filepath.Join(tmp, "scratch")
		os.MkdirAll(scratch, 0o755)
		cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ov, "-vet=off", "-count=1", "-v", "-timeout", budget.String(), "-run", "TestVerif", "./"+pd)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "VERIF_CASE="+cf, "TMPDIR="+scratch, "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTRACEBACK=single", "GOMEMLIMIT=6GiB")
		cmd.WaitDelay = 5 * time.Second
		out, err := cmd.CombinedOutput()
		cancel()
		s := string(out)
		logs.WriteString("$ go test (overlay) ./" + pd + "\n" + trunc(s, 6000) + "\n")
		if err == nil {
			continue
		}
		if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") {
			continue
		}
		for _, l := range strings.Split(s, "\n") {
			if i := strings.Index(l, "FAILING-INPUT: "); i >= 0 {
				return l[i+15:], logs.String()
			}
		}
		if b, err := os.ReadFile(cf); err == nil && len(b) > 0 {
			why := "the process died"
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
					why = l
					break
				}
			}
			return string(b) + ": " + why, logs.String()
		}
	}
	return "", logs.String()
}

func replayCmd(args []string) {
	repo := "/repo/src"
	if len(args) > 1 {
		repo = args[1]
	}
	in, log := runReplay("/verif", repo, args[0], "quick")
	fmt.Println(log)
	if in != "" {
		fmt.Println("FAILING-INPUT: " + in)
		os.Exit(1)
	}
	fmt.Println("no failing input found")
}
