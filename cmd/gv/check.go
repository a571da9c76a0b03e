package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/engine/sym"

	"golang.org/x/tools/go/ssa"
)

// propPkgs finds the contract packages with proofs registered for the property.
func propPkgs(verif, prop string) []string {
	re := regexp.MustCompile(`(?m)^//gv:prop .*\b` + prop + `\b`)
	seen := map[string]bool{}
	filepath.Walk(filepath.Join(verif, "contracts"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			if b, err := os.ReadFile(p); err == nil && re.Match(b) {
				rel, _ := filepath.Rel(filepath.Join(verif, "contracts"), filepath.Dir(p))
				seen[rel] = true
			}
		}
		return nil
	})
	var r []string
	for k := range seen {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func repoPkgs(repo string) []string {
	seen := map[string]bool{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repo {
			return filepath.SkipDir
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(repo, filepath.Dir(p))
			seen[rel] = true
		}
		return nil
	})
	var r []string
	for k := range seen {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func exported(target string) bool {
	i := strings.LastIndex(target, ".")
	return i >= 0 && i+1 < len(target) && target[i+1] >= 'A' && target[i+1] <= 'Z'
}

type replayRes struct {
	Found  bool   `json:"found"`
	Text   string `json:"text"`
	Cases  int    `json:"cases"`
	Status string `json:"status"`
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property id")
	verbose := fs.Bool("v", false, "")
	noReplay := fs.Bool("noreplay", false, "")
	fs.Parse(args)
	debug.SetMemoryLimit(12 << 30)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	budget, total := 150*time.Second, 420*time.Second
	if tier == "thorough" {
		budget, total = 600*time.Second, 3000*time.Second
	}
	var failures []string
	early := make(chan replayRes, 1)
	pkgs := propPkgs(*verif, *prop)
	e, err := sym.Load(*repo, *verif, repoPkgs(*repo))
	var results []*sym.Result
	var skipped []string
	if err != nil {
		failures = append(failures, "load: "+err.Error())
	} else {
		if tier == "quick" {
			e.FailGrace = 20 * time.Second
		}
		stop := make(chan bool)
		if !*noReplay {
			// as soon as an obligation fails, look for a failing input while the proofs go on
			go func() {
				defer close(early)
				for {
					select {
					case <-stop:
						return
					case <-time.After(100 * time.Millisecond):
					}
					if e.FailedAt.Load() > 0 || time.Since(t0) > 40*time.Second {
						rr := replay(*repo, *verif, *prop, seed, nil)
						early <- rr
						if rr.Found {
							e.FailGrace = 1
							e.FailedAt.Store(1)
						}
						return
					}
				}
			}()
		} else {
			close(early)
		}
		results, skipped = runProofs(e, pkgs, *prop, budget, total)
		e.Close()
		close(stop)
	}
	obl, ok, bobl, bok := 0, 0, 0, 0
	backends := map[string]int{}
	var solverMs, fbMs int64
	queries, loops := 0, 0
	set := map[string]map[string]bool{}
	add := func(k string, vs ...string) {
		if set[k] == nil {
			set[k] = map[string]bool{}
		}
		for _, v := range vs {
			set[k][v] = true
		}
	}
	var samples []string
	nContracts, nHarness := 0, 0
	var slow []string
	for _, r := range results {
		if r.Kind == "contract" {
			nContracts++
			add("contracts", r.Target)
		} else {
			nHarness++
			add("harnesses", r.Pkg+"."+r.Name)
		}
		for i, o := range r.Obls {
			switch {
			case strings.Contains(r.Name, "_bounded"):
				bobl++
				if o.OK {
					bok++
				}
			case o.OK:
				obl++
				ok++
				backends[o.Backend]++
			default:
				obl++
			}
			if i == len(r.Obls)-1 && len(samples) < 12 {
				samples = append(samples, fmt.Sprintf("%s.%s: %s (%s, %s)", r.Pkg, r.Name, o.Name, o.Pos, o.Backend))
			}
		}
		for _, o := range r.Failed {
			failures = append(failures, fmt.Sprintf("%s.%s: obligation %q at %s [%s] %s", r.Pkg, r.Name, o.Name, o.Pos, o.Status, o.Detail))
		}
		solverMs += r.SolverMs
		fbMs += r.FallbackMs
		queries += r.Queries
		loops += r.Loops
		add("inlined", r.Inlined...)
		add("assumed", r.Assumed...)
		add("natives", r.Natives...)
		if r.Ms > 5000 {
			slow = append(slow, fmt.Sprintf("%s %dms", r.Name, r.Ms))
		}
	}
	if len(results) == 0 && err == nil {
		failures = append(failures, "no proof is registered for "+*prop)
	}
	known := knownFindings(*verif, *prop)
	for _, k := range known {
		fmt.Println("KNOWN-FINDING: property=" + *prop + " " + k)
	}
	list := func(k string, max int) []string {
		var r []string
		for v := range set[k] {
			r = append(r, v)
		}
		sort.Strings(r)
		if len(r) > max {
			r = append(r[:max:max], fmt.Sprintf("… and %d more", len(r)-max))
		}
		return r
	}
	level := "proof"
	if obl < bobl/100 {
		level = "other" // all that matters is bounded (C30)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": tier, "seed": seed, "level": level, "wall_s": 0.0,
		"violations":  0,
		"assumptions": append(append([]string{}, list("assumed", 60)...), list("natives", 150)...),
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": ok,
			"bounded_obligations": bobl, "bounded_discharged": bok,
			"checker_cmd":               "/verif/run.sh " + *prop,
			"trusted_base":              trustedBase,
			"functions_under_contract":  list("contracts", 100),
			"harnesses":                 list("harnesses", 100),
			"functions_executed_inside": list("inlined", 200),
			"by_backend":                backends,
			"solver_queries":            queries,
			"solver_ms":                 solverMs,
			"fallback_solver_ms":        fbMs,
			"loops_with_invariants":     loops,
			"contracts":                 nContracts,
			"skipped_inner_contracts":   skipped,
			"slow":                      slow,
			"samples":                   samples,
		},
	}
	code, violation := 0, ""
	var rr replayRes
	haveRR := false
	select {
	case rr, haveRR = <-early:
		if rr.Found && len(failures) == 0 {
			failures = append(failures, "the replay driver found a failing input although every obligation was discharged")
		}
	default:
	}
	if len(failures) > 0 {
		code = 1
		rdir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, *prop+".txt")
		if !*noReplay {
			if !haveRR && err == nil {
				rr, haveRR = <-early
			}
			if !haveRR {
				rr = replay(*repo, *verif, *prop, seed, failures)
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s: %d obligation(s) not discharged\n", *prop, len(failures))
		if rr.Found {
			fmt.Fprintf(&b, "\nfailing input on the real code (replay with: VERIF_SEED=%d /verif/replay/run.sh %s):\n%s\n", seed, *prop, rr.Text)
		} else {
			fmt.Fprintf(&b, "\nno failing input found by the replay driver (%s)\n", rr.Status)
		}
		fmt.Fprintf(&b, "\nfailed obligations:\n")
		for i, f := range failures {
			if i > 60 {
				fmt.Fprintf(&b, "… %d more\n", len(failures)-i)
				break
			}
			fmt.Fprintln(&b, "  "+f)
		}
		os.WriteFile(rp, b.Bytes(), 0o644)
		for i, f := range failures {
			if i > 10 {
				break
			}
			if len(f) > 400 {
				f = f[:400] + "…"
			}
			fmt.Println("FAILED", f)
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, rp)
		if !rr.Found {
			line += " no-failing-input-found"
		} else {
			fmt.Println(clip(firstLines(rr.Text, 6), 1500))
		}
		ev["violations"] = 1
		ev["coverage"].(map[string]interface{})["replay"] = rr
		violation = line
	}
	ev["wall_s"] = float64(time.Since(t0).Milliseconds()) / 1000
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644)
	if *verbose {
		for _, r := range results {
			fmt.Printf("  %-34s obls %5d failed %d %6dms\n", r.Name, len(r.Obls), len(r.Failed), r.Ms)
		}
	}
	fmt.Printf("%s: %d/%d obligations discharged, %d/%d bounded, %d contracts, %d harnesses, %d loops, solver %dms, wall %.1fs\n", *prop, ok, obl, bok, bobl, nContracts, nHarness, loops, solverMs, time.Since(t0).Seconds())
	if violation != "" {
		fmt.Println(violation)
	}
	os.Exit(code)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var trustedBase = []string{
	"/verif/engine: symbolic executor of Go SSA with contract-based calls and inductive loop invariants (this work)",
	"golang.org/x/tools/go/ssa v0.52.0 (translation of Go source to SSA) and the Go type checker",
	"z3 4.8.12 / z3-new / cvc5 1.1.2 (validity of the obligations)",
	"Go memory model restricted to one goroutine; slices shorter than 2^47 elements",
	"the listed natives/models: contracts of standard-library functions, assumed",
}

func runProofs(e *sym.Engine, pkgs []string, prop string, budget, total time.Duration) (res []*sym.Result, skipped []string) {
	var mu sync.Mutex
	done := map[*ssa.Function]bool{}
	deadline := time.Now().Add(total)
	queue := []*ssa.Function{}
	push := func(fn *ssa.Function) {
		if fn != nil && !done[fn] {
			done[fn] = true
			queue = append(queue, fn)
		}
	}
	for _, p := range pkgs {
		for _, fn := range e.Proofs(p) {
			for _, t := range e.Tags(fn) {
				if t == prop {
					push(fn)
				}
			}
		}
	}
	running := 0
	cond := sync.NewCond(&mu)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				fn := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				b := budget
				if d := time.Until(deadline); d < b {
					b = d
				}
				r := e.Verify(fn, b, false)
				mu.Lock()
				running--
				if len(r.Failed) > 0 && r.Kind == "contract" && r.Target == "" && !e.ExportedContract(fn) {
					// the unexported function this contract was about is gone: its callers now
					// execute the new body
					skipped = append(skipped, r.Name)
				} else {
					res = append(res, r)
				}
				for _, u := range r.Used {
					push(e.ContractOf(u))
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, b := range e.Broken {
		if b.Matters(prop) {
			res = append(res, &sym.Result{Name: b.Name, Kind: "harness", Failed: []*sym.Obl{{Name: "contract matches the code", Status: "failed", Detail: b.Msg}}})
		} else {
			skipped = append(skipped, b.Name+": "+b.Msg)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Pkg+res[i].Name < res[j].Pkg+res[j].Name })
	return
}

// replay looks for a failing input on the real code: the drivers of /verif/replay are built together
// with a copy of the repository's sources.
func replay(repo, verif, prop string, seed int, failures []string) (rr replayRes) {
	dir, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		rr.Status = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	cp := func(src, dst string) {
		if b, err := os.ReadFile(src); err == nil {
			os.MkdirAll(filepath.Dir(dst), 0o755)
			os.WriteFile(dst, b, 0o644)
		}
	}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if rel != "." && strings.HasPrefix(fi.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.mod" || rel == "go.sum" || strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") {
			cp(p, filepath.Join(dir, rel))
		}
		return nil
	})
	rdir := filepath.Join(verif, "replay")
	pk := map[string]bool{}
	re := regexp.MustCompile(`func TestGV_` + prop + `(_\w*)?\(`)
	filepath.Walk(rdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(rdir, p)
		cp(p, filepath.Join(dir, rel))
		if b, err := os.ReadFile(p); err == nil && (prop == "NONE" && strings.HasSuffix(p, "_test.go") || re.Match(b)) {
			pk["./"+filepath.Dir(rel)] = true
		}
		return nil
	})
	if len(pk) == 0 {
		rr.Status = "no replay driver for this property"
		return
	}
	var ps []string
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	out := filepath.Join(dir, "gvreplay.out")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", append([]string{"test", "-vet=off", "-count=1", "-timeout", "200s", "-run", "^TestGV_" + prop + "(_.*)?$"}, ps...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GVRP_OUT="+out, fmt.Sprintf("VERIF_SEED=%d", seed), "GVRP_SRC="+dir, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "CGO_ENABLED=0", "TMPDIR="+filepath.Join(dir, "tmp"))
	os.MkdirAll(filepath.Join(dir, "tmp"), 0o755)
	o, err := cmd.CombinedOutput()
	if b, e2 := os.ReadFile(out); e2 == nil && len(b) > 0 {
		rr.Found = true
		rr.Text = string(b)
		if len(rr.Text) > 6000 {
			rr.Text = rr.Text[:6000] + "…"
		}
		rr.Status = "failing input found"
		return
	}
	if err != nil {
		s := string(o)
		if len(s) > 3000 {
			s = s[:3000]
		}
		rr.Status = "driver: " + err.Error() + "\n" + s
	} else {
		rr.Status = "all cases of the driver agree with the oracle"
	}
	return
}

func knownFindings(verif, prop string) (r []string) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			r = append(r, strings.TrimPrefix(l, p))
		}
	}
	return
}
