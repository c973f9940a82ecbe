package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type native struct {
	repo, verif, prop, tier string
	ov                      map[string][]byte
	dir                     string
	once, raceOnce          sync.Once
	bin, raceBin            string
	err                     error
	built                   time.Duration
	Runs                    int
	mu                      sync.Mutex
}

func (n *native) writeOverlay() (string, error) {
	if err := os.MkdirAll(n.dir, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	i := 0
	for p, c := range n.ov {
		f := filepath.Join(n.dir, fmt.Sprintf("f%d.go", i))
		i++
		if err := os.WriteFile(f, c, 0o644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	js := filepath.Join(n.dir, "overlay.json")
	return js, os.WriteFile(js, b, 0o644)
}

func (n *native) build(race bool) (string, error) {
	js, err := n.writeOverlay()
	if err != nil {
		return "", err
	}
	out := filepath.Join(n.dir, "h")
	args := []string{"build", "-overlay", js, "-o", out}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if race {
		out += "race"
		args = []string{"build", "-race", "-overlay", js, "-o", out}
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, "./internal/zzv/"+strings.ToLower(n.prop))
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, b)
	}
	return out, nil
}

func (n *native) get() (string, error) {
	n.once.Do(func() {
		t := time.Now()
		n.bin, n.err = n.build(false)
		n.built = time.Since(t)
	})
	return n.bin, n.err
}

func (n *native) getRace() (string, error) {
	n.raceOnce.Do(func() { n.raceBin, _ = n.build(true) })
	if n.raceBin == "" {
		return "", fmt.Errorf("race build failed")
	}
	return n.raceBin, nil
}

type caseIn struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices map[string]int    `json:"choices"`
	Sched   []int             `json:"sched"`
	Free    bool              `json:"free"`
}

type caseOut struct {
	Viol   []string `json:"viol"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
	Assume bool     `json:"assume_failed"`
	Done   bool     `json:"done"`
	Stuck  string   `json:"stuck"`
}

func (n *native) run(bin string, in caseIn, tmo time.Duration) (caseOut, int, string) {
	n.mu.Lock()
	n.Runs++
	id := n.Runs
	n.mu.Unlock()
	if n.tier == "thorough" {
		in.Tier = 1
	}
	ip := filepath.Join(n.dir, fmt.Sprintf("in%d.json", id))
	op := filepath.Join(n.dir, fmt.Sprintf("out%d.json", id))
	b, _ := json.Marshal(in)
	os.WriteFile(ip, b, 0o644)
	defer os.Remove(ip)
	defer os.Remove(op)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VRT_IN="+ip, "VRT_OUT="+op, "GOTRACEBACK=single")
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.Stdout = &se
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	var out caseOut
	if ob, e := os.ReadFile(op); e == nil {
		json.Unmarshal(ob, &out)
	}
	txt := se.String()
	if len(txt) > 6000 {
		txt = txt[:6000]
	}
	return out, code, txt
}

// confirm replays a violation against the compiled repository code.
func (n *native) confirm(v *Violation) (bool, string) {
	in := caseIn{Harness: v.Harness, Inputs: v.Inputs, Choices: v.Choices, Sched: v.Sched}
	if v.Kind == "race" {
		bin, err := n.getRace()
		if err != nil {
			return false, err.Error()
		}
		in.Free = true
		for i := 0; i < 12; i++ {
			_, _, txt := n.run(bin, in, 30*time.Second)
			if strings.Contains(txt, "DATA RACE") || strings.Contains(txt, "fatal error: concurrent map") {
				return true, txt
			}
		}
		return false, "race not reproduced"
	}
	bin, err := n.get()
	if err != nil {
		return false, err.Error()
	}
	out, code, txt := n.run(bin, in, 30*time.Second)
	switch v.Kind {
	case "assert":
		for _, l := range out.Viol {
			if l == v.Label {
				return true, "assertion " + l + " failed natively"
			}
		}
		if code == 2 && strings.Contains(txt, "panic:") {
			return true, txt
		}
	case "panic":
		if (code == 2 && (strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:"))) || strings.Contains(txt, "goroutine 1 [running]") {
			return true, txt
		}
	case "deadlock":
		for _, l := range out.Viol {
			if l == "deadlock" {
				return true, "deadlock reproduced natively"
			}
		}
		if out.Stuck != "" || strings.Contains(txt, "all goroutines are asleep") {
			return true, "stuck natively: " + out.Stuck
		}
	}
	return false, fmt.Sprintf("exit %d out %+v %s", code, out, txt)
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "comma separated harness names")
	budget := flag.Int("budget", 0, "exploration seconds")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	replay := flag.String("replay", "", "replay file")
	noNative := flag.Bool("nonative", false, "skip native confirmation (debugging)")
	verbose := flag.Bool("v", false, "verbose")
	maxWit := flag.Int("wit", 0, "witnesses to validate")
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t == "thorough" || t == "quick" {
		set := false
		flag.Visit(func(f *flag.Flag) {
			if f.Name == "tier" {
				set = true
			}
		})
		if !set {
			*tier = t
		}
	}
	os.Exit(runCheck(*prop, *tier, *repo, *verif, *only, *budget, *workers, *replay, *noNative, *verbose, *maxWit))
}

// deepQuick: properties cheap enough to use the thorough bounds in the quick tier too.
func deepQuick(verif, prop string) bool {
	b, _ := os.ReadFile(filepath.Join(verif, "harness", "deep.txt"))
	for _, p := range strings.Fields(string(b)) {
		if p == prop {
			return true
		}
	}
	return false
}

func runCheck(prop, tier, repo, verif, only string, budget, workers int, replay string, noNative, verbose bool, maxWit int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir, err := os.MkdirTemp("", "symgo-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	if budget == 0 {
		budget = 360
		if tier == "thorough" {
			budget = 700
		}
	}
	if maxWit == 0 {
		maxWit = 32
		if tier == "thorough" {
			maxWit = 160
		}
	}
	requested := tier
	if deepQuick(verif, prop) {
		tier = "thorough" // bounds; budget and witnesses stay those of the requested tier
	}
	ov, err := buildOverlay(repo, verif, prop)
	var prog *Program
	if err == nil {
		prog, err = loadProgram(repo, "./internal/zzv/"+strings.ToLower(prop), ov)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode:", err)
		writeEvidence(verif, prop, requested, seed, t0, nil, nil, 0, 0, nil, 0, "the tree could not be loaded: "+err.Error())
		return 2
	}
	loadT := time.Since(t0)
	nat := &native{repo: repo, verif: verif, prop: prop, tier: tier, ov: ov, dir: filepath.Join(dir, "native")}
	if replay != "" {
		return doReplay(nat, replay)
	}
	go nat.get() // build in the background

	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		}
	}
	isKnown := func(v *Violation) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.Status == "known" && k.Property == prop && k.Harness == v.Harness && k.Label == v.Label {
				return k
			}
		}
		return nil
	}

	var names []string
	for n, m := range prog.main.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H") && f.Signature.Params().Len() == 0 {
			if only != "" && !strings.Contains(","+only+",", ","+n+",") {
				continue
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	pool := &Pool{deadline: time.Now().Add(time.Duration(budget) * time.Second)}
	var vmu sync.Mutex
	var confirmed []*Violation
	var unconf []string
	knownHit := map[string]*knownFinding{}
	for _, n := range names {
		ex := &Explorer{prog: prog, harness: n, entry: prog.fn(prog.main.Func(n)), tier: tier}
		ex.onViol = func(v *Violation) bool {
			vmu.Lock()
			defer vmu.Unlock()
			if len(confirmed) > 0 {
				return false
			}
			if noNative {
				fmt.Printf("UNVERIFIED %s %s: %s obs=%v inputs=%v choices=%v\n", v.Harness, v.Label, v.Msg, v.Obs, v.Inputs, v.Choices)
				confirmed = append(confirmed, v)
				return true
			}
			ok, detail := nat.confirm(v)
			if !ok {
				unconf = append(unconf, v.Harness+"/"+v.Label+": "+v.Msg+" :: "+detail)
				if verbose {
					b, _ := json.Marshal(v)
					fmt.Fprintf(os.Stderr, "UNCONFIRMED %s %s: %s\n%s\n%s\n", v.Harness, v.Label, v.Msg, detail, b)
				}
				return false
			}
			v.Trace = []string{detail}
			if k := isKnown(v); k != nil {
				knownHit[k.Harness+"/"+k.Label] = k
				return false
			}
			confirmed = append(confirmed, v)
			return true
		}
		pool.exs = append(pool.exs, ex)
	}
	if len(pool.exs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness")
		return 3
	}
	pool.Run(workers)
	var cwg sync.WaitGroup
	for _, ex := range pool.exs {
		cwg.Add(1)
		go func(ex *Explorer) {
			defer cwg.Done()
			ex.cover(solverBin())
		}(ex)
	}
	cwg.Wait()

	// validate witnesses natively
	validated, mism := 0, []string{}
	if len(confirmed) == 0 && !noNative {
		if bin, err := nat.get(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			mism = append(mism, "native build failed: "+err.Error())
		} else {
			var all []*Witness
			per := max(2, maxWit/len(pool.exs))
			for _, ex := range pool.exs {
				w := ex.Witnesses
				if len(w) > per {
					var pick []*Witness
					for i := 0; i < per; i++ {
						pick = append(pick, w[i*len(w)/per])
					}
					w = pick
				}
				all = append(all, w...)
			}
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			var mu sync.Mutex
			for _, wt := range all {
				wg.Add(1)
				sem <- true
				go func(wt *Witness) {
					defer wg.Done()
					defer func() { <-sem }()
					out, code, txt := nat.run(bin, caseIn{Harness: wt.Harness, Inputs: wt.Inputs, Choices: wt.Choices, Sched: wt.Sched}, 30*time.Second)
					good := code == 0 && out.Done && !out.Assume && strings.Join(out.Obs, "|") == strings.Join(wt.Obs, "|")
					mu.Lock()
					defer mu.Unlock()
					if good {
						validated++
					} else {
						mism = append(mism, fmt.Sprintf("%s exit=%d done=%v assume=%v viol=%v stuck=%s\n  engine %v\n  native %v\n  in %v %v %v\n  %s", wt.Harness, code, out.Done, out.Assume, out.Viol, out.Stuck, wt.Obs, out.Obs, wt.Inputs, wt.Choices, wt.Sched, firstLines(txt, 6)))
					}
				}(wt)
			}
			wg.Wait()
		}
	}
	for i, m := range mism {
		if i < 5 {
			fmt.Fprintln(os.Stderr, "ENGINE/NATIVE MISMATCH:", m)
		}
	}
	rc := 0
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownHit[k].What)
	}
	if len(confirmed) > 0 {
		v := confirmed[0]
		rp := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-%s-%s.json", prop, v.Harness, sanitize(v.Label)))
		os.MkdirAll(filepath.Dir(rp), 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "tier": tier, "violation": v}, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("violated: harness=%s assertion=%s (%s)\n", v.Harness, v.Label, v.Msg)
		for _, o := range v.Obs {
			fmt.Println("  observed", o)
		}
		fmt.Println("  ", firstLines(v.Trace[0], 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		rc = 1
	}
	writeEvidence(verif, prop, requested, seed, t0, pool.exs, nat, validated, loadT.Seconds(), append(mism, unconf...), len(confirmed), "")
	if verbose || rc == 0 {
		for _, ex := range pool.exs {
			fmt.Printf("%-28s paths=%d infeasible=%d decisions=%d asserts=%d (solver %d, concrete %d) queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs unsup=%d %s %s\n", ex.harness, ex.Paths, ex.Infeasible, ex.Decisions.Load(), ex.Asserts, ex.AssertQ, ex.AssertTriv, ex.Queries, ex.QSat, ex.QUnsat, ex.QUnknown, ex.SolverTime.Seconds(), ex.Wall.Seconds(), ex.Unsup, ex.Incomplete, unsupStr(ex))
		}
		fmt.Printf("%s %s: load %.1fs total %.1fs validated %d mismatches %d unconfirmed %d\n", prop, requested, loadT.Seconds(), time.Since(t0).Seconds(), validated, len(mism), len(unconf))
	}
	return rc
}

func unsupStr(ex *Explorer) string {
	var o []string
	for m, n := range ex.UnsupMsgs {
		o = append(o, fmt.Sprintf("[%dx %s]", n, m))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func doReplay(n *native, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Tier      string
		Violation *Violation
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if r.Tier != "" {
		n.tier = r.Tier
	}
	ok, detail := n.confirm(r.Violation)
	fmt.Println("reproduced:", ok)
	fmt.Println(detail)
	if ok {
		return 1
	}
	return 0
}
