package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// verifRoot is the directory holding contracts/, replay/ and evidence/.
func verifRoot() string {
	if d := os.Getenv("GVC_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

type evUnit struct {
	Unit        string  `json:"unit"`
	Obligations int     `json:"obligations"`
	Discharged  int     `json:"discharged"`
	Paths       int     `json:"paths"`
	Seconds     float64 `json:"seconds"`
	Error       string  `json:"error,omitempty"`
}

func sortedSet(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// check decides one property: 0 held, 1 violation.
func check(repo, prop, tier string) (code int) {
	t0 := time.Now()
	root := verifRoot()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.MkdirAll(filepath.Join(root, "out"), 0755)
	specFile := filepath.Join(root, "contracts", prop+".gvc")

	var rep *Report
	var sp *Spec
	verr := ""
	L, err := Load(repo)
	if err != nil {
		fmt.Println("cannot load", repo+":", err)
		return 2
	}
	attempt := func(scale int) {
		verr = ""
		rep = nil
		defer func() {
			if e := recover(); e != nil {
				if s, ok := e.(specErr); ok {
					verr = s.msg
				} else {
					verr = fmt.Sprint(e)
				}
			}
		}()
		timeScale = scale
		sp = NewSpec()
		sp.Load(specFile)
		rep = verify(L, sp, "", 8)
		for _, f := range sp.also {
			s2 := NewSpec()
			s2.Load(f)
			r2 := verify(L, s2, "", 8)
			rep.Units = append(rep.Units, r2.Units...)
			rep.Failed = append(rep.Failed, r2.Failed...)
			sp.assumes = append(sp.assumes, s2.assumes...)
			for k, c := range s2.contracts {
				if sp.contracts[k] == nil {
					sp.contracts[k] = c
				}
			}
		}
	}
	sc := 1
	if tier == "thorough" {
		sc = 4
		crossCheck = true
	}
	if tier != "thorough" {
		deadline = t0.Add(360 * time.Second)
	}
	attempt(sc)
	retried := false
	if verr == "" && len(rep.Failed) > 0 && time.Since(t0) < 150*time.Second {
		for _, r := range rep.Failed {
			for _, o := range r.failed {
				if o.Model == "" {
					retried = true
				}
			}
		}
		if retried { // an undecided obligation is tried again with more time before it counts as failed
			fmt.Println("undecided obligations, trying again with more time")
			if tier != "thorough" {
				deadline = t0.Add(480 * time.Second)
			}
			attempt(3 * sc)
		}
	}

	cov := map[string]interface{}{}
	assume := map[string]bool{}
	underContract, verified, trusted, models, inlined, ran := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	nob, ndis := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var units []evUnit
	var fails []string
	vacuous := []string{}
	if rep != nil {
		for _, r := range rep.Units {
			eu := evUnit{Unit: r.u.name, Seconds: r.seconds, Error: r.err}
			isFailedRoot := false
			for _, f := range rep.Failed {
				if f == r {
					isFailedRoot = true
				}
			}
			if r.u.target != "" && !isFailedRoot && (r.err != "" || len(r.failed) > 0) {
				continue // demoted
			}
			eu.Paths = r.x.paths
			for _, o := range r.obs {
				eu.Obligations++
				if o.OK {
					eu.Discharged++
					b := o.By
					if b == "" {
						b = "simplifier"
					}
					by[b]++
				} else if isFailedRoot {
					fails = append(fails, fmt.Sprintf("obligation %q of %s at %s: %s\n  goal: %s\n  path: %s\n  model: %s", o.Name, r.u.name, o.Pos, o.Reason, cut(o.Goal, 1500), strings.Join(o.Trace, " | "), cut(o.Model, 2000)))
				}
				kinds[o.Kind]++
			}
			if isFailedRoot && r.err != "" {
				fails = append(fails, fmt.Sprintf("unit %s: %s", r.u.name, r.err))
			}
			nob += eu.Obligations
			ndis += eu.Discharged
			units = append(units, eu)
			if r.u.target != "" {
				verified[r.u.target] = true
				underContract[r.u.target] = true
			}
			for k := range r.x.assume {
				assume[k] = true
			}
			for k := range r.x.usedCon {
				underContract[k] = true
				if c := sp.contracts[k]; c != nil && c.trusted {
					trusted[k] = true
					assume["trusted contract of "+k] = true
				}
			}
			for k := range r.x.usedMod {
				models[k] = true
			}
			for k := range r.x.inlined {
				inlined[k] = true
			}
			for k := range r.x.ran {
				ran[k] = true
				underContract[k] = true
			}
		}
		for _, a := range sp.assumes {
			assume[a] = true
		}
	}
	if verr != "" {
		fails = append(fails, "the verifier could not process the current source: "+verr)
	}
	if len(fails) == 0 && (rep == nil || nob == 0) {
		fails = append(fails, "no obligations were generated")
	}
	stats.mu.Lock()
	solver := map[string]map[string]interface{}{}
	for k, n := range stats.Queries {
		solver[k] = map[string]interface{}{"queries": n, "seconds": stats.Time[k].Seconds()}
	}
	stats.mu.Unlock()
	cov["obligations"] = nob
	cov["discharged"] = ndis
	cov["checker_cmd"] = fmt.Sprintf("/verif/bin/gvc check %s %s (contracts/%s.gvc against go/ssa of %s; z3 5.3.2, z3 4.8.12, cvc5 1.1.2)", prop, tier, prop, repo)
	tb := []string{"gvc symbolic executor and verification-condition generator (/verif/gvc)", "golang.org/x/tools/go/ssa translation of the Go source", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts when one of them answers unsat)"}
	for k := range models {
		tb = append(tb, "model of "+k)
	}
	sort.Strings(tb[3:])
	cov["trusted_base"] = tb
	cov["discharged_by"] = by
	cov["obligation_kinds"] = kinds
	cov["solver"] = solver
	cov["functions_under_contract"] = sortedSet(underContract)
	cov["contracts_verified_separately"] = sortedSet(verified)
	cov["functions_inlined_at_call_sites"] = sortedSet(inlined)
	cov["trusted_contracts"] = sortedSet(trusted)
	cov["models"] = sortedSet(models)
	cov["units"] = units
	cov["vacuous_units"] = vacuous
	if rep != nil {
		cov["demoted_contracts"] = rep.Demoted
	}
	cov["retried_with_more_time"] = retried
	if crossCheck {
		cov["confirmed_by_a_second_process"] = crossYes
		cov["second_process_undecided"] = crossUnknown
	}

	violations := 0
	if len(fails) > 0 {
		violations = 1
		code = 1
	}
	line := ""
	if code == 1 {
		fmt.Printf("%d failed:\n%s\n", len(fails), cut(strings.Join(fails, "\n"), 4000))
		path := filepath.Join(root, "out", prop+".replay.txt")
		os.Remove(path)
		found, what := replay(root, repo, prop, tier, seed, 600*time.Second-time.Since(t0))
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\nfailed obligations:\n%s\n\n", prop, strings.Join(fails, "\n"))
		if found {
			fmt.Fprintf(&b, "failing input, confirmed by running the real code (go test with the driver replay/%s.go, seed %d):\n%s\n", prop, seed, what)
			line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
		} else {
			fmt.Fprintf(&b, "no failing input found by the replay driver:\n%s\n", what)
			line = fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", prop, path)
		}
		os.WriteFile(path, b.Bytes(), 0644)
		cov["replay"] = map[string]interface{}{"failing_input_found": found, "output": cut(what, 4000)}
	} else if tier == "thorough" {
		// the replay driver is the oracle used when an obligation fails; on a proved tree it must stay silent
		found, what := replay(root, repo, prop, tier, seed, 600*time.Second)
		cov["replay_driver_self_check"] = map[string]interface{}{"failing_input_found": found, "output": cut(what, 2000)}
		if found {
			fmt.Println("the replay driver found a failing input although every obligation was discharged:", what)
			code, violations = 1, 1
			path := filepath.Join(root, "out", prop+".replay.txt")
			os.WriteFile(path, []byte(what), 0644)
			line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": sortedSet(assume), "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(j, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, k := range knownFindings(root, prop) {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	fmt.Printf("%s: %d of %d obligations discharged in %d units, %.1f s\n", prop, ndis, nob, len(units), time.Since(t0).Seconds())
	if line != "" {
		fmt.Println(line)
	}
	return code
}

// knownFindings lists the recorded, unrepaired defects of a property. Entries starting with "fixed:" are history only.
func knownFindings(root, prop string) []string {
	b, _ := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if p := "finding: property=" + prop + " "; strings.HasPrefix(l, p) {
			r = append(r, l[len(p):])
		}
	}
	return r
}

// replay runs the property's driver against the real code: a Go test laid over the package that looks for an input,
// schedule or history on which the code contradicts an independent oracle.
func replay(root, repo, prop, tier string, seed int, budget time.Duration) (bool, string) {
	files, _ := filepath.Glob(filepath.Join(root, "replay", prop+"*.go"))
	common, _ := filepath.Glob(filepath.Join(root, "replay", "common_*.go"))
	if len(files) == 0 {
		return false, "no replay driver for " + prop
	}
	var all strings.Builder
	end := time.Now().Add(budget)
	modArgs, err := hookedModule(repo, workDir)
	if err != nil {
		return false, "system calls cannot be intercepted: " + err.Error()
	}
	for _, f := range files {
		pkg := pkgOf(f)
		ov := map[string]map[string]string{"Replace": {}}
		ov["Replace"][filepath.Join(repo, pkg, "zz_gvc_replay_test.go")] = f
		for i, c := range common {
			if pkgOf(c) == pkg {
				ov["Replace"][filepath.Join(repo, pkg, fmt.Sprintf("zz_gvc_common%d_test.go", i))] = c
			}
		}
		oj, _ := json.Marshal(ov)
		op := filepath.Join(workDir, "overlay.json")
		os.WriteFile(op, oj, 0644)
		bin := filepath.Join(workDir, "replay.test")
		os.Remove(bin)
		args := []string{"test", "-c", "-vet=off", "-overlay", op, "-o", bin}
		b, _ := os.ReadFile(f)
		if bytes.Contains(b, []byte("//gvc:race")) {
			args = append(args, "-race")
		}
		args = append(args, modArgs...)
		cmd := exec.Command("go", append(args, "./"+pkg)...)
		cmd.Dir = repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			fmt.Fprintf(&all, "driver %s does not build against this source:\n%s\n", filepath.Base(f), cut(string(out), 3000))
			continue
		}
		left := time.Until(end)
		if left < 20*time.Second {
			left = 20 * time.Second
		}
		if left > 200*time.Second && tier == "quick" {
			left = 200 * time.Second
		}
		sd := filepath.Join(workDir, "scratch")
		os.MkdirAll(sd, 0755)
		inputF := filepath.Join(sd, "input.txt")
		os.Remove(inputF)
		ctx, cancel := context.WithTimeout(context.Background(), left)
		cmd = exec.CommandContext(ctx, bin, "-test.run", "^TestGVC"+prop+"$", "-test.v", "-test.timeout", fmt.Sprint(left-3*time.Second))
		cmd.Dir = sd
		cmd.Env = append(os.Environ(), fmt.Sprintf("GVC_SEED=%d", seed), "GVC_TIER="+tier, "GVC_INPUT="+inputF)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 5 * time.Second
		out, err = cmd.CombinedOutput()
		cancel()
		so := string(out)
		in, _ := os.ReadFile(inputF)
		if i := strings.Index(so, "GVC-FAIL"); i >= 0 {
			return true, fmt.Sprintf("driver %s:\n%s", filepath.Base(f), cut(so[i:], 6000))
		}
		if err != nil && (strings.Contains(so, "DATA RACE") && bytes.Contains(b, []byte("//gvc:race"))) {
			return true, fmt.Sprintf("driver %s: data race\n%s", filepath.Base(f), cut(so, 6000))
		}
		crash := strings.Contains(so, "panic: ") || strings.Contains(so, "fatal error: ") || strings.Contains(so, "unexpected fault")
		if err != nil && crash && !strings.Contains(so, "panic: test timed out") {
			i := strings.Index(so, "panic: ")
			if i < 0 {
				i = strings.Index(so, "fatal error: ")
			}
			if i < 0 {
				i = 0
			}
			return true, fmt.Sprintf("driver %s: the code under test crashed; last input: %s\n%s", filepath.Base(f), string(in), cut(so[i:], 5000))
		}
		fmt.Fprintf(&all, "driver %s: %v; last input %s\n%s\n", filepath.Base(f), err, cut(string(in), 300), cut(so, 1500))
	}
	return false, all.String()
}

func pkgOf(f string) string {
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "//gvc:pkg ") {
			return strings.TrimSpace(l[len("//gvc:pkg "):])
		}
	}
	return "."
}
