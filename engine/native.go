package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native builds the harness package with the real compiler and runs harnesses on concrete inputs.
type Native struct {
	P      *Program
	verif  string
	repo   string
	tmp    string
	bins   map[string]string
	errs   map[string]string
	closed bool
}

func newNative(P *Program, verif, repo string) *Native {
	tmp, _ := os.MkdirTemp("", "verifnat")
	return &Native{P: P, verif: verif, repo: repo, tmp: tmp, bins: map[string]string{}, errs: map[string]string{}}
}

func (n *Native) close() {
	if !n.closed {
		n.closed = true
		os.RemoveAll(n.tmp)
	}
}

func (n *Native) binary(h *Harness) (string, error) {
	if b, ok := n.bins[h.Pkg]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", n.errs[h.Pkg])
		}
		return b, nil
	}
	n.bins[h.Pkg] = ""
	p := n.P.pkgs[h.Pkg]
	var names []string
	for m := range p.Members {
		if strings.HasPrefix(m, "Verif") && p.Func(m) != nil && p.Func(m).Signature.Params().Len() == 0 {
			names = append(names, m)
		}
	}
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\tverifsym \"%s/verifsym\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifsym.Main(t, map[string]func(){\n", p.Pkg.Name(), modPath)
	for _, m := range names {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", m, m)
	}
	b.WriteString("\t})\n}\n")
	drv := filepath.Join(n.tmp, strings.ReplaceAll(h.Dir, "/", "_")+"_drv_test.go")
	os.WriteFile(drv, []byte(b.String()), 0644)
	ov := map[string]string{}
	for k, v := range n.P.overlay {
		ov[k] = v
	}
	ov[filepath.Join(n.repo, h.Dir, "zz_verif_drv_test.go")] = drv
	// the package's own tests are not needed
	fs, _ := filepath.Glob(filepath.Join(n.repo, h.Dir, "*_test.go"))
	for _, f := range fs {
		ov[f] = ""
	}
	ovf := filepath.Join(n.tmp, strings.ReplaceAll(h.Dir, "/", "_")+"_ov.json")
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	os.WriteFile(ovf, j, 0644)
	out := filepath.Join(n.tmp, strings.ReplaceAll(h.Dir, "/", "_")+".test")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.23.12/bin/go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", out, "./"+h.Dir)
	cmd.Dir = n.repo
	cmd.Env = repoEnv()
	o, err := cmd.CombinedOutput()
	if err != nil {
		n.errs[h.Pkg] = string(o)
		return "", fmt.Errorf("%s", o)
	}
	n.bins[h.Pkg] = out
	return out, nil
}

func (n *Native) run(h *Harness, inputs map[string]interface{}, timeout time.Duration) (string, bool, error) {
	bin, err := n.binary(h)
	if err != nil {
		return "", false, err
	}
	f := filepath.Join(n.tmp, "in.json")
	b, _ := json.Marshal(map[string]interface{}{"inputs": inputs, "thorough": *fTier == "thorough"})
	os.WriteFile(f, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.count=1", "-test.timeout", fmt.Sprintf("%ds", int(timeout.Seconds())))
	cmd.Dir = n.tmp
	cmd.Env = append(repoEnv(), "VERIF_REPLAY="+f, "VERIF_HARNESS="+h.Name)
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	err = cmd.Run()
	return o.String(), err == nil, nil
}

// replay runs the counterexample's inputs against the real code.
func (n *Native) replay(h *Harness, v *Violation, path string) string {
	if h.Opt["native"] == "off" {
		return "engine replay only (environment modelled)"
	}
	seq := len(v.St.threads) == 1 && !v.St.nondet
	tries := 1
	if !seq {
		tries = 3
		if len(v.St.threads) == 1 {
			tries = 20
		}
	}
	for i := 0; i < tries; i++ {
		if *fTier != "thorough" && time.Since(started) > 600*time.Second {
			return "not replayed natively: out of time"
		}
		out, ok, err := n.run(h, v.Inputs, 20*time.Second)
		if err != nil {
			return "native build failed: " + firstLine(err.Error())
		}
		os.WriteFile(strings.TrimSuffix(path, ".json")+".native.txt", []byte(out), 0644)
		if strings.Contains(out, "VERIF-ASSUME-FAILED") {
			if seq {
				return "contradicted"
			}
			continue
		}
		if strings.Contains(out, "VERIF-ASSERT-FAIL "+v.Label) {
			return "reproduced"
		}
		if !ok && (v.Kind == "panic" || v.Kind == "deadlock" || v.Kind == "nontermination" || v.Kind == "race") {
			return "reproduced"
		}
		if seq && ok {
			return "contradicted"
		}
		if seq && !ok {
			return "reproduced (different failure)"
		}
	}
	return "schedule-dependent: replayed by the engine, not forced natively"
}

func firstLine(s string) string { return strings.SplitN(strings.TrimSpace(s), "\n", 2)[0] }

// validate runs models of explored passing paths natively: no assertion may fail and observations must agree.
func (n *Native) validate(h *Harness, ss []Sample) (int, []string) {
	ok := 0
	var bad []string
	lim := 4
	if *fTier == "thorough" {
		lim = 8
	}
	t0 := time.Now()
	for i, s := range ss {
		if i >= lim || time.Since(t0) > 20*time.Second {
			break
		}
		if s.Threads > 1 && h.Opt["native"] != "conc" {
			continue
		}
		out, pass, err := n.run(h, s.Inputs, 30*time.Second)
		if err != nil {
			return ok, append(bad, h.Name+": native build failed: "+firstLine(err.Error()))
		}
		if !pass || strings.Contains(out, "VERIF-ASSUME-FAILED") {
			if s.Threads > 1 || s.nondet {
				continue
			}
			bad = append(bad, fmt.Sprintf("%s: inputs %v: native run differs: %s", h.Name, s.Inputs, lastLines(out, 6)))
			continue
		}
		var obs []string
		for _, l := range strings.Split(out, "\n") {
			if i := strings.Index(l, "VERIF-OBS "); i >= 0 {
				obs = append(obs, l[i+10:])
			}
		}
		if s.Threads == 1 && !s.nondet && strings.Join(obs, ";") != strings.Join(s.Obs, ";") {
			bad = append(bad, fmt.Sprintf("%s: inputs %v: observed %v natively, %v symbolically", h.Name, s.Inputs, obs, s.Obs))
			continue
		}
		ok++
	}
	return ok, bad
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}
