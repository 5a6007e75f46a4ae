package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// groundFile: values computed once per run, shared by the worker processes.
type groundFile struct {
	Consts map[string]string
	Maps   map[string]map[int64]int64
	Addr   map[string]int64
	Facts  map[string]string
}

// factDir holds the exhaustive evaluations, one file per package.
var factDir = "/verif/checks/ground"

// computeGround runs the package initialisers of the current source (through
// an overlay; nothing is written under the repository) and reads the values of
// the package-level *uint256.Int variables and int maps.
func computeGround(p *Program, repo, scratch string) error {
	dir := filepath.Join(scratch, "ground")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	over := map[string]string{}
	main := "package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n"
	calls, factCalls := "", ""
	n := 0
	var pkgs []*ssa.Package
	for _, pk := range p.pkgs {
		pkgs = append(pkgs, pk)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, pk := range pkgs {
		if pk.Pkg.Name() == "main" {
			continue
		}
		var ints, maps []string
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.Contains(g.Name(), "$") || g.Name() == "_" {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			if isUIntPtr(t) {
				ints = append(ints, g.Name())
			} else if mt, ok := t.Underlying().(*types.Map); ok {
				k, ok1 := mt.Key().Underlying().(*types.Basic)
				v, ok2 := mt.Elem().Underlying().(*types.Basic)
				if ok1 && ok2 && k.Kind() == types.Int && v.Kind() == types.Int {
					maps = append(maps, g.Name())
				}
			}
		}
		facts := ""
		if b, err := os.ReadFile(filepath.Join(factDir, pk.Pkg.Name()+".go.txt")); err == nil {
			facts = string(b)
		}
		if len(ints)+len(maps) == 0 && facts == "" {
			continue
		}
		sort.Strings(ints)
		sort.Strings(maps)
		n++
		src := fmt.Sprintf("package %s\n\nimport \"fmt\"\n\nfunc VerifGovcDump(o map[string]string, m map[string]map[int]int) {\n", pk.Pkg.Name())
		for _, s := range ints {
			src += fmt.Sprintf("\tif %s != nil {\n\t\to[%q] = fmt.Sprintf(\"%%016x%%016x%%016x%%016x\", %s[3], %s[2], %s[1], %s[0])\n\t}\n", s, pk.Pkg.Name()+"."+s, s, s, s, s)
		}
		for _, s := range maps {
			src += fmt.Sprintf("\tm[%q] = %s\n", pk.Pkg.Name()+"."+s, s)
		}
		src += "\t_ = fmt.Sprint\n}\n"
		f := filepath.Join(dir, fmt.Sprintf("dump%d.go", n))
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			return err
		}
		over[filepath.Join(p.dirs[pk.Pkg.Path()], "zz_verif_govc_dump.go")] = f
		if facts != "" {
			g := filepath.Join(dir, fmt.Sprintf("facts%d.go", n))
			if err := os.WriteFile(g, []byte(facts), 0o644); err != nil {
				return err
			}
			over[filepath.Join(p.dirs[pk.Pkg.Path()], "zz_verif_govc_facts.go")] = g
			factCalls += fmt.Sprintf("\tp%d.VerifGovcFacts(f)\n", n)
		}
		main += fmt.Sprintf("\tp%d %q\n", n, pk.Pkg.Path())
		calls += fmt.Sprintf("\tp%d.VerifGovcDump(o, m)\n", n)
	}
	main += ")\n\nfunc main() {\n\to, m := map[string]string{}, map[string]map[int]int{}\n\tf := map[string]string{}\n" + calls + factCalls + "\tjson.NewEncoder(os.Stdout).Encode([]interface{}{o, m, f})\n}\n"
	f := filepath.Join(dir, "main.go")
	if err := os.WriteFile(f, []byte(main), 0o644); err != nil {
		return err
	}
	over[filepath.Join(repo, "zz_verif_govc_ground", "main.go")] = f
	ov, _ := json.Marshal(map[string]any{"Replace": over})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	exe := filepath.Join(dir, "ground")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", exe, "./zz_verif_govc_ground")
	cmd.Dir = repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		if factDir != "" && factCalls != "" {
			// the evaluations do not fit the source: their facts stay open
			factDir = ""
			return computeGround(p, repo, scratch)
		}
		return fmt.Errorf("ground values: %v\n%s", err, out)
	}
	cmd = exec.Command(exe)
	cmd.Dir = dir
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("ground values: %v", err)
	}
	var res [3]json.RawMessage
	if err := json.Unmarshal(out, &res); err != nil {
		return err
	}
	var o map[string]string
	json.Unmarshal(res[0], &o)
	json.Unmarshal(res[1], &groundMaps)
	json.Unmarshal(res[2], &groundFacts)
	for k, v := range o {
		b, ok := new(big.Int).SetString(v, 16)
		if !ok {
			return fmt.Errorf("ground value %s = %q", k, v)
		}
		groundConsts[k] = b
	}
	return nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local")
}

func saveGround(f string) error {
	g := groundFile{Consts: map[string]string{}, Maps: groundMaps, Facts: groundFacts}
	for k, v := range groundConsts {
		g.Consts[k] = v.Text(16)
	}
	b, _ := json.Marshal(g)
	return os.WriteFile(f, b, 0o644)
}

func loadGroundFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var g groundFile
	if err := json.Unmarshal(b, &g); err != nil {
		return err
	}
	groundMaps = g.Maps
	groundFacts = g.Facts
	for k, v := range g.Consts {
		groundConsts[k], _ = new(big.Int).SetString(v, 16)
	}
	return nil
}
