package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pojol/braid"

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	overlay map[string]string // repo path -> /verif path
	built   map[*ssa.Package]bool
	dropped map[string]string // harness files that do not typecheck against this tree
	mu      sync.Mutex
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOWORK", "GOPATH", "GOMODCACHE", "HOME", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"HOME=/root", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
}

// overlayFor maps every file under /verif/harness into the repository tree.
func overlayFor(verif, repo string) (map[string]string, error) {
	ov := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		ov[filepath.Join(repo, rel)] = p
		return nil
	})
	return ov, err
}

func loadProgram(verif, repo string, patterns []string) (*Program, error) {
	ov, err := overlayFor(verif, repo)
	if err != nil {
		return nil, err
	}
	for k := range ov {
		if strings.HasSuffix(k, "_test.go") {
			delete(ov, k)
		}
	}
	// go list runs from PATH
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	var ps []*packages.Package
	dropped := map[string]string{}
	for try := 0; ; try++ {
		content := map[string][]byte{}
		for k, v := range ov {
			b, err := os.ReadFile(v)
			if err != nil {
				return nil, err
			}
			content[k] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: repoEnv(), Overlay: content}
		ps, err = packages.Load(cfg, append(patterns, modPath+"/verifsym")...)
		if err != nil {
			return nil, err
		}
		var errs []string
		bad := map[string]string{}
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, p.PkgPath+": "+e.Error())
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if _, ok := ov[f]; ok && !strings.Contains(f, "/verifsym/") {
					bad[f] = e.Msg
				}
			}
		})
		// a harness file that does not fit this tree is left out; the others still decide
		for f, m := range bad {
			v := ov[f]
			delete(ov, f)
			dropped[v] = m
			if _, err := os.Stat(v + ".alt"); err == nil {
				ov[f] = v + ".alt" // a stand-in that ends the paths which need the file
			}
		}
		again := len(bad) > 0 && try < 4
		if again {
			continue
		}
		if len(errs) > 0 {
			return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 8)], "\n"))
		}
		break
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, overlay: ov, dropped: dropped, built: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	return P, nil
}

func (P *Program) build(p *ssa.Package) {
	if p == nil {
		return
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	if !P.built[p] {
		p.Build()
		P.built[p] = true
	}
}

// ---- per-function data

type FnInfo struct {
	fn     *ssa.Function
	name   string
	user   bool
	idx    map[ssa.Value]int
	nregs  int
	live   map[int][]int // (block<<16|ip) -> live regs
	bliveo [][]uint64
	file   string
}

func (ex *Exec) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.fns[fn]; ok {
		return fi
	}
	if p := fn.Package(); p != nil {
		ex.P.build(p)
	}
	if o := fn.Origin(); o != nil && o.Package() != nil {
		ex.P.build(o.Package())
	}
	fi := &FnInfo{fn: fn, name: fn.String(), idx: map[ssa.Value]int{}, live: map[int][]int{}}
	n := 0
	for _, p := range fn.Params {
		fi.idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.user = ex.isUserFn(fn)
	ex.fns[fn] = fi
	return fi
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if r := f.Signature.Recv(); r != nil {
			if n, ok := derefNamed(r.Type()); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func derefNamed(t types.Type) (*types.Named, bool) {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return n, ok
}

func (ex *Exec) isUserFn(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return strings.HasPrefix(p, modPath) && p != modPath+"/verifsym"
}

// liveness: registers live just before instruction (block, ip)
func (ex *Exec) liveAt(fi *FnInfo, b, ip int) []int {
	key := b<<16 | ip
	if l, ok := fi.live[key]; ok {
		return l
	}
	words := (fi.nregs + 63) / 64
	fn := fi.fn
	if fi.bliveo == nil {
		nb := len(fn.Blocks)
		livein := make([][]uint64, nb)
		fi.bliveo = make([][]uint64, nb)
		for i := range livein {
			livein[i] = make([]uint64, words)
			fi.bliveo[i] = make([]uint64, words)
		}
		for changed := true; changed; {
			changed = false
			for bi := nb - 1; bi >= 0; bi-- {
				blk := fn.Blocks[bi]
				out := make([]uint64, words)
				for _, s := range blk.Succs {
					for w := range out {
						out[w] |= livein[s.Index][w]
					}
					// phi operands are used on the edge
					pi := -1
					for k, p := range s.Preds {
						if p == blk {
							pi = k
							break
						}
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if pi >= 0 {
							if r, ok := fi.idx[ph.Edges[pi]]; ok {
								out[r/64] |= 1 << (r % 64)
							}
						}
					}
				}
				copy(fi.bliveo[bi], out)
				in := append([]uint64(nil), out...)
				ex.scanBack(fi, blk, 0, in)
				for w := range in {
					if in[w] != livein[bi][w] {
						livein[bi] = in
						changed = true
						break
					}
				}
			}
		}
	}
	l := append([]uint64(nil), fi.bliveo[b]...)
	ex.scanBack(fi, fn.Blocks[b], ip, l)
	var r []int
	for i := 0; i < fi.nregs; i++ {
		if l[i/64]>>(i%64)&1 == 1 {
			r = append(r, i)
		}
	}
	if fn.Recover != nil { // the recover block may read named results
		have := map[int]bool{}
		for _, x := range r {
			have[x] = true
		}
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := fi.idx[*op]; ok && !have[k] {
					have[k] = true
					r = append(r, k)
				}
			}
		}
	}
	fi.live[key] = r
	return r
}

func (ex *Exec) scanBack(fi *FnInfo, blk *ssa.BasicBlock, from int, live []uint64) {
	for i := len(blk.Instrs) - 1; i >= from; i-- {
		in := blk.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			k := fi.idx[v]
			live[k/64] &^= 1 << (k % 64)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if k, ok := fi.idx[*op]; ok {
				live[k/64] |= 1 << (k % 64)
			}
		}
	}
}
