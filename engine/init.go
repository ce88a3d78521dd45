package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// initPackage runs a package's variable initialisers on the base state.
func (ex *Exec) initPackage(p *ssa.Package) {
	if ex.initDone[p] {
		return
	}
	ex.initDone[p] = true
	ex.P.build(p)
	st := ex.base
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		var z Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					z = Poison{"global of unsupported type"}
				}
			}()
			z = ex.zero(under(g.Type()).(*types.Pointer).Elem())
		}()
		if a, ok := z.(ArrV); ok {
			z = append(ArrV(nil), a...)
		}
		ex.globObj[g] = st.alloc(z, g.String())
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	saveT, saveC, saveMode := st.threads, st.cur, ex.initMode
	ex.initMode = true
	fi := ex.fnInfo(fn)
	th := &Thread{gen: st.gen, id: 0, name: "init"}
	th.frames = []*Frame{{gen: st.gen, fi: fi, regs: make([]Value, fi.nregs), retReg: -1}}
	st.threads = []*Thread{th}
	st.cur = 0
	steps := 0
	for len(th.frames) > 0 && th.status == TRun {
		th = st.mutThread(0)
		fr := st.mutFrame(th, len(th.frames)-1)
		in := fr.fi.fn.Blocks[fr.block].Instrs[fr.ip]
		steps++
		if steps > 3000000 {
			if ex.debug {
				fmt.Println("init step bound", p.Pkg.Path(), fr.fi.name)
			}
			break
		}
		if ex.initStep(st, th, fr, in) {
			break
		}
	}
	st.threads, st.cur, ex.initMode = saveT, saveC, saveMode
}

func (ex *Exec) initStep(st *State, th *Thread, fr *Frame, in ssa.Instruction) (stop bool) {
	depth := len(th.frames)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(restart); ok {
				// initialise what it needs, then run the instruction again
				for p := range ex.needInit {
					delete(ex.needInit, p)
					if ex.initDone[p] {
						panic("init loop " + p.Pkg.Path())
					}
					ex.initPackage(p)
				}
				return
			}
			if ex.debug && os.Getenv("VERIF_INITDEBUG") != "" {
				fmt.Println("init:", in, "in", fr.fi.name, ":", r)
			}
			// the instruction cannot be executed: its result is unknown
			th.frames = th.frames[:depth]
			th.status = TRun
			th.dec = th.dec[:0]
			fr = th.frames[depth-1]
			fr.panicking = false
			switch x := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				// abandon this function
				if depth == 1 {
					if _, ok := x.(*ssa.If); ok {
						stop = true
						return
					}
					stop = true
					return
				}
				th.frames = th.frames[:depth-1]
				par := st.mutFrame(th, depth-2)
				if fr.isDefer {
					return
				}
				if fr.retReg >= 0 {
					par.regs[fr.retReg] = Poison{"initialiser of " + fr.fi.name}
				}
				par.ip++
			case *ssa.Store:
				func() {
					defer func() { recover() }()
					if p, ok := ex.getRaw(fr, x.Addr).(Ptr); ok && p.obj != 0 {
						st.store(p, Poison{"not initialised"})
					}
				}()
				fr.ip++
			case ssa.Value:
				if t, ok := x.Type().(*types.Tuple); ok {
					tv := make(TupleV, t.Len())
					for i := range tv {
						tv[i] = Poison{"init"}
					}
					fr.regs[fr.fi.idx[x]] = tv
				} else {
					fr.regs[fr.fi.idx[x]] = Poison{fmt.Sprintf("initialised by %s in %s", in, fr.fi.name)}
				}
				fr.ip++
			default:
				fr.ip++
			}
		}
	}()
	// imported packages are initialised on demand only
	if c, ok := in.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != nil && f.Pkg != fr.fi.fn.Pkg && f.Synthetic != "" {
			fr.ip++
			return false
		}
	}
	if _, ok := in.(*ssa.Go); ok {
		fr.ip++
		return false
	}
	th.decPos = 0
	c := &Ctx{ex: ex, st: st, th: th, fr: fr, in: in}
	ex.exec(c)
	return false
}

var skipInit = map[string]bool{"runtime": true, "internal/godebug": true, "net": true, "net/http": true, "os": true, "syscall": true, "internal/poll": true,
	"golang.org/x/net/http2": true, "reflect": true, "go.uber.org/zap": true, "golang.org/x/net/trace": true, "crypto/tls": true, "internal/cpu": true, "go.mongodb.org/mongo-driver": true,
	"google.golang.org/protobuf/internal/impl": true}
