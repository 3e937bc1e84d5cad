package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/qbeon/webwire-go"

type Program struct {
	prog       *ssa.Program
	pkgs       []*ssa.Package
	byPath     map[string]*ssa.Package
	globals    []*ssa.Global
	gid        map[*ssa.Global]int
	pkgGlobals map[*ssa.Package][]*ssa.Global
	rtErrType  types.Type
	errStrType types.Type
	infos      sync.Map // *ssa.Function -> *fnInfo
	methods    sync.Map // methodKey -> *ssa.Function
	impls      sync.Map
}

type methodKey struct {
	t  types.Type
	id string
}

func loadProgram(dir string, pats []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d package errors", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, byPath: map[string]*ssa.Package{}, gid: map[*ssa.Global]int{}, pkgGlobals: map[*ssa.Package][]*ssa.Global{}}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, pk := range all {
		p.byPath[pk.Pkg.Path()] = pk
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := pk.Members[n].(*ssa.Global); ok {
				p.gid[g] = len(p.globals)
				p.globals = append(p.globals, g)
				p.pkgGlobals[pk] = append(p.pkgGlobals[pk], g)
			}
		}
	}
	rt := p.byPath["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("runtime package not loaded")
	}
	p.rtErrType = rt.Type("errorString").Type()
	if e := p.byPath["errors"]; e != nil {
		p.errStrType = types.NewPointer(e.Type("errorString").Type())
	}
	return p, nil
}

func (p *Program) isRepo(pkg *ssa.Package) bool {
	return pkg != nil && (isRepoPath(pkg.Pkg.Path()) || strings.HasPrefix(pkg.Pkg.Path(), "verifh/"))
}

func isRepoPath(s string) bool {
	return (s == repoPath || strings.HasPrefix(s, repoPath+"/")) && !strings.Contains(s, "/vendor/")
}

// skipInit lists packages whose initialisers are replaced by presets
func (p *Program) skipInit(pkg *ssa.Package) bool {
	switch pkg.Pkg.Path() {
	case "runtime", "os", "syscall", "net", "reflect", "log", "internal/poll", "crypto/rand",
		"internal/godebug", "internal/cpu", "unsafe", "time", "internal/syscall/unix", "internal/testlog", "sync", "sync/atomic", "internal/reflectlite", "encoding/json", "math/rand", "math/rand/v2":
		return true
	}
	return strings.HasPrefix(pkg.Pkg.Path(), "runtime/") || strings.HasPrefix(pkg.Pkg.Path(), "internal/runtime/") || strings.HasPrefix(pkg.Pkg.Path(), "crypto/")
}

func (p *Program) findFunc(pkg, name string) *ssa.Function {
	pk := p.byPath[pkg]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Id()}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f != nil {
		p.methods.Store(k, f)
	}
	return f
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	k := methodKey{t, "#" + name}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			f := p.prog.MethodValue(s)
			p.methods.Store(k, f)
			return f
		}
	}
	p.methods.Store(k, (*ssa.Function)(nil))
	return nil
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	type ik struct {
		t types.Type
		i *types.Interface
	}
	k := ik{t, it}
	if b, ok := p.impls.Load(k); ok {
		return b.(bool)
	}
	m, _ := types.MissingMethod(t, it, true)
	p.impls.Store(k, m == nil)
	return m == nil
}

func shortFile(pos token.Position) string {
	f := pos.Filename
	if i := strings.Index(f, repoPath+"/"); i >= 0 {
		return f[i+len(repoPath)+1:]
	}
	if strings.HasPrefix(f, "/repo/") {
		return f[len("/repo/"):]
	}
	if i := strings.Index(f, "/verifh/"); i >= 0 {
		return f[i+1:]
	}
	return filepath.Base(f)
}

// ---- pre-resolved functions ----

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
	okNone
)

type operand struct {
	k opKind
	i int32
	v Value
	g *ssa.Global
}

type cInstr struct {
	in  ssa.Instruction
	dst int32
	ops []operand
	aux interface{}
}

type cBlock struct {
	phis  []cInstr
	ins   []cInstr
	preds []*ssa.BasicBlock
	succs []int
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cBlock
	hasDefer bool
	isRepo   bool
	isHarn   bool
	recover  int
	intr     intrinsic
	noBody   bool
	pkgInit  bool
	name     string
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if x, ok := p.infos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := p.compile(fn)
	x, _ := p.infos.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

var buildMu sync.Mutex

func (p *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, recover: -1, name: fn.String()}
	base := fn
	if o := fn.Origin(); o != nil {
		base = o
	}
	fi.intr = lookupIntrinsic(base.String())
	fi.pkgInit = fn.Name() == "init" && fn.Parent() == nil && fn.Synthetic == "package initializer"
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	var pkg *types.Package
	if root.Pkg != nil {
		pkg = root.Pkg.Pkg
	} else if root.Object() != nil {
		pkg = root.Object().Pkg()
	}
	if pkg != nil {
		fi.isRepo = isRepoPath(pkg.Path())
		fi.isHarn = strings.HasPrefix(pkg.Path(), "verifh/")
	}
	if fi.intr != nil {
		return fi
	}
	buildMu.Lock()
	if fn.Blocks == nil && fn.Synthetic != "" {
		// generic instances etc. are built by prog.Build already
	}
	buildMu.Unlock()
	if len(fn.Blocks) == 0 {
		fi.noBody = true
		return fi
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		idx[v] = n
		n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = int(n)
	mkop := func(v ssa.Value) operand {
		if v == nil {
			return operand{k: okNone}
		}
		if i, ok := idx[v]; ok {
			return operand{k: okReg, i: i}
		}
		switch c := v.(type) {
		case *ssa.Const:
			return operand{k: okConst, v: constValue(c)}
		case *ssa.Global:
			return operand{k: okGlobal, g: c}
		case *ssa.Function:
			return operand{k: okConst, v: &Closure{fn: c}}
		case *ssa.Builtin:
			return operand{k: okConst, v: &Closure{bi: c}}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	fi.blocks = make([]cBlock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.preds = b.Preds
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cInstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDefer = true
			}
			if ph, ok := in.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					ci.ops = append(ci.ops, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				ci.ops = append(ci.ops, mkop(cc.Value))
				for _, a := range cc.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
			} else {
				var rands [8]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if r == nil {
						ci.ops = append(ci.ops, operand{k: okNone})
					} else {
						ci.ops = append(ci.ops, mkop(*r))
					}
				}
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	return fi
}
