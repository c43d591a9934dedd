package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loader struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	order    []*ssa.Package
	gnum     map[*ssa.Global]int
	globals  []*ssa.Global
	fns      sync.Map
	closures sync.Map
	impl     sync.Map
	meths    sync.Map
	byName   map[string]*cfn
	byNameMu sync.Mutex
	repoPath string
	hPath    string
	hpkg     *ssa.Package
	embeds   []embedVar
	rtErr    types.Type // runtime error string type
	rtPlain  types.Type
	rtypeT   types.Type // *reflect.rtype
	debug    bool
	tmplErr  types.Type
	wrapErr  types.Type // *fmt.wrapError
	errStr   types.Type // *errors.errorString
}

type embedVar struct {
	g     *ssa.Global
	kind  string
	files map[string]string
}

func load(dir, repoPath, hPath string) (*Loader, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir: dir,
		Env: append(os.Environ(), "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, hPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	ld := &Loader{prog: prog, pkgs: ps, gnum: map[*ssa.Global]int{}, repoPath: repoPath, hPath: hPath, byName: map[string]*cfn{}}
	ld.hpkg = sp[0]
	// topological order
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		s := prog.Package(p.Types)
		if s == nil {
			return
		}
		ld.order = append(ld.order, s)
		names := sortedKeys(s.Members)
		for _, n := range names {
			if g, ok := s.Members[n].(*ssa.Global); ok {
				ld.gnum[g] = len(ld.globals)
				ld.globals = append(ld.globals, g)
			}
		}
		if len(p.EmbedFiles) > 0 {
			ld.findEmbeds(p, s)
		}
	}
	for _, p := range ps {
		visit(p)
	}
	if r := prog.ImportedPackage("runtime"); r != nil {
		ld.rtErr = canon(r.Type("errorString").Type())
		ld.rtPlain = canon(r.Type("plainError").Type())
	}
	if r := prog.ImportedPackage("reflect"); r != nil {
		ld.rtypeT = canon(types.NewPointer(r.Type("rtype").Type()))
	}
	if r := prog.ImportedPackage("fmt"); r != nil {
		ld.wrapErr = canon(types.NewPointer(r.Type("wrapError").Type()))
	}
	if r := prog.ImportedPackage("errors"); r != nil {
		ld.errStr = canon(types.NewPointer(r.Type("errorString").Type()))
	}
	return ld, nil
}

func (ld *Loader) globalNum(g *ssa.Global) int {
	n, ok := ld.gnum[g]
	if !ok {
		panic("unknown global " + g.String())
	}
	return n
}

func (ld *Loader) findEmbeds(p *packages.Package, s *ssa.Package) {
	for i, f := range p.Syntax {
		dir := filepath.Dir(p.CompiledGoFiles[i])
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				var pats []string
				for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						if strings.HasPrefix(c.Text, "//go:embed ") {
							pats = append(pats, strings.Fields(c.Text[len("//go:embed "):])...)
						}
					}
				}
				if len(pats) == 0 || len(vs.Names) != 1 {
					continue
				}
				g, _ := s.Members[vs.Names[0].Name].(*ssa.Global)
				if g == nil {
					continue
				}
				ev := embedVar{g: g, files: map[string]string{}}
				for _, ef := range p.EmbedFiles {
					rel, err := filepath.Rel(dir, ef)
					if err != nil {
						continue
					}
					for _, pat := range pats {
						pat = strings.Trim(strings.TrimPrefix(pat, "all:"), "\"`")
						ok, _ := path.Match(pat, rel)
						if !ok {
							// directory match on a prefix of the path
							parts := strings.Split(rel, "/")
							for k := 1; k < len(parts) && !ok; k++ {
								ok, _ = path.Match(pat, strings.Join(parts[:k], "/"))
							}
						}
						if ok {
							data, err := os.ReadFile(ef)
							if err == nil {
								ev.files[rel] = string(data)
							}
						}
					}
				}
				ld.embeds = append(ld.embeds, ev)
			}
		}
	}
}

func (ld *Loader) fnByName(name string) *cfn {
	ld.byNameMu.Lock()
	defer ld.byNameMu.Unlock()
	if c, ok := ld.byName[name]; ok {
		return c
	}
	k := strings.LastIndex(name, ".")
	p := ld.prog.ImportedPackage(name[:k])
	if p == nil {
		panic("no package for " + name)
	}
	f := p.Func(name[k+1:])
	if f == nil {
		panic("no function " + name)
	}
	c := ld.cfnOf(f)
	ld.byName[name] = c
	return c
}

func skipInit(p string) bool {
	switch p {
	case "runtime", "os", "syscall", "reflect", "sync", "sync/atomic", "testing", "embed", "log", "flag",
		"hash/crc32", "compress/flate", "crypto/md5", "unsafe", "math/rand", "net", "crypto":
		return true
	}
	if strings.HasPrefix(p, "internal/") {
		return p != "internal/oserror" && p != "internal/strconv" && p != "internal/itoa"
	}
	return strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "vendor/")
}

func (ld *Loader) newMachine(e *Engine, id int) *Machine {
	m := &Machine{eng: e, id: id, tc: newTermCtx(), killAck: make(chan bool), onceDone: map[Ptr]bool{}}
	m.sol = newSolver(solverPath(), 10000)
	m.slab = make([]Value, 1<<18)
	m.fnSeen = map[*cfn]bool{}
	m.maxStep = 400_000_000
	m.globals = make([]Value, len(ld.globals))
	for i, g := range ld.globals {
		t := g.Type().(*types.Pointer).Elem()
		if skipInit(g.Pkg.Pkg.Path()) && typeCells(t) > 1024 {
			continue
		}
		m.globals[i] = zero(t)
	}
	for _, ev := range ld.embeds {
		m.fillEmbed(ev)
	}
	m.resetPath(nil)
	m.initing = true
	for _, p := range ld.order {
		if skipInit(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case pathEnd:
						e.note("init of " + p.Pkg.Path() + " incomplete: " + x.msg)
					case *goPanic:
						e.note("init of " + p.Pkg.Path() + " panics: " + m.panicString(x))
					default:
						if ld.debug {
							panic(r)
						}
						e.note(fmt.Sprintf("init of %s: engine: %v", p.Pkg.Path(), r))
					}
					m.depth, m.sp = 0, 0
				}
			}()
			m.callFn(nil, ld.cfnOf(f), nil, nil)
		}()
	}
	// package os: errors are shared with io/fs
	ld.copyGlobals(m, "os", "io/fs", "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed")
	if w := ld.hpkg.Func("Warm"); w != nil {
		// fill the caches (encoding/xml type information) every path would fill
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.note(fmt.Sprint("warm-up incomplete: ", r))
					m.depth, m.sp = 0, 0
				}
			}()
			m.callFn(nil, ld.cfnOf(w), nil, nil)
		}()
	}
	m.initing = false
	m.fnSeen = map[*cfn]bool{}
	m.takeSnapshot()
	return m
}

func (ld *Loader) copyGlobals(m *Machine, to, from string, names ...string) {
	pt, pf := ld.prog.ImportedPackage(to), ld.prog.ImportedPackage(from)
	if pt == nil || pf == nil {
		return
	}
	for _, n := range names {
		a, _ := pt.Members[n].(*ssa.Global)
		b, _ := pf.Members[n].(*ssa.Global)
		if a != nil && b != nil {
			m.globals[ld.gnum[a]] = m.globals[ld.gnum[b]]
		}
	}
}

func (m *Machine) fillEmbed(ev embedVar) {
	n := m.eng.ld.gnum[ev.g]
	t := ev.g.Type().(*types.Pointer).Elem()
	if nt, ok := t.(*types.Named); ok && nt.Obj().Name() == "FS" {
		all := map[string]string{}
		for f, d := range ev.files {
			all[f] = d
			for dir := path.Dir(f); dir != "."; dir = path.Dir(dir) {
				all[dir+"/"] = ""
			}
		}
		split := func(name string) (string, string) {
			name = strings.TrimSuffix(name, "/")
			i := strings.LastIndex(name, "/")
			if i < 0 {
				return ".", name
			}
			return name[:i], name[i+1:]
		}
		ks := sortedKeys(all)
		sort.SliceStable(ks, func(i, j int) bool {
			d1, e1 := split(ks[i])
			d2, e2 := split(ks[j])
			return d1 < d2 || d1 == d2 && e1 < e2
		})
		sl := Slice{}
		for _, k := range ks {
			h := make(Array, 16)
			for i := range h {
				h[i] = mkI(0)
			}
			sl = append(sl, Struct{k, all[k], h})
		}
		p := new(Value)
		*p = sl
		m.globals[n] = Struct{p}
		return
	}
	for _, d := range ev.files {
		if _, ok := t.Underlying().(*types.Slice); ok {
			m.globals[n] = Slice(m.strBytes(d))
		} else {
			m.globals[n] = d
		}
	}
}

// typeCells is the number of cells a value of type t takes.
func typeCells(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := int64(1)
		for i := 0; i < u.NumFields(); i++ {
			n += typeCells(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return 1 + u.Len()*typeCells(u.Elem())
	}
	return 1
}

var readOnlyPkgs = map[string]bool{"unicode": true, "unicode/utf8": true, "strconv": true, "math": true, "math/bits": true, "unicode/utf16": true}

// takeSnapshot records every cell reachable from the globals.
func (m *Machine) takeSnapshot() {
	seenP := map[Ptr]bool{}
	seenM := map[*Map]bool{}
	seenS := map[Ptr]bool{}
	var val func(v Value)
	var cell func(p Ptr)
	cell = func(p Ptr) {
		if p == nil || seenP[p] {
			return
		}
		seenP[p] = true
		m.snap = append(m.snap, snapCell{p, *p})
		val(*p)
	}
	seq := func(s []Value) {
		if cap(s) == 0 {
			return
		}
		s = s[:cap(s)]
		if seenS[&s[0]] && seenS[&s[len(s)-1]] {
			return
		}
		seenS[&s[0]], seenS[&s[len(s)-1]] = true, true
		for i := range s {
			cell(&s[i])
		}
	}
	val = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			cell(x)
		case Struct:
			seq(x)
		case Array:
			seq(x)
		case Slice:
			seq(x)
		case Iface:
			val(x.v)
		case *Closure:
			if x != nil {
				seq(x.env)
			}
		case *Map:
			if x == nil || seenM[x] {
				return
			}
			seenM[x] = true
			sm := snapMap{mp: x}
			for _, e := range x.ents {
				sm.ents = append(sm.ents, *e)
				val(e.k)
				val(e.v)
			}
			m.snapMap = append(m.snapMap, sm)
		case RV:
			val(x.v)
			val(x.p)
		}
	}
	for i, g := range m.eng.ld.globals {
		if readOnlyPkgs[g.Pkg.Pkg.Path()] {
			continue
		}
		n := len(m.snap)
		cell(&m.globals[i])
		if k := len(m.snap) - n; m.eng.ld.debug && k > 500 && m.id == 0 {
			fmt.Println("snapshot:", g.String(), k)
		}
	}
}

// restore puts every snapshotted cell back.
func (m *Machine) restore() {
	for _, c := range m.snap {
		*c.p = c.v
	}
	for _, s := range m.snapMap {
		mp := s.mp
		if len(mp.ents) == len(s.ents) {
			same := true
			for i, e := range mp.ents {
				if e.dead {
					same = false
					break
				}
				e.k, e.v = s.ents[i].k, s.ents[i].v
			}
			if same {
				continue
			}
		}
		mp.ents = mp.ents[:0:0]
		mp.idx = map[any]*mapEntry{}
		mp.n, mp.nsym = 0, 0
		for _, e := range s.ents {
			ne := &mapEntry{k: e.k, v: e.v}
			mp.ents = append(mp.ents, ne)
			mp.n++
			if hk, ok := hashKey(ne.k); ok {
				mp.idx[hk] = ne
			} else {
				mp.nsym++
			}
		}
	}
}

func solverPath() string {
	if p := os.Getenv("VERIF_SOLVER"); p != "" {
		return p
	}
	for _, p := range []string{"/usr/local/bin/z3-new", "z3-new", "z3"} {
		if q, err := lookPath(p); err == nil {
			return q
		}
	}
	return "z3"
}

// globalValue is the value of a package variable.
func (m *Machine) globalValue(pkg, name string) Value {
	p := m.eng.ld.prog.ImportedPackage(pkg)
	g := p.Members[name].(*ssa.Global)
	switch v := m.globals[m.eng.ld.gnum[g]].(type) {
	case Ptr:
		return *v
	default:
		return v
	}
}
