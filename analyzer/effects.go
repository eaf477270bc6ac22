package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Checks of effects and sharing: C11, C12, C23.

// effects runs the pointer analysis from every entry point of the library.
func (c *Run) effects() *alias {
	a := newAlias(c.p)
	for _, r := range c.p.paths {
		sp := c.p.pkgs[r]
		if f := sp.Func("init"); f != nil {
			if fr := a.frame(nil, f, nil, true); fr != nil {
				a.init = append(a.init, fr)
			}
		}
	}
	for _, r := range c.p.paths {
		sp := c.p.pkgs[r]
		for _, fn := range c.p.oneShot(r) {
			a.entryFor(fn, fn.RelString(nil), nil, nil)
		}
		// Values that callers make themselves.
		for _, n := range memberNames(sp) {
			tn, ok := sp.Members[n].(*ssa.Type)
			if !ok || !tn.Object().Exported() || types.IsInterface(tn.Type()) {
				continue
			}
			pt := types.NewPointer(tn.Type())
			o := &aobj{kind: akUser, name: "a new " + n, cont: anode{}, typ: tn.Type()}
			a.methods(pt, anode{"": locset{aloc{o, ""}: true}}, "new("+n+")", 0)
		}
	}
	a.solve()
	for fn := range a.functions() {
		c.funcs[fn.String()] = true
	}
	c.notes["function instances"] = a.frames
	c.notes["entry points"] = len(a.entries)
	c.notes["effects recorded"] = len(a.events)
	c.notes["call sites analysed"] = a.sites
	c.notes["rounds"] = a.rounds
	c.ob(len(a.entries) >= 30, "vacuous", "packages", "only %d entry points", len(a.entries))
	var us []string
	for u := range a.unknown {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		c.ob(false, "undecided", "pointer analysis", "%s", u)
	}
	return a
}

func (a *alias) functions() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var rec func(f *aframe)
	rec = func(f *aframe) {
		out[f.fn] = true
		for _, k := range f.kids {
			rec(k)
		}
	}
	for _, f := range a.init {
		rec(f)
	}
	for _, e := range a.entries {
		rec(e.fr)
	}
	return out
}

// entryFor makes fn an entry point, with arguments of the caller.
func (a *alias) entryFor(fn *ssa.Function, what string, recvType types.Type, recv anode) *aentry {
	if en := a.byKey[what]; en != nil {
		if recv != nil {
			a.flow(en.fr.params[0], "", recv, "")
			a.flow(en.recv, "", recv, "")
		}
		return en
	}
	if fn.Blocks == nil {
		a.unknown["no body of "+fn.RelString(nil)] = true
		return nil
	}
	fr := a.frame(nil, fn, nil, false)
	en := &aentry{fr: fr, what: what, recv: anode{}}
	fr.entry = en
	a.byKey[what] = en
	a.entries = append(a.entries, en)
	first := 0
	if recvType != nil {
		en.method = fn.Name()
		a.flow(fr.params[0], "", recv, "")
		a.flow(en.recv, "", recv, "")
		first = 1
	}
	for i := first; i < len(fn.Params); i++ {
		p := fn.Params[i]
		// The argument of Read and the first of Transform are for the result.
		out := recvType != nil && (en.method == "Read" || en.method == "Transform") && i == 1
		a.param(fr.params[i], "", p.Type(), p.Name(), en, !out, 0)
	}
	return en
}

func (a *alias) param(n anode, path string, t types.Type, name string, en *aentry, input bool, depth int) {
	if !pointers(t) || depth > 3 {
		return
	}
	mk := func(k akind) *aobj {
		o := &aobj{kind: k, name: "argument " + name + " of " + en.what, cont: anode{}, typ: t, entry: en, input: input}
		n.add(path, aloc{o, ""})
		en.params = append(en.params, o)
		a.changed = true
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a.param(mk(akParam).cont, "[]", u.Elem(), name, en, input, depth+1)
	case *types.Pointer:
		a.param(mk(akParam).cont, "", u.Elem(), name, en, input, depth+1)
	case *types.Map:
		o := mk(akParam)
		a.param(o.cont, "{k}", u.Key(), name, en, input, depth+1)
		a.param(o.cont, "{v}", u.Elem(), name, en, input, depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a.param(n, fmt.Sprintf("%s.%d;", path, i), u.Field(i).Type(), name, en, input, depth)
		}
	case *types.Array:
		a.param(n, path+"[]", u.Elem(), name, en, input, depth)
	default:
		mk(akExt)
	}
}

// methods makes entry points of the exported methods of a value.
func (a *alias) methods(t types.Type, recv anode, what string, depth int) {
	if depth > 4 {
		return
	}
	ms := a.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		if !m.Obj().Exported() || m.Obj().Pkg() == nil || modulePath(m.Obj().Pkg().Path(), a.p.module) != a.p.module {
			continue
		}
		if types.IsInterface(m.Recv()) {
			continue
		}
		fn := a.p.prog.MethodValue(m)
		if fn == nil {
			continue
		}
		a.entryFor(fn, what+"."+m.Obj().Name(), t, recv)
	}
}

// access visits what a caller can reach from a value of type t by exported
// means: elements, exported fields, what pointers point to.
func (a *alias) access(n anode, path string, t types.Type, what string, visit func(l aloc, t types.Type, what string), method func(t types.Type, n anode, what string)) {
	seen := map[string]bool{}
	var rec func(n anode, path string, t types.Type, what string, depth int)
	rec = func(n anode, path string, t types.Type, what string, depth int) {
		if depth > 8 || !pointers(t) {
			return
		}
		key := fmt.Sprintf("%p/%s/%s", n, path, t)
		if seen[key] {
			return
		}
		seen[key] = true
		if method != nil {
			method(t, n.sub(path), what)
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			for l := range n[path] {
				visit(l, u.Elem(), what)
				if method != nil && !pointers(u.Elem()) {
					continue
				}
				rec(l.o.cont, l.path, u.Elem(), what, depth+1)
			}
		case *types.Slice:
			for l := range n[path] {
				visit(l, u.Elem(), what)
				rec(l.o.cont, l.path+"[]", u.Elem(), what+"[]", depth+1)
			}
		case *types.Map:
			for l := range n[path] {
				visit(l, nil, what)
				rec(l.o.cont, l.path+"{k}", u.Key(), what, depth+1)
				rec(l.o.cont, l.path+"{v}", u.Elem(), what, depth+1)
			}
		case *types.Array:
			rec(n, path+"[]", u.Elem(), what+"[]", depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Exported() {
					rec(n, fmt.Sprintf("%s.%d;", path, i), u.Field(i).Type(), what+"."+u.Field(i).Name(), depth+1)
				}
			}
		case *types.Interface:
			for p := range n {
				if !strings.HasPrefix(p, path+"!") {
					continue
				}
				tag := p[len(path) : len(path)+2+strings.Index(p[len(path)+1:], "!")]
				dt := a.typeOfTag(tag)
				if dt == nil {
					continue
				}
				if exportedType(dt) {
					rec(n, path+tag, dt, what, depth+1)
				} else if method != nil {
					method(dt, n.sub(path+tag), what)
				}
			}
		}
	}
	rec(n, path, t, what, 0)
}

func exportedType(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Named:
			return u.Obj().Exported() || u.Obj().Pkg() == nil
		}
		return true
	}
}

// followResults makes entry points of the methods of what entry points return.
func (a *alias) followResults() {
	for i := 0; i < len(a.entries); i++ {
		en := a.entries[i]
		if strings.Count(en.what, ".") > 12 || strings.Count(en.what, "()") > 3 {
			continue
		}
		rs := en.fr.fn.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			a.access(en.fr.ret, fmt.Sprintf("#%d;", j), rs.At(j).Type(), en.what+"()", func(aloc, types.Type, string) {}, func(t types.Type, n anode, what string) {
				a.methods(t, n, what, 0)
			})
		}
	}
}

// results visits what the results of entry points give access to.
func (a *alias) results(f func(en *aentry, l aloc, t types.Type, what string)) {
	for _, en := range a.entries {
		rs := en.fr.fn.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			a.access(en.fr.ret, fmt.Sprintf("#%d;", j), rs.At(j).Type(), "result of "+en.what, func(l aloc, t types.Type, what string) {
				if t != nil && zeroSize(t) {
					return
				}
				f(en, l, t, what)
			}, nil)
		}
	}
}

func (a *alias) where(ev *aevent) string {
	site := ev.site
	q := a.p.prog.Fset.Position(site.Pos())
	for f := ev.fr; !q.IsValid() && f != nil; f = f.parent {
		if f.site != nil {
			q = a.p.prog.Fset.Position(f.site.Pos())
		}
	}
	return fmt.Sprintf("%s:%d (%s)", relPath(q.Filename), q.Line, site.Parent().RelString(nil))
}

func (a *alias) chain(fr *aframe) string {
	var out []string
	for f := fr; f != nil; f = f.parent {
		out = append([]string{f.fn.RelString(nil)}, out...)
	}
	return strings.Join(out, " -> ")
}

func (a *alias) sorted(kind string) []*aevent {
	var out []*aevent
	for _, ev := range a.events {
		if ev.kind == kind {
			out = append(out, ev)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		x, y := a.where(out[i])+a.chain(out[i].fr)+out[i].msg, a.where(out[j])+a.chain(out[j].fr)+out[j].msg
		return x < y
	})
	return out
}

func memory(l aloc) bool { return l.o.typ == nil || !zeroSize(l.o.typ) }

// locks are the mutexes certainly held at an instruction.
func (a *alias) locks(fr *aframe, site ssa.Instruction) locset {
	out := locset{}
	for f, s := fr, site; f != nil && s != nil; f, s = f.parent, f.site {
		for _, ev := range a.events {
			if ev.kind != "lock" || ev.fr != f || strings.HasSuffix(ev.msg, "Unlock") || strings.HasSuffix(ev.msg, "TryLock") || !instrDominates(ev.site, s) {
				continue
			}
			if len(ev.locs) != 1 {
				continue
			}
			free := false
			for _, un := range a.events {
				if un.kind != "lock" || un.fr != f || !strings.HasSuffix(un.msg, "Unlock") {
					continue
				}
				if _, deferred := un.site.(*ssa.Defer); deferred {
					continue
				}
				if reaches(ev.site, un.site) && reaches(un.site, s) && !(instrDominates(s, un.site) && s.Block() == un.site.Block()) {
					free = true
				}
			}
			if !free {
				for l := range ev.locs {
					if l.o.shared() {
						out[l] = true
					}
				}
			}
		}
	}
	return out
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == b {
			return false
		}
		if in == a {
			return true
		}
	}
	return false
}

// reaches: control may go from a to b.
func reaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrDominates(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b.Block() {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if rec(y) {
					return true
				}
			}
		}
		return false
	}
	return rec(a.Block())
}

// initialised: one of the sync.Once values has certainly run at an instruction.
func (a *alias) initialised(fr *aframe, site ssa.Instruction, onces locset) bool {
	meet := func(ls locset) bool {
		for l := range ls {
			if onces[l] {
				return true
			}
		}
		return false
	}
	var ensures func(f *aframe, depth int) bool
	before := func(f *aframe, s ssa.Instruction, depth int) bool {
		for in, ls := range f.onces {
			if meet(ls) && instrDominates(in, s) {
				return true
			}
		}
		for _, k := range f.kids {
			if k.site != nil && instrDominates(k.site, s) && depth < 6 && ensures(k, depth+1) {
				return true
			}
		}
		return false
	}
	ensures = func(f *aframe, depth int) bool {
		n := 0
		for _, b := range f.fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !before(f, r, depth) {
					return false
				}
			}
		}
		return n > 0
	}
	for f, s := fr, site; f != nil && s != nil; f, s = f.parent, f.site {
		if before(f, s, 0) {
			return true
		}
	}
	return false
}

// sharedWrites reports writes to shared memory after initialisation. With
// guarded true, writes are allowed where every access holds one mutex.
func (c *Run) sharedWrites(a *alias, guarded bool) {
	type access struct {
		ev   *aevent
		held locset
	}
	acc := map[*aobj][]access{}
	written := map[*aobj]bool{}
	n := 0
	for _, kind := range []string{"write", "read"} {
		for _, ev := range a.sorted(kind) {
			n++
			for l := range ev.locs {
				if !l.o.shared() || !memory(l) {
					continue
				}
				if kind == "read" && !written[l.o] && a.once[l.o] == nil {
					continue
				}
				if kind == "write" {
					written[l.o] = true
				}
				var held locset
				if guarded {
					held = a.locks(ev.fr, ev.site)
				}
				acc[l.o] = append(acc[l.o], access{ev, held})
			}
		}
	}
	c.obls += n
	c.notes["accesses examined"] += n
	var os []*aobj
	for o := range acc {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].name < os[j].name })
	for _, o := range os {
		if written[o] {
			common := locset{}
			for i, x := range acc[o] {
				if i == 0 {
					for l := range x.held {
						common[l] = true
					}
					continue
				}
				for l := range common {
					if !x.held[l] {
						delete(common, l)
					}
				}
			}
			if guarded && len(common) > 0 {
				c.sample("%s is only accessed with a mutex held", o.name)
				continue
			}
			for _, x := range acc[o] {
				if x.ev.kind == "write" {
					c.ob(false, "shared write", a.where(x.ev), "%s %s, which is shared between calls (call chain %s)", x.ev.msg, o.name, a.chain(x.ev.fr))
				}
			}
			continue
		}
		for _, x := range acc[o] {
			if o.kind == akGlobal {
				c.ob(a.initialised(x.ev.fr, x.ev.site, a.once[o]), "once", a.where(x.ev), "reads %s, which is initialised under a sync.Once that is not known to have run (call chain %s)", o.name, a.chain(x.ev.fr))
			}
		}
	}
}

// handedOut reports results that give access to shared memory.
func (c *Run) handedOut(a *alias) {
	pooled := a.pool()
	seen := map[string]bool{}
	a.results(func(en *aentry, l aloc, t types.Type, what string) {
		c.obls++
		key := what + l.o.name
		if l.o.shared() && memory(l) && l.o.kind != akOpaque && !seen[key] {
			seen[key] = true
			c.ob(false, "shared result", c.pos(en.fr.fn), "the %s gives access to %s, which is shared between calls", what, l.o.name)
		}
		if pooled[l.o] && !seen[key] {
			seen[key] = true
			c.ob(false, "shared result", c.pos(en.fr.fn), "the %s gives access to %s, which goes back to a pool", what, l.o.name)
		}
	})
	// Exported variables are writable by everyone; they must not be part of
	// the tables.
	for _, r := range c.p.paths {
		sp := c.p.pkgs[r]
		for _, n := range memberNames(sp) {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || g.Object() == nil || !g.Object().Exported() {
				continue
			}
			o := a.globals[g]
			if o == nil {
				continue
			}
			a.access(o.cont, "", o.typ, "variable "+n, func(l aloc, t types.Type, what string) {
				c.obls++
				if l.o.shared() && memory(l) && l.o.kind != akOpaque && !(t != nil && zeroSize(t)) {
					c.ob(false, "shared result", r+"."+n, "the exported variable %s gives access to %s", n, l.o.name)
				}
			}, nil)
		}
	}
	c.notes["results followed"] = c.notes["results followed"] + len(a.entries)
}

// pool is the memory reachable from the contents of sync.Pool values.
func (a *alias) pool() map[*aobj]bool {
	out := map[*aobj]bool{}
	for _, g := range a.globals {
		for p, ls := range g.cont {
			if strings.Contains(p, "<pool>") {
				reach(anode{"": ls}, func(l aloc) {
					if !l.o.shared() {
						out[l.o] = true
					}
				})
			}
		}
	}
	return out
}

var hidden = []string{"time.", "math/rand.", "math/rand/v2.", "crypto/rand.", "os.", "runtime.", "syscall.", "net."}

func checkState(c *Run) {
	a := c.effects()
	c.sharedWrites(a, false)
	c.handedOut(a)
	c.sharedResults(a)
	for _, ev := range a.sorted("once") {
		c.ob(false, "once", a.where(ev), "%s (call chain %s)", ev.msg, a.chain(ev.fr))
	}
	for _, ev := range a.sorted("order") {
		c.ob(false, "order", a.where(ev), "the order of a range over a map may show in the result (call chain %s)", a.chain(ev.fr))
	}
	for _, ev := range a.sorted("concurrency") {
		c.ob(false, "order", a.where(ev), "%s: the result may depend on the schedule (call chain %s)", ev.msg, a.chain(ev.fr))
	}
	for _, ev := range a.sorted("call") {
		name := strings.TrimLeft(ev.msg, "(*")
		for _, h := range hidden {
			if strings.HasPrefix(name, h) {
				c.ob(false, "hidden input", a.where(ev), "the result may depend on %s (call chain %s)", ev.msg, a.chain(ev.fr))
			}
		}
	}
	c.initOrder()
	c.sample("%d entry points, %d function instances: no write to package-level memory, no result that refers to it", len(a.entries), a.frames)
}

// initOrder: initialisation gives the same tables for every order in which a
// range over a map may visit its entries.
func (c *Run) initOrder() {
	ranges := 0
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						ranges++
					}
				case ssa.CallInstruction:
					if f := in.Common().StaticCallee(); f != nil && inModule(f, c.p.module) {
						visit(f)
					}
				}
			}
		}
		for _, f := range fn.AnonFuncs {
			visit(f)
		}
	}
	for _, r := range c.p.paths {
		if f := c.p.pkgs[r].Func("init"); f != nil {
			visit(f)
		}
	}
	c.notes["ranges over maps during initialisation"] = ranges
	c.obls++
	if ranges == 0 {
		return
	}
	e1, s1 := c.engDir(false)
	e2, s2 := c.engDir(true)
	for _, r := range c.p.paths {
		sp := c.p.pkgs[r]
		for _, n := range memberNames(sp) {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || strings.HasPrefix(n, "init$") {
				continue
			}
			k1 := deepKey(s1, e1.globalPtr(s1, g), 0)
			k2 := deepKey(s2, e2.globalPtr(s2, g), 0)
			c.ob(k1 == k2, "order", r+"."+n, "the content of %s depends on the order in which a range over a map visits the entries", n)
		}
	}
}

func checkRaces(c *Run) {
	a := c.effects()
	c.sharedWrites(a, true)
	c.handedOut(a)
	c.sharedResults(a)
	for _, ev := range a.sorted("concurrency") {
		c.ob(false, "concurrency", a.where(ev), "%s (call chain %s)", ev.msg, a.chain(ev.fr))
	}
	c.sample("%d entry points, %d function instances: every write goes to memory of the call or the receiver", len(a.entries), a.frames)
}

func checkCaller(c *Run) {
	a := c.effects()
	input := func(en *aentry) bool {
		return en != nil && (en.method == "Transform" || en.method == "Write" || en.method == "" && (strings.HasSuffix(en.what, "cp949.From") || strings.HasSuffix(en.what, "cp949.To")))
	}
	seenEntries := map[string]bool{}
	for _, en := range a.entries {
		if input(en) {
			name := en.method
			if name == "" {
				name = en.fr.fn.Name()
			}
			seenEntries[name] = true
		}
	}
	for _, n := range []string{"From", "To", "Transform", "Write"} {
		c.ob(seenEntries[n], "vacuous", "entry points", "no entry point %s", n)
	}
	// Writes to the input.
	for _, ev := range a.sorted("write") {
		c.obls++
		for l := range ev.locs {
			if l.o.kind == akParam && l.o.input && input(l.o.entry) {
				c.ob(false, "writes input", a.where(ev), "%s %s (call chain %s)", ev.msg, l.o.name, a.chain(ev.fr))
			}
		}
	}
	// References that remain.
	kept := func(n anode, what, where string) {
		c.obls++
		seen := map[*aobj]bool{}
		reach(n, func(l aloc) {
			if l.o.kind == akParam && l.o.input && input(l.o.entry) && !seen[l.o] {
				seen[l.o] = true
				c.ob(false, "keeps input", where, "%s keeps a reference to %s", what, l.o.name)
			}
		})
	}
	for _, en := range a.entries {
		if en.method != "" {
			kept(en.recv, "the receiver of "+en.what, c.pos(en.fr.fn))
		}
	}
	for v, g := range a.globals {
		if gv, ok := v.(*ssa.Global); ok && gv.Pkg != nil && modulePath(gv.Pkg.Pkg.Path(), a.p.module) == a.p.module {
			kept(g.cont, "the variable "+g.name, g.name)
		}
	}
	// Results of From and To.
	pooled := a.pool()
	for _, en := range a.entries {
		if en.method != "" || !input(en) {
			continue
		}
		seen := map[*aobj]bool{}
		rs := en.fr.fn.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			if _, ok := rs.At(j).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			reach(en.fr.ret.sub(fmt.Sprintf("#%d;", j)), func(l aloc) {
				c.obls++
				if seen[l.o] || l.o.kind == akFunc || !memory(l) {
					return
				}
				seen[l.o] = true
				c.ob(l.o.kind == akAlloc && !l.o.init && !pooled[l.o], "shares result", c.pos(en.fr.fn), "the result of %s may share memory with %s", en.what, l.o.name)
			})
		}
	}
	// What Transform writes.
	for _, t := range []struct {
		ctor string
		dec  bool
	}{{"NewDecoder", true}, {"NewEncoder", false}} {
		c.transform(t.ctor, t.dec, func(x *transform, o SV) { x.untouched(o) })
	}
}

// untouched: dst is as before from nDst on.
func (x *transform) untouched(o SV) {
	c, e, s := x.c, x.e, o.S
	where := c.pos(x.fn)
	tu, ok := o.V.(VTuple)
	if !c.ob(ok && len(tu) == 3, "signature", where, "three results expected") {
		return
	}
	nDst, ok := lin(tu[0])
	if !c.ob(ok, "result", where, "nDst = %s is not determined", s.valStr(tu[0])) {
		return
	}
	rest := x.dst.Len.Sub(nDst)
	for _, d := range e.content(s, VSlice{O: x.dst.O, Off: x.dst.Off.Add(nDst), Len: rest}) {
		good := d.S.ropeEq(d.R, Rope{sub(x.dstSeq, nDst, x.dstSeq.Len)})
		c.ob(good, "writes dst", where, "dst[%s:] is %s and not as before, when %s", d.S.linStr(nDst), d.S.ropeStr(d.R), d.S.describe())
	}
}

func init() {
	register("C11", "proof", "context-sensitive pointer and effect analysis from every exported function and method: no instruction that runs after initialisation may write to memory that package variables or initialisation own, no result may give access to such memory, and nothing may depend on a schedule, a map order or the environment", checkState)
	register("C12", "proof", "the same analysis: every write after initialisation must go to memory that the call or its receiver allocated, or be guarded by one mutex; lazily initialised memory must be read after its sync.Once", checkRaces)
	register("C23", "proof", "the same analysis for the input slices of From, To, Transform and Write: never the target of a write, never reachable from the receiver or a package variable, never shared with the result; and interpretation of Transform: dst[nDst:] is as before", checkCaller)
}

// deepKey describes a value with everything it refers to.
func deepKey(s *State, v Value, depth int) string {
	if depth > 8 {
		return "..."
	}
	all := func(vs []Value) string {
		var b strings.Builder
		for _, v := range vs {
			b.WriteString(deepKey(s, v, depth+1) + ",")
		}
		return b.String()
	}
	content := func(r Rope) string {
		var b strings.Builder
		for _, p := range r {
			if p.K == pElems {
				b.WriteString(all(p.V))
			} else {
				b.WriteString(s.ropeKey(Rope{p}))
			}
		}
		return b.String()
	}
	switch v := v.(type) {
	case VPtr:
		o := s.obj(v.O)
		if o == nil {
			return "nil"
		}
		if o.kind == oArr {
			return fmt.Sprintf("&[%s]%v", content(o.rope), v.Path)
		}
		return fmt.Sprintf("&%s%v", deepKey(s, o.val, depth+1), v.Path)
	case VSlice:
		o := s.obj(v.O)
		if o == nil {
			return "nil"
		}
		return fmt.Sprintf("[%s:%s](%s)", v.Off.Key(), v.Len.Key(), content(o.rope))
	case VStruct:
		return "{" + all(v.F) + "}"
	case VIface:
		return v.T.String() + deepKey(s, v.V, depth+1)
	case VArr:
		return "[" + content(v.R) + "]"
	case VEmb:
		if o := s.obj(v.O); o != nil {
			return "[" + content(o.rope) + "]"
		}
	case VMap:
		o := s.obj(v.O)
		if o == nil || o.m == nil {
			return "nil"
		}
		if o.m.top {
			return fmt.Sprintf("unknown map %p", o)
		}
		var ks []string
		for k, x := range o.m.ints {
			ks = append(ks, fmt.Sprintf("%d=%s", k, deepKey(s, x, depth+1)))
		}
		for k, x := range o.m.strs {
			ks = append(ks, fmt.Sprintf("%q=%s", k, deepKey(s, x, depth+1)))
		}
		sort.Strings(ks)
		return "map{" + strings.Join(ks, ",") + "}"
	}
	return s.valKey(v)
}
