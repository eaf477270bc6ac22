package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A context-sensitive, field-sensitive inclusion-based pointer and effect
// analysis. Every chain of calls from an entry point has its own copy of the
// callee; a function which is on its own chain already is not copied again.

// aloc is a location: an object and an access path in it.
type aloc struct {
	o    *aobj
	path string
}

type locset map[aloc]bool

// anode is what a value may point to, by access path within the value.
type anode map[string]locset

type akind int

const (
	akAlloc  akind = iota // allocated by an analysed function
	akGlobal              // a package-level variable
	akParam               // what an argument of an entry point refers to
	akExt                 // a value of the environment
	akFunc                // a function or closure
	akUser                // allocated by the caller of an entry point
	akOpaque              // the result of a function that is not analysed
)

type aobj struct {
	kind  akind
	name  string
	init  bool // allocated by package initialisation
	typ   types.Type
	cont  anode
	fn    *ssa.Function
	free  []anode
	once  bool    // a function of sync.OnceFunc, OnceValue: free[0] is called once
	entry *aentry // the entry point an akParam belongs to
	input bool    // akParam: not to be written or kept
}

func (o *aobj) shared() bool { return o.kind == akGlobal || o.init }

// aframe is a function in a context.
type aframe struct {
	fn     *ssa.Function
	parent *aframe
	site   ssa.Instruction
	init   bool // runs at most once, before any use: initialisation, sync.Once
	vals   map[ssa.Value]anode
	ret    anode // by result: "#i" + path
	kids   map[string]*aframe
	entry  *aentry
	onces  map[ssa.Instruction]locset // calls of Once.Do in this frame
	objs   map[string]*aobj
	params []anode
	free   []anode
}

// aentry is an entry point: an exported function, or a method of a value it
// returned.
type aentry struct {
	fr     *aframe
	what   string
	method string
	recv   anode // of a method
	params []*aobj
}

type aevent struct {
	kind string // write, range, go, select, call
	fr   *aframe
	site ssa.Instruction
	msg  string
	locs locset
}

type alias struct {
	p       *Program
	globals map[ssa.Value]*aobj
	funcs   map[*ssa.Function]*aobj
	init    []*aframe
	entries []*aentry
	byKey   map[string]*aentry
	events  map[string]*aevent
	changed bool
	frames  int
	sites   int
	pooled  locset
	unknown map[string]bool
	rounds  int
	once    map[*aobj]locset // objects written under a sync.Once
}

func pointers(t types.Type) bool { return pointersIn(t, map[types.Type]bool{}) }

func pointersIn(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if pointersIn(t.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointersIn(t.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if pointersIn(t.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// zeroSize: a variable of the type holds nothing.
func zeroSize(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !zeroSize(t.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return t.Len() == 0 || zeroSize(t.Elem())
	}
	return false
}

func newAlias(p *Program) *alias {
	return &alias{p: p, globals: map[ssa.Value]*aobj{}, funcs: map[*ssa.Function]*aobj{}, byKey: map[string]*aentry{},
		events: map[string]*aevent{}, once: map[*aobj]locset{}, pooled: locset{}, unknown: map[string]bool{}}
}

func (n anode) add(path string, l aloc) bool {
	s := n[path]
	if s == nil {
		s = locset{}
		n[path] = s
	}
	if s[l] {
		return false
	}
	s[l] = true
	return true
}

// flow adds the part of src below from to the part of dst below to.
func (a *alias) flow(dst anode, to string, src anode, from string) {
	if src == nil {
		return
	}
	for p, ls := range src {
		if !strings.HasPrefix(p, from) {
			continue
		}
		if q := to + p[len(from):]; len(ls) == 0 && dst[q] == nil {
			dst[q] = locset{} // a dynamic type without pointers
			a.changed = true
		}
		for l := range ls {
			if dst.add(to+p[len(from):], l) {
				a.changed = true
			}
		}
	}
}

func (n anode) sub(from string) anode {
	out := anode{}
	for p, ls := range n {
		if strings.HasPrefix(p, from) {
			out[p[len(from):]] = ls
		}
	}
	return out
}

// load is the content at the locations.
func (a *alias) load(dst anode, to string, ls locset, path string) {
	for l := range ls {
		a.flow(dst, to, l.o.cont, l.path+path)
	}
}

func (a *alias) store(ls locset, path string, src anode, from string) {
	for l := range ls {
		if l.o.kind == akExt || l.o.kind == akFunc {
			continue
		}
		a.flow(l.o.cont, l.path+path, src, from)
	}
}

func (a *alias) global(g *ssa.Global) *aobj {
	o := a.globals[g]
	if o == nil {
		o = &aobj{kind: akGlobal, name: g.RelString(nil), cont: anode{}, typ: g.Type().(*types.Pointer).Elem(), init: true}
		a.globals[g] = o
		if g.Pkg == nil || a.p.module != modulePath(g.Pkg.Pkg.Path(), a.p.module) {
			// A variable of another package refers to something opaque.
			a.opaque(o.cont, "", o.typ, o.name, true)
		}
	}
	return o
}

func modulePath(path, module string) string {
	if path == module || strings.HasPrefix(path, module+"/") {
		return module
	}
	return path
}

// opaque makes a value of type t refer to an object nothing is known of.
func (a *alias) opaque(n anode, path string, t types.Type, name string, init bool) {
	if !pointers(t) {
		return
	}
	if len(n[path]) == 0 {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				a.opaque(n, fmt.Sprintf("%s.%d;", path, i), st.Field(i).Type(), name, init)
			}
			return
		}
		if tu, ok := t.(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				a.opaque(n, fmt.Sprintf("%s#%d;", path, i), tu.At(i).Type(), name, init)
			}
			return
		}
		n.add(path, aloc{&aobj{kind: akOpaque, name: name, cont: anode{}, init: init, typ: t}, ""})
		a.changed = true
	}
}

func (a *alias) frame(parent *aframe, fn *ssa.Function, site ssa.Instruction, init bool) *aframe {
	n := 0
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			return f
		}
		n++
	}
	if n > 40 {
		a.unknown["call chain too deep at "+fn.RelString(nil)] = true
		return nil
	}
	key := fmt.Sprintf("%p/%p/%v", site, fn, init)
	if parent != nil {
		if k := parent.kids[key]; k != nil {
			return k
		}
	}
	fr := &aframe{fn: fn, parent: parent, site: site, init: init, vals: map[ssa.Value]anode{}, ret: anode{}, kids: map[string]*aframe{}, onces: map[ssa.Instruction]locset{}, objs: map[string]*aobj{}}
	for range fn.Params {
		fr.params = append(fr.params, anode{})
	}
	for range fn.FreeVars {
		fr.free = append(fr.free, anode{})
	}
	if parent != nil {
		parent.kids[key] = fr
		fr.entry = parent.entry
	}
	a.frames++
	a.changed = true
	return fr
}

// obj is the object an instruction allocates.
func (fr *aframe) obj(a *alias, v ssa.Instruction, what string, t types.Type) *aobj {
	key := fmt.Sprintf("%p/%s", v, what)
	o := fr.objs[key]
	if o == nil {
		o = &aobj{kind: akAlloc, name: fmt.Sprintf("%s in %s", what, fr.fn.RelString(nil)), init: fr.init, typ: t, cont: anode{}, entry: fr.entry}
		fr.objs[key] = o
	}
	return o
}

func (a *alias) node(fr *aframe, v ssa.Value) anode {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return anode{"": locset{aloc{a.global(v), ""}: true}}
	case *ssa.Function:
		o := a.funcs[v]
		if o == nil {
			o = &aobj{kind: akFunc, name: v.RelString(nil), fn: v, cont: anode{}}
			a.funcs[v] = o
		}
		return anode{"": locset{aloc{o, ""}: true}}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return fr.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v {
				return fr.free[i]
			}
		}
	}
	n := fr.vals[v]
	if n == nil {
		n = anode{}
		fr.vals[v] = n
	}
	return n
}

func (a *alias) event(kind string, fr *aframe, site ssa.Instruction, msg string, ls locset) {
	if fr.init {
		if kind != "write" {
			return
		}
		// Under a sync.Once?
		f := fr
		for f.parent != nil && f.parent.init {
			f = f.parent
		}
		if f.parent == nil {
			return
		}
		for l := range ls {
			if a.once[l.o] == nil {
				a.once[l.o] = locset{}
			}
			for o := range f.parent.onces[f.site] {
				a.once[l.o][o] = true
			}
		}
		return
	}
	key := fmt.Sprintf("%s/%p/%p/%s", kind, fr, site, msg)
	ev := a.events[key]
	if ev == nil {
		ev = &aevent{kind: kind, fr: fr, site: site, msg: msg, locs: locset{}}
		a.events[key] = ev
	}
	for l := range ls {
		if !ev.locs[l] {
			ev.locs[l] = true
		}
	}
}

func (a *alias) solve() {
	for {
		a.rounds++
		a.changed = false
		a.sites = 0
		for _, fr := range a.init {
			a.walk(fr, map[*aframe]bool{})
		}
		for i := 0; i < len(a.entries); i++ {
			a.walk(a.entries[i].fr, map[*aframe]bool{})
		}
		a.followResults()
		if !a.changed || a.rounds > 60 {
			if a.changed {
				a.unknown["no fixed point"] = true
			}
			return
		}
	}
}

func (a *alias) walk(fr *aframe, seen map[*aframe]bool) {
	if seen[fr] {
		return
	}
	seen[fr] = true
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			a.step(fr, in)
		}
	}
	var ks []string
	for k := range fr.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a.walk(fr.kids[k], seen)
	}
}

func typeTag(t types.Type) string {
	tag := "!" + types.TypeString(t, nil) + "!"
	tagTypes[tag] = t
	return tag
}

func (a *alias) step(fr *aframe, in ssa.Instruction) {
	val := func(v ssa.Value) anode { return a.node(fr, v) }
	set := func(v ssa.Value, to string, src anode, from string) { a.flow(a.node(fr, v), to, src, from) }
	point := func(v ssa.Value, o *aobj) {
		if a.node(fr, v).add("", aloc{o, ""}) {
			a.changed = true
		}
	}
	extend := func(v ssa.Value, ls locset, path string) {
		n := a.node(fr, v)
		for l := range ls {
			if l.o.kind == akExt {
				continue
			}
			p := l.path + path
			if l.o.kind == akOpaque {
				p = "" // nothing is known of its structure
			}
			if n.add("", aloc{l.o, p}) {
				a.changed = true
			}
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		point(in, fr.obj(a, in, "variable "+in.Comment, in.Type().(*types.Pointer).Elem()))
	case *ssa.MakeSlice:
		point(in, fr.obj(a, in, "slice", in.Type()))
	case *ssa.MakeMap:
		point(in, fr.obj(a, in, "map", in.Type()))
	case *ssa.MakeChan:
		point(in, fr.obj(a, in, "channel", in.Type()))
	case *ssa.MakeClosure:
		o := fr.obj(a, in, "closure", in.Type())
		o.kind = akFunc
		o.fn = in.Fn.(*ssa.Function)
		if o.free == nil {
			for range in.Bindings {
				o.free = append(o.free, anode{})
			}
		}
		for i, b := range in.Bindings {
			a.flow(o.free[i], "", val(b), "")
		}
		point(in, o)
	case *ssa.Phi:
		for _, e := range in.Edges {
			set(in, "", val(e), "")
		}
	case *ssa.ChangeType:
		set(in, "", val(in.X), "")
	case *ssa.ChangeInterface:
		set(in, "", val(in.X), "")
	case *ssa.SliceToArrayPointer:
		set(in, "", val(in.X), "")
	case *ssa.Convert:
		if _, ok := in.Type().Underlying().(*types.Slice); ok {
			if b, isStr := in.X.Type().Underlying().(*types.Basic); isStr && b.Info()&types.IsString != 0 {
				point(in, fr.obj(a, in, "slice", in.Type()))
				return
			}
		}
		if pointers(in.Type()) {
			if pointers(in.X.Type()) {
				set(in, "", val(in.X), "")
			} else {
				a.unknown["a pointer is made from an integer in "+fr.fn.RelString(nil)] = true
			}
		}
	case *ssa.MultiConvert:
		set(in, "", val(in.X), "")
	case *ssa.MakeInterface:
		if pointers(in.X.Type()) {
			set(in, typeTag(in.X.Type()), val(in.X), "")
		} else if b, ok := in.X.Type().Underlying().(*types.Struct); ok && b.NumFields() == 0 {
			// Keep the type, for dynamic calls.
			n := a.node(fr, in)
			if n[typeTag(in.X.Type())] == nil {
				n[typeTag(in.X.Type())] = locset{}
				a.changed = true
			}
		} else {
			n := a.node(fr, in)
			if n[typeTag(in.X.Type())] == nil {
				n[typeTag(in.X.Type())] = locset{}
				a.changed = true
			}
		}
	case *ssa.TypeAssert:
		to := ""
		if in.CommaOk {
			to = "#0;"
		}
		if types.IsInterface(in.AssertedType) {
			set(in, to, val(in.X), "")
		} else {
			set(in, to, val(in.X), typeTag(in.AssertedType))
			// The environment may hold any type.
			for l := range val(in.X)[""] {
				if l.o.kind == akExt || l.o.kind == akOpaque {
					set(in, to, anode{"": locset{l: true}}, "")
				}
			}
		}
	case *ssa.Extract:
		set(in, "", val(in.Tuple), fmt.Sprintf("#%d;", in.Index))
	case *ssa.Field:
		set(in, "", val(in.X), fmt.Sprintf(".%d;", in.Field))
	case *ssa.FieldAddr:
		extend(in, val(in.X)[""], fmt.Sprintf(".%d;", in.Field))
	case *ssa.Index:
		set(in, "", val(in.X), "[]")
	case *ssa.IndexAddr:
		extend(in, val(in.X)[""], "[]")
	case *ssa.Slice:
		if pointers(in.Type()) {
			set(in, "", val(in.X), "")
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a.read(fr, in, val(in.X)[""])
			if pointers(in.Type()) {
				a.loadOpaque(fr, in, in.Type(), val(in.X)[""])
				a.load(a.node(fr, in), "", val(in.X)[""], "")
			}
		case token.ARROW:
			to := ""
			if in.CommaOk {
				to = "#0;"
			}
			a.event("concurrency", fr, in, "receives from a channel", nil)
			a.load(a.node(fr, in), to, val(in.X)[""], "<>")
		}
	case *ssa.Send:
		a.event("concurrency", fr, in, "sends to a channel", nil)
		a.store(val(in.Chan)[""], "<>", val(in.X), "")
	case *ssa.Select:
		a.event("concurrency", fr, in, "selects", nil)
		a.unknown["select in "+fr.fn.RelString(nil)] = true
	case *ssa.Store:
		a.event("write", fr, in, "stores to", val(in.Addr)[""])
		if pointers(in.Val.Type()) {
			a.store(val(in.Addr)[""], "", val(in.Val), "")
		}
	case *ssa.MapUpdate:
		a.event("write", fr, in, "updates", val(in.Map)[""])
		if pointers(in.Key.Type()) {
			a.store(val(in.Map)[""], "{k}", val(in.Key), "")
		}
		if pointers(in.Value.Type()) {
			a.store(val(in.Map)[""], "{v}", val(in.Value), "")
		}
	case *ssa.Lookup:
		a.read(fr, in, val(in.X)[""])
		to := ""
		if in.CommaOk {
			to = "#0;"
		}
		if pointers(in.Type()) {
			a.load(a.node(fr, in), to, val(in.X)[""], "{v}")
		}
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			a.read(fr, in, val(in.X)[""])
			a.event("order", fr, in, "ranges over a map", val(in.X)[""])
			set(in, "", val(in.X), "")
		}
	case *ssa.Next:
		if !in.IsString {
			a.load(a.node(fr, in), "#1;", val(in.Iter)[""], "{k}")
			a.load(a.node(fr, in), "#2;", val(in.Iter)[""], "{v}")
		}
	case *ssa.Return:
		for i, r := range in.Results {
			a.flow(fr.ret, fmt.Sprintf("#%d;", i), val(r), "")
		}
	case *ssa.Call:
		a.sites++
		res := anode{}
		a.call(fr, in, &in.Call, res)
		t := in.Type()
		if tu, ok := t.(*types.Tuple); ok {
			if tu.Len() > 0 {
				set(in, "", res, "")
			}
		} else {
			set(in, "", res, "#0;")
		}
	case *ssa.Defer:
		a.sites++
		a.call(fr, in, &in.Call, anode{})
	case *ssa.Go:
		a.sites++
		a.event("concurrency", fr, in, "starts a goroutine", nil)
		a.call(fr, in, &in.Call, anode{})
	case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.RunDefers, *ssa.DebugRef, *ssa.Panic:
	default:
		a.unknown[fmt.Sprintf("instruction %T in %s", in, fr.fn.RelString(nil))] = true
	}
}

// loadOpaque: what an opaque object refers to is opaque as well.
func (a *alias) loadOpaque(fr *aframe, v ssa.Value, t types.Type, ls locset) {
	for l := range ls {
		if l.o.kind == akOpaque {
			if l.o.cont[""] == nil {
				l.o.cont[""] = locset{aloc{l.o, ""}: true}
				a.changed = true
			}
			if a.node(fr, v).add("", aloc{l.o, ""}) {
				a.changed = true
			}
		}
	}
}

func (a *alias) read(fr *aframe, in ssa.Instruction, ls locset) {
	if fr.init {
		return
	}
	for l := range ls {
		if l.o.shared() {
			a.event("read", fr, in, "reads", ls)
			return
		}
	}
}

func (a *alias) call(fr *aframe, site ssa.Instruction, c *ssa.CallCommon, res anode) {
	var args []anode
	for _, x := range c.Args {
		args = append(args, a.node(fr, x))
	}
	if c.IsInvoke() {
		n := a.node(fr, c.Value)
		for p := range n {
			if !strings.HasPrefix(p, "!") {
				if p == "" {
					a.extern(fr, site, c, c.Method.Name(), n[p], args, res)
				}
				continue
			}
			tag := p[:1+strings.Index(p[1:], "!")+1]
			fn := a.methodOf(tag, c.Method.Name(), site, fr)
			if fn == nil {
				continue
			}
			a.enter(fr, site, fn, append([]anode{n.sub(tag)}, args...), nil, res, false)
		}
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		a.builtin(fr, site, f, c, args, res)
		return
	case *ssa.Function:
		a.enter(fr, site, f, args, nil, res, false)
		return
	}
	for l := range a.node(fr, c.Value)[""] {
		a.callObj(fr, site, l.o, args, res, false)
	}
}

// callObj calls a function value.
func (a *alias) callObj(fr *aframe, site ssa.Instruction, o *aobj, args []anode, res anode, once bool) {
	if o.kind != akFunc {
		a.unknown["call of an unknown function in "+fr.fn.RelString(nil)] = true
		return
	}
	if o.once {
		fr.onces[site] = locset{aloc{o, ""}: true}
		for l := range o.free[0][""] {
			a.callObj(fr, site, l.o, nil, res, true)
		}
		return
	}
	a.enter(fr, site, o.fn, args, o.free, res, once)
}

var tagTypes = map[string]types.Type{}

func (a *alias) methodOf(tag, name string, site ssa.Instruction, fr *aframe) *ssa.Function {
	t := a.typeOfTag(tag)
	if t == nil {
		a.unknown["type "+tag] = true
		return nil
	}
	ms := a.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return a.p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (a *alias) typeOfTag(tag string) types.Type { return tagTypes[tag] }

func (a *alias) enter(fr *aframe, site ssa.Instruction, fn *ssa.Function, args, free []anode, res anode, once bool) {
	if a.model(fr, site, fn, args, res) {
		return
	}
	if !inModule(fn, a.p.module) && !interpretable(fn) || fn.Blocks == nil {
		if fn.Blocks == nil {
			if fn.Pkg != nil && (inModule(fn, a.p.module) || interpretable(fn)) {
				fn.Pkg.Build()
			}
		}
		if fn.Blocks == nil || !inModule(fn, a.p.module) && !interpretable(fn) {
			a.foreign(fr, site, fn, args, res)
			return
		}
	}
	init := fr.init || once
	k := a.frame(fr, fn, site, init)
	if k == nil {
		return
	}
	for i := range args {
		if i < len(k.params) && pointers(fn.Params[i].Type()) {
			a.flow(k.params[i], "", args[i], "")
		}
	}
	for i := range free {
		if i < len(k.free) {
			a.flow(k.free[i], "", free[i], "")
		}
	}
	a.mix(res, "", k.ret, "")
}

func inModule(fn *ssa.Function, module string) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	} else {
		return true // wrapper
	}
	return modulePath(path, module) == module
}

func (a *alias) builtin(fr *aframe, site ssa.Instruction, f *ssa.Builtin, c *ssa.CallCommon, args []anode, res anode) {
	switch f.Name() {
	case "append":
		v, _ := site.(ssa.Value)
		var t types.Type
		if v != nil {
			t = v.Type()
		}
		o := fr.obj(a, site, "slice (append)", t)
		if res.add("#0;", aloc{o, ""}) {
		}
		full := false // cap == len: append never writes to the operand
		if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.Max != nil && sl.High != nil {
			full = sl.Max == sl.High
			x, ok1 := sl.Max.(*ssa.Const)
			y, ok2 := sl.High.(*ssa.Const)
			full = full || ok1 && ok2 && x.Int64() == y.Int64()
		}
		var elems locset
		if len(args) > 1 && args[1] != nil {
			elems = args[1][""]
		}
		if !full && len(args) > 1 && !(args[0] == nil) {
			a.event("write", fr, site, "appends to", args[0][""])
			a.mix(res, "#0;", args[0], "")
		}
		content := anode{}
		if args[0] != nil {
			a.peekInto(content, args[0][""])
		}
		a.peekInto(content, elems)
		for l := range res["#0;"] {
			a.flow(l.o.cont, l.path+"[]", content, "")
		}
	case "copy":
		a.event("write", fr, site, "copies to", args[0][""])
		if args[0] != nil && args[1] != nil {
			content := anode{}
			a.peekInto(content, args[1][""])
			for l := range args[0][""] {
				a.flow(l.o.cont, l.path+"[]", content, "")
			}
		}
	case "delete", "clear":
		a.event("write", fr, site, "changes", args[0][""])
	case "close":
		a.event("concurrency", fr, site, "closes a channel", nil)
	case "ssa:wrapnilchk", "SliceData", "Slice", "Add":
		a.mix(res, "#0;", args[0], "")
	case "StringData":
		res.add("#0;", aloc{fr.obj(a, site, "string data", nil), ""})
	case "len", "cap", "min", "max", "panic", "print", "println", "real", "imag", "complex", "String", "Sizeof", "Alignof", "Offsetof":
	case "recover":
		res.add("#0;", aloc{fr.obj(a, site, "panic value", nil), ""})
	default:
		a.unknown["builtin "+f.Name()] = true
	}
}

// peekInto reads elements without changing a.changed for the scratch node.
func (a *alias) peekInto(content anode, ls locset) {
	c := a.changed
	a.load(content, "", ls, "[]")
	a.changed = c
}

// reach lists what may be reached from a node, through all fields.
func reach(n anode, visit func(l aloc)) {
	seen := locset{}
	var rec func(ls locset)
	rec = func(ls locset) {
		for l := range ls {
			if seen[l] {
				continue
			}
			seen[l] = true
			visit(l)
			for p, ms := range l.o.cont {
				if strings.HasPrefix(p, l.path) || strings.HasPrefix(l.path, p) {
					rec(ms)
				}
			}
			for _, f := range l.o.free {
				for _, ms := range f {
					rec(ms)
				}
			}
		}
	}
	for _, ls := range n {
		rec(ls)
	}
}

// extern is a call of a method of the environment: the source of a reader,
// the sink of a writer. By the contracts of io.Reader and io.Writer it writes
// only to the argument of Read and keeps nothing.
func (a *alias) extern(fr *aframe, site ssa.Instruction, c *ssa.CallCommon, name string, recv locset, args []anode, res anode) {
	opaque := false
	for l := range recv {
		if l.o.kind == akOpaque {
			opaque = true
		}
	}
	if opaque && name == "Error" {
		return
	}
	if name == "Read" && len(args) > 0 && args[0] != nil {
		a.event("write", fr, site, "has the source write to", args[0][""])
	}
	sg := c.Signature()
	for i := 0; i < sg.Results().Len(); i++ {
		if pointers(sg.Results().At(i).Type()) {
			o := fr.obj(a, site, fmt.Sprintf("result %d of %s", i, name), sg.Results().At(i).Type())
			o.kind = akExt
			res.add(fmt.Sprintf("#%d;", i), aloc{o, ""})
		}
	}
}

// foreign is a call of a function that is not analysed.
func (a *alias) foreign(fr *aframe, site ssa.Instruction, fn *ssa.Function, args []anode, res anode) {
	name := fn.RelString(nil)
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	a.event("call", fr, site, name, nil)
	fresh := func() {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if pointers(rs.At(i).Type()) {
				o := fr.obj(a, site, fmt.Sprintf("result %d of %s", i, name), rs.At(i).Type())
				o.kind = akOpaque
				res.add(fmt.Sprintf("#%d;", i), aloc{o, ""})
			}
		}
	}
	switch pkg {
	case "internal/bytealg", "math", "math/bits", "unicode", "unicode/utf8", "strconv", "internal/stringslite", "internal/cpu", "internal/race", "internal/abi", "errors", "fmt", "log":
		fresh()
		return
	}
	// It may write to and keep everything it is given.
	ls := locset{}
	for _, n := range args {
		reach(n, func(l aloc) { ls[l] = true })
	}
	a.event("write", fr, site, "passes to "+name+", which may write to it,", ls)
	fresh()
	for i := range args {
		for p, m := range args[i] {
			if p == "" || strings.HasPrefix(p, "!") {
				rs := fn.Signature.Results()
				for j := 0; j < rs.Len(); j++ {
					if pointers(rs.At(j).Type()) {
						for l := range m {
							res.add(fmt.Sprintf("#%d;", j), l)
						}
					}
				}
			}
		}
	}
}

// model handles functions with a special meaning.
func (a *alias) model(fr *aframe, site ssa.Instruction, fn *ssa.Function, args []anode, res anode) bool {
	name := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		name = o.RelString(nil)
	}
	switch name {
	case "(*sync.Once).Do":
		shared := true
		for l := range args[0][""] {
			shared = shared && l.o.shared()
		}
		if shared {
			fr.onces[site] = args[0][""]
		}
		for l := range args[1][""] {
			if shared && len(l.o.free) > 0 && !fr.init {
				a.event("once", fr, site, "initialises shared state from variables of one call", nil)
			}
			a.callObj(fr, site, l.o, nil, anode{}, shared)
		}
		return true
	case "sync.OnceFunc", "sync.OnceValue", "sync.OnceValues":
		o := fr.obj(a, site, "once function", nil)
		o.kind, o.once = akFunc, true
		if o.free == nil {
			o.free = []anode{{}}
		}
		a.flow(o.free[0], "", args[0], "")
		res.add("#0;", aloc{o, ""})
		return true
	case "(*sync.Pool).Get":
		for l := range args[0][""] {
			a.mixLoad(res, "#0;", locset{l: true}, "<pool>")
			// New, the last field.
			st := l.o.typ
			if st == nil {
				continue
			}
			for p, ms := range l.o.cont {
				if !strings.HasPrefix(p, l.path) || strings.Contains(p, "<pool>") {
					continue
				}
				for f := range ms {
					if f.o.kind == akFunc {
						r := anode{}
						a.callPooled(fr, site, f.o, r)
						a.mix(res, "", r, "")
						a.store(args[0][""], "<pool>", r, "#0;")
					}
				}
			}
		}
		return true
	case "(*sync.Pool).Put":
		a.store(args[0][""], "<pool>", args[1], "")
		return true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.Mutex).TryLock",
		"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		a.event("lock", fr, site, name, args[0][""])
		return true
	case "sort.Slice", "sort.SliceStable":
		ls := locset{}
		for p, m := range args[0] {
			if strings.HasPrefix(p, "!") {
				for l := range m {
					ls[l] = true
				}
			}
		}
		a.event("write", fr, site, "sorts", ls)
		for l := range args[1][""] {
			a.callObj(fr, site, l.o, []anode{nil, nil}, anode{}, false)
		}
		return true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "unicode/utf8" {
		switch fn.Name() {
		case "EncodeRune":
			a.event("write", fr, site, "encodes a rune to", args[0][""])
			return true
		case "AppendRune":
			o := fr.obj(a, site, "slice (append)", nil)
			res.add("#0;", aloc{o, ""})
			if args[0] != nil {
				a.event("write", fr, site, "appends to", args[0][""])
				a.mix(res, "#0;", args[0], "")
			}
			return true
		}
		return true
	}
	return false
}

// callPooled calls the New function of a pool: what it makes is private to
// the caller of Get until it is put back.
func (a *alias) callPooled(fr *aframe, site ssa.Instruction, o *aobj, res anode) {
	a.callObj(fr, site, o, nil, res, false)
}

// mix is flow to a scratch node.
func (a *alias) mix(dst anode, to string, src anode, from string) {
	c := a.changed
	a.flow(dst, to, src, from)
	a.changed = c
}

func (a *alias) mixLoad(dst anode, to string, ls locset, path string) {
	c := a.changed
	a.load(dst, to, ls, path)
	a.changed = c
}
