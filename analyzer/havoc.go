package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mutable lists the struct fields ("pkg.Type;Field") that some function of the
// repository changes after construction: by storing to the field through a
// pointer it was given, or by updating the map the field holds.
func (p *Prog) mutable() (fields, maps map[string]bool) {
	if p.mutFields != nil {
		return p.mutFields, p.mutMaps
	}
	fields, maps = map[string]bool{}, map[string]bool{}
	name := func(t types.Type, i int) string {
		t = derefT(t)
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		return shortT(t) + ";" + s.Field(i).Name()
	}
	// made: the struct is a local value of the function, not a copy of one it
	// was given.
	var made func(v ssa.Value) bool
	made = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					if _, ok := s.Val.(*ssa.Parameter); ok {
						return false
					}
				}
			}
			return true
		case *ssa.FieldAddr:
			return made(x.X)
		}
		return false
	}
	var holder func(v ssa.Value) string
	holder = func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.FieldAddr); ok && !made(a.X) {
				return name(a.X.Type(), a.Field)
			}
		case *ssa.Field:
			return name(x.X.Type(), x.Field)
		case *ssa.ChangeType:
			return holder(x.X)
		}
		return ""
	}
	for _, f := range p.allFuncs {
		if !inRepoFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.FieldAddr); ok && !made(a.X) {
						fields[name(a.X.Type(), a.Field)] = true
					}
					if a, ok := x.Addr.(*ssa.IndexAddr); ok {
						if h := holder(a.X); h != "" {
							fields[h] = true
						}
					}
				case *ssa.MapUpdate:
					if h := holder(x.Map); h != "" {
						maps[h] = true
					}
				case *ssa.Call:
					// a map handed to code that may change it
					for _, v := range x.Call.Args {
						if _, ok := v.Type().Underlying().(*types.Map); !ok {
							continue
						}
						if h := holder(v); h != "" {
							if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() != "delete" && bi.Name() != "clear" {
								continue
							}
							maps[h] = true
						}
					}
				}
			}
		}
	}
	p.mutFields, p.mutMaps = fields, maps
	return
}

// arbitraryState makes what the handler keeps between calls arbitrary: the
// fields and maps reachable from it that the repository's code changes.
func (c *Ctx) arbitraryState(st *state, root *T) {
	fields, maps := c.P.mutable()
	seen := map[*T]bool{}
	var visit func(t *T)
	held := func(owner string, v *T) {
		v = deepStrip(v)
		if maps[owner] && v.Op == "alloc" && st.base[v] == nil {
			st.base[v] = mk("param", "state:"+owner, v.Typ)
		}
	}
	visit = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "obj" {
			n := strings.Split(t.S, ";")
			for i, a := range t.A {
				if i+1 < len(n) {
					held(n[0]+";"+n[i+1], a)
				}
			}
		}
		for _, a := range t.A {
			visit(a)
		}
		if t.Op != "alloc" || t.Typ == nil {
			return
		}
		if s, ok := derefT(t.Typ).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				owner := shortT(derefT(t.Typ)) + ";" + s.Field(i).Name()
				k := mk("faddr", s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), t)
				if fields[owner] {
					st.mem[k] = mk("param", "state:"+owner, s.Field(i).Type())
				}
				if v, ok := st.mem[k]; ok {
					held(owner, v)
					visit(v)
				}
			}
		}
	}
	visit(root)
}
