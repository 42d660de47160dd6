package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/sim"
)

// constGlobal is the value of an unexported package level variable which is
// set by its declaration only, if it is a constant or the descriptor of a type
// (reflect.TypeOf of something declared, possibly followed by Elem).
func (p *Prog) constGlobal(g *ssa.Global) *sim.V {
	if p.globals == nil {
		p.globals = map[*ssa.Global]*sim.V{}
		stores := map[*ssa.Global][]ssa.Value{}
		loose := map[*ssa.Global]bool{}
		for _, fn := range p.Fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							if fn.Name() != "init" || fn.Parent() != nil {
								loose[g] = true
							}
							stores[g] = append(stores[g], st.Val)
							if h, ok := st.Val.(*ssa.Global); ok {
								loose[h] = true
							}
							continue
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
								loose[g] = true
							}
						}
					}
				}
			}
		}
		for g, l := range stores {
			if len(l) == 1 && !loose[g] && !token.IsExported(g.Name()) {
				if v := globalValue(l[0]); v != nil {
					p.globals[g] = v
				}
			}
		}
	}
	return p.globals[g]
}

func globalValue(v ssa.Value) *sim.V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return sim.Const(v.Value, v.Type())
		}
	case *ssa.Call:
		nm, ok := reflectFn(v.Common())
		if !ok {
			return nil
		}
		switch nm {
		case "TypeOf":
			if mi, ok := v.Call.Args[0].(*ssa.MakeInterface); ok {
				return rtype(mi.X.Type())
			}
		case "t.Elem":
			if x := globalValue(v.Call.Value); x != nil && goType(x) != nil {
				m := &reflection{}
				if e := m.elem(nil, x, v.Type()); goType(e) != nil {
					return e
				}
			}
		}
	}
	return nil
}
