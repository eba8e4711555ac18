package main

import (
	"go/types"
	"sort"
	"strings"
)

// enumType: a named integer type of this repository that has declared constants.
func (p *Program) enumType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !p.repoPkgs[n.Obj().Pkg()] || !isIntType(t) {
		return false
	}
	if p.enums == nil {
		p.enums = map[types.Type]bool{}
		for pkg := range p.repoPkgs {
			for _, nm := range pkg.Scope().Names() {
				if c, ok := pkg.Scope().Lookup(nm).(*types.Const); ok {
					p.enums[c.Type()] = true
				}
			}
		}
	}
	return p.enums[t]
}

// enumPartition keeps states apart in which a state-machine field of an object made on the path differs.
func (p *Program) enumPartition(st *State) string {
	var ks []string
	for a, v := range st.heap {
		if a.op == OFA && v.op == OInt && p.enumType(derefType(a.typ)) && st.rootAlloc(a) != nil {
			ks = append(ks, a.String()+"="+v.String())
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
