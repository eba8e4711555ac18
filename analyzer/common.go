package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// methodOf gives the name of the receiver's type of a method, "" for functions.
func recvName(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil {
		return ""
	}
	if n, ok := derefType(fn.Signature.Recv().Type()).(*types.Named); ok {
		return n.Obj().Name()
	}
	if n, ok := fn.Signature.Recv().Type().(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// isFailConn: a method of senderConnection that takes the error of a failure and gives the error to report.
func isFailConn(ci *CallInfo) bool {
	if recvName(ci.Callee) != "senderConnection" {
		return false
	}
	s := ci.Callee.Signature
	return s.Params().Len() == 1 && isErrorType(s.Params().At(0).Type()) && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type())
}

// blocking: the function, or one it calls, may wait for another goroutine.
func (p *Program) blocking(fn *ssa.Function) bool {
	eff := p.effects(fn)
	for _, n := range []string{"recv", "send", "select", "(*sync.Cond).Wait", "(*sync.WaitGroup).Wait", "time.Sleep"} {
		if eff.calls[n] {
			return true
		}
	}
	return false
}

// exportedMethods of a type of package memcache.
func (p *Program) exportedMethods(pkg, typ string) []*ssa.Function {
	n := p.typ(pkg, typ)
	if n == nil {
		return nil
	}
	var res []*ssa.Function
	ms := p.ssa.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		if f := p.ssa.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
			res = append(res, f)
		}
	}
	return res
}

// callValue runs a function value.
func (e *Engine) callValue(st *State, f *Term) []Outcome {
	fn, ok := f.aux.(*ssa.Function)
	if f.op != OFunc || !ok || len(fn.Blocks) == 0 {
		return nil
	}
	return e.execFn(st, fn, nil, f.args, nil)
}

func isKeyParam(t types.Type) bool { return isStringType(t) }

func (t *Term) isNilTerm() bool { return t == nil || t == nilT() }
