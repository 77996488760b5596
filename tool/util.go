package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func debugName(ins ssa.Instruction) (string, types.Type, bool) {
	switch d := ins.(type) {
	case *ssa.DebugRef:
		if d.Object() != nil {
			if d.IsAddr {
				return d.Object().Name(), deref(d.X.Type()), true
			}
			return d.Object().Name(), d.X.Type(), true
		}
	case *ssa.Alloc:
		return d.Comment, deref(d.Type()), true
	}
	return "", nil, false
}
