package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Locks, pools, concurrent maps and atomic operations as one goroutine sees
// them. (Goroutines are not modelled.)

type poolv struct{ els []value } // contents of a sync.Pool

func recvField(fn *ssa.Function, name string) int {
	s := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	fail("no field %s in %s", name, s)
	return 0
}

func init() {
	nop := func(it *Interp, fn *ssa.Function, a []value) value {
		if a[0].(*value) == nil {
			panic(targetPanic{msg: "nil pointer dereference", where: it.where()})
		}
		return tuple{}
	}
	for _, n := range []string{"Mutex).Lock", "Mutex).Unlock", "RWMutex).Lock", "RWMutex).Unlock", "RWMutex).RLock", "RWMutex).RUnlock"} {
		baseIntr["(*sync."+n] = nop
	}

	// the objects in a pool come back, last in first out
	baseIntr["(*sync.Pool).Put"] = func(it *Interp, fn *ssa.Function, a []value) value {
		p := &(*a[0].(*value)).(structure)[recvField(fn, "local")]
		old, _ := (*p).(poolv)
		it.store(p, poolv{append(append([]value(nil), old.els...), a[1])})
		return tuple{}
	}
	baseIntr["(*sync.Pool).Get"] = func(it *Interp, fn *ssa.Function, a []value) value {
		s := (*a[0].(*value)).(structure)
		p := &s[recvField(fn, "local")]
		if old, _ := (*p).(poolv); len(old.els) > 0 {
			n := len(old.els) - 1
			it.store(p, poolv{old.els[:n:n]})
			return old.els[n]
		}
		switch f := s[recvField(fn, "New")].(type) {
		case *ssa.Function:
			if f != nil {
				return it.call(f, nil, it.cur)
			}
		case *closure:
			return it.call(f, nil, it.cur)
		}
		return iface{}
	}

	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		typ := types.Typ[map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64, "Uintptr": types.Uintptr}[w]]
		baseIntr["sync/atomic.Load"+w] = func(it *Interp, fn *ssa.Function, a []value) value { return it.load(a[0].(*value)) }
		baseIntr["sync/atomic.Store"+w] = func(it *Interp, fn *ssa.Function, a []value) value {
			it.storeVal(a[0].(*value), a[1])
			return tuple{}
		}
		baseIntr["sync/atomic.Swap"+w] = func(it *Interp, fn *ssa.Function, a []value) value {
			old := it.load(a[0].(*value))
			it.storeVal(a[0].(*value), a[1])
			return old
		}
		baseIntr["sync/atomic.Add"+w] = func(it *Interp, fn *ssa.Function, a []value) value {
			n := wrap(Add(it.load(a[0].(*value)).(*Term), a[1].(*Term)), typ)
			it.storeVal(a[0].(*value), n)
			return n
		}
		baseIntr["sync/atomic.CompareAndSwap"+w] = func(it *Interp, fn *ssa.Function, a []value) value {
			if it.branch(it.equal(it.load(a[0].(*value)), a[1])) {
				it.storeVal(a[0].(*value), a[2])
				return True
			}
			return False
		}
	}

	// sync.Map: its entries are kept in its first field
	cell := func(a []value) *value { return &(*a[0].(*value)).(structure)[0] }
	entries := func(it *Interp, a []value) *mapRef {
		p := cell(a)
		if m, ok := (*p).(*mapRef); ok {
			return m
		}
		m := &mapRef{cell: &mapData{}}
		it.store(p, m)
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	baseIntr["(*sync.Map).Load"] = func(it *Interp, fn *ssa.Function, a []value) value {
		v, ok := it.mapLookup(entries(it, a), a[1], anyT)
		return tuple{v, ok}
	}
	baseIntr["(*sync.Map).Store"] = func(it *Interp, fn *ssa.Function, a []value) value {
		it.mapSet(entries(it, a), a[1], a[2])
		return tuple{}
	}
	baseIntr["(*sync.Map).LoadOrStore"] = func(it *Interp, fn *ssa.Function, a []value) value {
		m := entries(it, a)
		if v, ok := it.mapLookup(m, a[1], anyT); it.branch(ok) {
			return tuple{v, True}
		}
		it.mapSet(m, a[1], a[2])
		return tuple{a[2], False}
	}
}
