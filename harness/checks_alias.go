package main

// C25: the elements of a tree are independent objects.

import (
	"fmt"
	"reflect"
)

// structsOf returns every struct a tree points to, each as often as it is pointed to.
func structsOf(v reflect.Value, out *[]reflect.Value, depth int) {
	if depth > 100000 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			structsOf(v.Elem(), out, depth+1)
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct {
			*out = append(*out, reflect.ValueOf(v.Interface()))
			structsOf(v.Elem(), out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			structsOf(v.Field(i), out, depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			structsOf(v.Index(i), out, depth+1)
		}
	}
}

// shallow describes the fields of a struct, not what they point to.
func shallow(v reflect.Value, out []interface{}) []interface{} {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return append(out, nil)
		}
		return shallow(v.Elem(), out)
	case reflect.Ptr:
		return append(out, v.Pointer())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			out = shallow(v.Field(i), out)
		}
		return out
	case reflect.Slice:
		out = append(out, v.Len())
		for i := 0; i < v.Len(); i++ {
			out = shallow(v.Index(i), out)
		}
		return out
	case reflect.Map, reflect.Func, reflect.Chan:
		return append(out, v.Pointer())
	case reflect.String:
		return append(out, v.String())
	case reflect.Bool:
		return append(out, v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return append(out, v.Int())
	}
	return append(out, fmt.Sprint(v))
}

// spoil changes every settable field of a struct: other values, and the lists
// overwritten and made longer. It returns what undoes it.
func spoil(s reflect.Value) func() {
	var undo []func()
	var change func(f reflect.Value)
	change = func(f reflect.Value) {
		if !f.CanSet() {
			return
		}
		switch f.Kind() {
		case reflect.Struct:
			for i := 0; i < f.NumField(); i++ {
				change(f.Field(i))
			}
			return
		}
		old := reflect.New(f.Type()).Elem()
		old.Set(f)
		undo = append(undo, func() { f.Set(old) })
		switch f.Kind() {
		case reflect.String:
			f.SetString(f.String() + "changed")
		case reflect.Bool:
			f.SetBool(!f.Bool())
		case reflect.Int, reflect.Int64, reflect.Int32:
			f.SetInt(f.Int() + 7777)
		case reflect.Uint, reflect.Uint64, reflect.Uint32:
			f.SetUint(f.Uint() + 7777)
		case reflect.Slice:
			zero := reflect.Zero(f.Type().Elem())
			for k := f.Len(); k < f.Cap() || k < f.Len()+2; k++ {
				f.Set(reflect.Append(f, zero))
				if f.Len() > old.Cap() {
					break
				}
			}
			for i := 0; i < old.Len(); i++ {
				i := i
				o := reflect.New(f.Type().Elem()).Elem()
				o.Set(old.Index(i))
				undo = append(undo, func() { old.Index(i).Set(o) })
				old.Index(i).Set(zero)
			}
		case reflect.Ptr, reflect.Interface:
			f.Set(reflect.Zero(f.Type()))
		}
	}
	change(s.Elem())
	return func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}
}

// checkAlias: Src is parsed, Ints[0] selects the elements that are changed if there are many.
func checkAlias(c *Case) Result {
	tree, err := libParse(c.Src, c.opts())
	if err != nil || tree == nil {
		return Result{Tags: []string{"rejected"}}
	}
	want := convProto(tree)
	other, err := libParse(c.Src, c.opts())
	if err != nil {
		return viol("the second parse fails: %v", err)
	}
	var elems []reflect.Value
	structsOf(reflect.ValueOf(tree), &elems, 0)
	at := map[uintptr]int{}
	for i, e := range elems {
		k := e.Pointer()
		if j, ok := at[k]; ok && e.Elem().Type() == elems[j].Elem().Type() && e.Elem().Type().Size() > 0 {
			return viol("the same %s stands at two places of the tree", e.Type())
		}
		at[k] = i
	}
	before := make([][]interface{}, len(elems))
	for i, e := range elems {
		before[i] = shallow(e.Elem(), nil)
	}
	step, from := 1, 0
	if len(elems) > 60 {
		step = len(elems)/40 + 1
		if len(c.Ints) > 0 && c.Ints[0] > 0 {
			from = c.Ints[0] % step
		}
	}
	var now []interface{}
	for i := from; i < len(elems); i += step {
		undo := spoil(elems[i])
		for j, e := range elems {
			if j == i {
				continue
			}
			if now = shallow(e.Elem(), now[:0]); !same(before[j], now) {
				return viol("a change of a %s (element %d) changes a %s (element %d)", elems[i].Type(), i, e.Type(), j)
			}
		}
		if i == from {
			if d := diff(want, convProto(other), Proj{true, true, true, true}, ""); d != "" {
				return viol("a change of a %s changes another parse result: %s", elems[i].Type(), d)
			}
		}
		undo()
	}
	for i := from; i < len(elems); i += step {
		spoil(elems[i])
	}
	if d := diff(want, convProto(other), Proj{true, true, true, true}, ""); d != "" {
		return viol("changes of one parse result change another: %s", d)
	}
	third, err := libParse(c.Src, c.opts())
	if err != nil {
		return viol("the parse after changes of an earlier result fails: %v", err)
	}
	if d := diff(want, convProto(third), Proj{true, true, true, true}, ""); d != "" {
		return viol("changes of one parse result change a later one: %s", d)
	}
	return Result{NT: len(elems) >= 3, Tags: []string{fmt.Sprintf("%d or more elements", []int{0, 3, 10, 30, 60}[bucket(len(elems), 3, 10, 30, 60)])}}
}

func same(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func bucket(n int, at ...int) int {
	k := 0
	for _, a := range at {
		if n >= a {
			k++
		}
	}
	return k
}

func init() {
	register(&Prop{
		ID: "C25", Quick: 40000, Thorough: 800000,
		Rule: sourceNote + " with emphasis on comments, in both modes, with and without body comments; every element of the tree (up to about 40 of large trees) is changed in all its fields, its lists overwritten and made longer; non-trivial: the tree has at least 3 elements. No element stands at two places; no other element of the tree, no other result of the same source and no later one may change.",
		Gen: func(r R, x *Exec) {
			strict := r.p(25)
			d := genDoc(r, GenCfg{Strict: strict, Size: r.size(), Depth: 3})
			st := r.style()
			if r.p(75) {
				st.kind = layBoundary
				st.gaps = 15 + r.n(70)
				st.pad = 0
			}
			x.Do(&Case{Src: []byte(r.render(d.Toks, st)), Strict: strict, Body: r.p(50), Ints: []int{r.n(1000)}})
		},
		Check: checkAlias,
	})
}
