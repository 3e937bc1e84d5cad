package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		if tp, ok := c.Type().(*types.TypeParam); ok {
			_ = tp
			panic(unsupported("const of type parameter"))
		}
		return zero(c.Type())
	}
	u, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const type " + c.Type().String()))
	}
	if w, signed, ok := basicWidth(u.Kind()); ok {
		if w == 0 {
			return CBool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if signed {
			i, _ := constant.Int64Val(v)
			if v.Kind() == constant.Int {
				if u64, exact := constant.Uint64Val(v); exact && i < 0 && u64 > 0 {
					return Const(w, u64)
				}
			}
			return Const(w, uint64(i))
		}
		x, _ := constant.Uint64Val(v)
		return Const(w, x)
	}
	switch u.Kind() {
	case types.String, types.UntypedString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case types.Float64, types.UntypedFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f
	case types.Float32:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return float32(f)
	case types.Complex128, types.Complex64, types.UntypedComplex:
		return nil
	}
	panic(unsupported("const " + c.String()))
}
