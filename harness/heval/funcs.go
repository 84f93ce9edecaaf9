package heval

import (
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// anyFunc returns its last argument, or fails with an argument error when
// that is a number.
var anyFunc = function.New(&function.Spec{
	VarParam: &function.Parameter{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true, AllowDynamicType: true, AllowUnknown: true},
	Type: func(args []cty.Value) (cty.Type, error) {
		if len(args) == 0 {
			return cty.String, nil
		}
		if args[len(args)-1].Type() == cty.Number {
			return cty.NilType, function.NewArgErrorf(len(args)-1, "not a number please")
		}
		return args[len(args)-1].Type(), nil
	},
	Impl: func(args []cty.Value, ret cty.Type) (cty.Value, error) {
		if len(args) == 0 {
			return cty.StringVal(""), nil
		}
		return args[len(args)-1], nil
	},
})
