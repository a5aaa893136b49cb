package main

import (
	"errors"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// foreign is a tensor of another device: it knows its shape, and every computation on
// it or with it fails.
type foreign struct{ shape []int }

var errForeign = errors.New("device unavailable")

func (f *foreign) Shape() []int { return append([]int{}, f.shape...) }
func (f *foreign) NElems() int  { return nelems(f.shape) }

func (f *foreign) At(index ...int) (float64, error)                  { return 0, errForeign }
func (f *foreign) Slice(index []tensor.Range) (tensor.Tensor, error) { return nil, errForeign }
func (f *foreign) Patch(index []tensor.Range, source tensor.Tensor) (tensor.Tensor, error) {
	return nil, errForeign
}
func (f *foreign) Transpose() (tensor.Tensor, error)            { return nil, errForeign }
func (f *foreign) Reshape(shape []int) (tensor.Tensor, error)   { return nil, errForeign }
func (f *foreign) UnSqueeze(dim int) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) Squeeze(dim int) (tensor.Tensor, error)       { return nil, errForeign }
func (f *foreign) Flatten(fromDim int) (tensor.Tensor, error)   { return nil, errForeign }
func (f *foreign) Broadcast(shape []int) (tensor.Tensor, error) { return nil, errForeign }
func (f *foreign) Sum() float64                                 { return 0 }
func (f *foreign) Max() float64                                 { return 0 }
func (f *foreign) Min() float64                                 { return 0 }
func (f *foreign) Avg() float64                                 { return 0 }
func (f *foreign) Var() float64                                 { return 0 }
func (f *foreign) Std() float64                                 { return 0 }
func (f *foreign) Mean() float64                                { return 0 }
func (f *foreign) SumAlong(dim int) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) MaxAlong(dim int) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) MinAlong(dim int) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) AvgAlong(dim int) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) VarAlong(dim int) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) StdAlong(dim int) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) MeanAlong(dim int) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) Scale(float64) tensor.Tensor                  { return f }
func (f *foreign) Pow(float64) tensor.Tensor                    { return f }
func (f *foreign) Exp() tensor.Tensor                           { return f }
func (f *foreign) Log() tensor.Tensor                           { return f }
func (f *foreign) Sin() tensor.Tensor                           { return f }
func (f *foreign) Cos() tensor.Tensor                           { return f }
func (f *foreign) Tan() tensor.Tensor                           { return f }
func (f *foreign) Sinh() tensor.Tensor                          { return f }
func (f *foreign) Cosh() tensor.Tensor                          { return f }
func (f *foreign) Tanh() tensor.Tensor                          { return f }
func (f *foreign) Eq(tensor.Tensor) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) Ne(tensor.Tensor) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) Gt(tensor.Tensor) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) Ge(tensor.Tensor) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) Lt(tensor.Tensor) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) Le(tensor.Tensor) (tensor.Tensor, error)      { return nil, errForeign }
func (f *foreign) ElMax(tensor.Tensor) (tensor.Tensor, error)   { return nil, errForeign }
func (f *foreign) ElMin(tensor.Tensor) (tensor.Tensor, error)   { return nil, errForeign }
func (f *foreign) Add(tensor.Tensor) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) Sub(tensor.Tensor) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) Mul(tensor.Tensor) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) Div(tensor.Tensor) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) Dot(tensor.Tensor) (tensor.Tensor, error)     { return nil, errForeign }
func (f *foreign) MatMul(tensor.Tensor) (tensor.Tensor, error)  { return nil, errForeign }
func (f *foreign) Equals(tensor.Tensor) (bool, error)           { return false, errForeign }
func (f *foreign) GradContext() any                             { return nil }
func (f *foreign) ResetGradContext(bool)                        {}
func (f *foreign) Gradient() tensor.Tensor                      { return nil }
