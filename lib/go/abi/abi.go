// Package abi stands in for go-ethereum's: decoding of byte strings, with its rules.
package abi

import (
	"errors"
	"fmt"
	"math/big"
)

type Type struct{ name string }
type ArgumentMarshaling struct {
	Name, Type, InternalType string
	Components               []ArgumentMarshaling
	Indexed                  bool
}
type Argument struct {
	Name    string
	Type    Type
	Indexed bool
}
type Arguments []Argument

func NewType(t string, internalType string, components []ArgumentMarshaling) (Type, error) {
	if t != "bytes" && t != "string" {
		return Type{}, fmt.Errorf("unsupported arg type: %s", t)
	}
	return Type{t}, nil
}

func (arguments Arguments) Unpack(data []byte) ([]any, error) {
	if len(data) == 0 {
		if len(arguments) != 0 {
			return nil, errors.New("abi: attempting to unmarshal an empty string while arguments are expected")
		}
		return make([]any, 0), nil
	}
	return arguments.UnpackValues(data)
}

func (arguments Arguments) UnpackValues(data []byte) ([]any, error) {
	out := make([]any, 0, len(arguments))
	for i, a := range arguments {
		b, err := bytesAt(32*i, data)
		if err != nil {
			return nil, err
		}
		if a.Type.name == "string" {
			out = append(out, string(b))
		} else {
			out = append(out, b)
		}
	}
	return out, nil
}

func bytesAt(index int, output []byte) ([]byte, error) {
	if index+32 > len(output) {
		return nil, fmt.Errorf("abi: cannot marshal in to go type: length insufficient %d require %d", len(output), index+32)
	}
	end := new(big.Int).SetBytes(output[index : index+32])
	end.Add(end, big.NewInt(32))
	max := big.NewInt(int64(len(output)))
	if end.Cmp(max) > 0 || end.BitLen() > 63 {
		return nil, errors.New("abi: cannot marshal in to go slice: offset would go over slice boundary")
	}
	o := int(end.Uint64())
	total := new(big.Int).Add(end, new(big.Int).SetBytes(output[o-32:o]))
	if total.BitLen() > 63 || total.Cmp(max) > 0 {
		return nil, errors.New("abi: cannot marshal in to go type: length insufficient")
	}
	return output[o:int(total.Uint64())], nil
}
