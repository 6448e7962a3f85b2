// Package common stands in for go-ethereum's.
package common

import "encoding/hex"

type Address [20]byte
type Hash [32]byte

func BytesToAddress(b []byte) (a Address) {
	if len(b) > 20 {
		b = b[len(b)-20:]
	}
	copy(a[20-len(b):], b)
	return
}
func BytesToHash(b []byte) (h Hash) {
	if len(b) > 32 {
		b = b[len(b)-32:]
	}
	copy(h[32-len(b):], b)
	return
}
func (h Hash) Bytes() []byte { return h[:] }
func Hex2Bytes(s string) []byte {
	b, _ := hex.DecodeString(s)
	return b
}
func Bytes2Hex(b []byte) string { return hex.EncodeToString(b) }
func CopyBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}
func LeftPadBytes(b []byte, l int) []byte {
	if l <= len(b) {
		return b
	}
	r := make([]byte, l)
	copy(r[l-len(b):], b)
	return r
}
func RightPadBytes(b []byte, l int) []byte {
	if l <= len(b) {
		return b
	}
	r := make([]byte, l)
	copy(r, b)
	return r
}
