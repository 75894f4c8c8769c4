package main

import "math/big"

type bigInt = big.Int

func bigZero() *bigInt         { return new(big.Int) }
func bigNeg(x *bigInt) *bigInt { return new(big.Int).Neg(x) }
func bigAdd(x *bigInt, d int64) *bigInt {
	return new(big.Int).Add(x, big.NewInt(d))
}
