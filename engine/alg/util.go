package alg

import "math/big"

// ShiftString returns s * 2^e in decimal.
func ShiftString(s string, e int) string {
	n, _ := new(big.Int).SetString(s, 10)
	return n.Lsh(n, uint(e)).String()
}

// DivString divides two decimal numbers exactly as a rational string a/b.
func DivString(a, b string) string {
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	if !ok1 || !ok2 || y.Sign() == 0 {
		return "?"
	}
	return x.Quo(x, y).RatString()
}
