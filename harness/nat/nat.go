// Package nat: natural numbers as written for spec/BigNat.tla, and congruence certificates.
package nat

import (
	"bufio"
	"math/big"
	"os"

	"github.com/ldsec/lattigo/v2/ring"
)

// Nat is a number as limbs in base 4096, least significant first.
type Nat []int

// Cert certifies a congruence: the quotient of the difference, and which side is larger.
type Cert struct {
	S int `json:"s"`
	K Nat `json:"k"`
}

var base = big.NewInt(4096)

// Of returns the limbs of x.
func Of(x *big.Int) Nat {
	out := Nat{}
	y := new(big.Int).Set(x)
	r := new(big.Int)
	for y.Sign() > 0 {
		y.DivMod(y, base, r)
		out = append(out, int(r.Int64()))
	}
	return out
}

func U(x uint64) *big.Int        { return new(big.Int).SetUint64(x) }
func OfU(x uint64) Nat           { return Of(U(x)) }
func Add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func Mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

// Cong certifies a = b modulo p (and is worthless if that is false).
func Cong(a, b, p *big.Int) Cert {
	d := new(big.Int).Sub(a, b)
	s := 0
	if d.Sign() < 0 {
		s = 1
		d.Neg(d)
	}
	return Cert{s, Of(d.Div(d, p))}
}

// Prod multiplies.
func Prod(l []uint64) *big.Int {
	m := big.NewInt(1)
	for _, x := range l {
		m.Mul(m, U(x))
	}
	return m
}

// Primes returns distinct NTT primes of the given bit sizes.
func Primes(logN int, groups ...[]int) [][]uint64 {
	cnt := map[int]int{}
	for _, g := range groups {
		for _, b := range g {
			cnt[b]++
		}
	}
	pool := map[int][]uint64{}
	for b, n := range cnt {
		pool[b] = ring.GenerateNTTPrimes(b, 2<<logN, n)
	}
	var out [][]uint64
	for _, g := range groups {
		var l []uint64
		for _, b := range g {
			l = append(l, pool[b][0])
			pool[b] = pool[b][1:]
		}
		out = append(out, l)
	}
	return out
}

// Must panics on errors.
func Must(err error) {
	if err != nil {
		panic(err)
	}
}

// Lines calls f on every line of a file.
func Lines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	Must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	Must(sc.Err())
}
