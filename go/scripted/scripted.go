// Package scripted replaces crypto/rand's reader by a seeded generator before
// any package that reads from it is initialised, so that runs of the driver can
// be repeated. The generator is xoshiro256**.
package scripted

import (
	cryptorand "crypto/rand"
	"encoding/binary"
	"os"
	"strconv"
)

type gen struct{ s [4]uint64 }

func rotl(x uint64, k uint) uint64 { return (x << k) | (x >> (64 - k)) }

func (g *gen) next() uint64 {
	r := rotl(g.s[1]*5, 7) * 9
	t := g.s[1] << 17
	g.s[2] ^= g.s[0]
	g.s[3] ^= g.s[1]
	g.s[1] ^= g.s[2]
	g.s[0] ^= g.s[3]
	g.s[2] ^= t
	g.s[3] = rotl(g.s[3], 45)
	return r
}

func (g *gen) Read(p []byte) (int, error) {
	n := len(p)
	for len(p) >= 8 {
		binary.LittleEndian.PutUint64(p, g.next())
		p = p[8:]
	}
	if len(p) > 0 {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], g.next())
		copy(p, b[:])
	}
	return n, nil
}

// Installed tells that the generator is in place.
var Installed = install()

func install() bool {
	seed, _ := strconv.ParseUint(os.Getenv("DRIVER_SEED"), 10, 64)
	g := &gen{}
	z := seed*0x9e3779b97f4a7c15 + 0x1234567
	for i := range g.s {
		z += 0x9e3779b97f4a7c15
		x := z
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		x = (x ^ (x >> 27)) * 0x94d049bb133111eb
		g.s[i] = x ^ (x >> 31)
	}
	cryptorand.Reader = g
	return true
}
