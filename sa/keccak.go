package main

import "encoding/binary"

// keccakSum is the Keccak-256 hash, for what is known
func keccakSum(msg []byte) []byte {
	var rc [24]uint64
	lfsr := byte(1)
	for i := range rc {
		for j := uint(0); j < 7; j++ {
			if lfsr&1 != 0 {
				rc[i] |= 1 << (1<<j - 1)
			}
			hi := lfsr >> 7
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	const rate = 136
	p := append(append([]byte{}, msg...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var a [5][5]uint64 // a[x][y]
	rot := func(v uint64, n uint) uint64 { return v<<(n%64) | v>>(64-n%64) }
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		for _, c := range rc {
			var d [5]uint64
			for x := range d {
				for y := 0; y < 5; y++ {
					d[x] ^= a[x][y]
				}
			}
			for x := range a {
				e := d[(x+4)%5] ^ rot(d[(x+1)%5], 1)
				for y := range a[x] {
					a[x][y] ^= e
				}
			}
			x, y, cur := 1, 0, a[1][0]
			for t := uint(0); t < 24; t++ {
				x, y = y, (2*x+3*y)%5
				cur, a[x][y] = a[x][y], rot(cur, (t+1)*(t+2)/2)
			}
			for y := 0; y < 5; y++ {
				var b [5]uint64
				for x := range b {
					b[x] = a[x][y]
				}
				for x := range b {
					a[x][y] = b[x] ^ ^b[(x+1)%5]&b[(x+2)%5]
				}
			}
			a[0][0] ^= c
		}
	}
	out := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], a[i][0])
	}
	return out
}
