package cuckoo

import (
	"golang.org/x/crypto/blake2b"
)

// SipHash-2-4 over 64-bit words and the edges placed by it.

func rotl(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }

// specRound is the SipRound of Aumasson and Bernstein.
func specRound(v [4]uint64) [4]uint64 {
	v0, v1, v2, v3 := v[0], v[1], v[2], v[3]
	v0 += v1
	v2 += v3
	v1 = rotl(v1, 13)
	v3 = rotl(v3, 16)
	v1 ^= v0
	v3 ^= v2
	v0 = rotl(v0, 32)
	v2 += v1
	v0 += v3
	v1 = rotl(v1, 17)
	// Grin's variant: 21 bits, as in the original
	v3 = rotl(v3, 21)
	v1 ^= v2
	v3 ^= v0
	v2 = rotl(v2, 32)
	return [4]uint64{v0, v1, v2, v3}
}

// specWord: compression of one word, 2 rounds, finalisation, 4 rounds.
func specWord(v [4]uint64, m uint64) [4]uint64 {
	v[3] ^= m
	v = specRound(specRound(v))
	v[0] ^= m
	v[2] ^= 0xff
	return specRound(specRound(specRound(specRound(v))))
}

func specDigest(v [4]uint64) uint64 { return v[0] ^ v[1] ^ v[2] ^ v[3] }

// specBlock: the states after each of the 64 nonces of the aligned block.
func specBlock(v [4]uint64, nonce uint64) uint64 {
	base, at := nonce>>6<<6, nonce&63
	var h uint64
	for k := uint64(0); k < 64; k++ {
		v = specWord(v, base+k)
		h = vIte(at == k, specDigest(v), h)
	}
	return vIte(at == 63, specDigest(v), h^specDigest(v))
}

func le64(b []byte) uint64 {
	var x uint64
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

func SpecKeys(header []byte) [4]uint64 {
	h := blake2b.Sum256(header)
	return [4]uint64{le64(h[0:8]), le64(h[8:16]), le64(h[16:24]), le64(h[24:32])}
}

//@ prop C09
//@ discharges cuckoo.siphash24
//@ contract cuckoo.siphash24 (*cuckoo.SipHash24).Write64 (*cuckoo.SipHash24).Sum64 cuckoo.NewSipHash24
func vc_siphash24(v [4]uint64, nonce uint64) {
	vEnsure("SipHash-2-4 of one word", siphash24(v, nonce) == specDigest(specWord(v, nonce)))
}

//@ prop C09
//@ contract (*cuckoo.SipHash24).Write64 (*cuckoo.SipHash24).Sum64
func vc_SipHash24_chain(v [4]uint64, a uint64, b uint64) {
	h := NewSipHash24(v)
	h.Write64(a)
	vEnsure("state after one word", h.Sum64() == specDigest(specWord(v, a)))
	h.Write64(b)
	vEnsure("state after two words", h.Sum64() == specDigest(specWord(specWord(v, a), b)))
}

// blockHash and wordHash: only that they are functions matters to callers.
//
//@ abstract
func blockHash(v [4]uint64, nonce uint64) uint64 { return specBlock(v, nonce) }

//@ abstract
func wordHash(v [4]uint64, nonce uint64) uint64 { return specDigest(specWord(v, nonce)) }

//@ spec cuckoo.siphash24
func spec_siphash24(v [4]uint64, nonce uint64) uint64 { return wordHash(v, nonce) }

//@ spec cuckoo.siphashBlock
func spec_siphashBlock(v [4]uint64, nonce uint64) uint64 {
	if nonce >= 1<<63 {
		panic("precondition of siphashBlock")
	}
	return blockHash(v, nonce)
}

//@ prop C09
//@ contract cuckoo.siphashBlock
//@ discharges cuckoo.siphashBlock
func vc_siphashBlock(v [4]uint64, nonce uint64) {
	vRequire(nonce < 1<<63)
	vEnsure("hash of the block that contains the nonce", siphashBlock(v, nonce) == specBlock(v, nonce))
}

//@ prop C09
//@ contract (*cuckoo.Cuckaroo).NewEdge cuckoo.NewFromKeys
func vc_Cuckaroo_NewEdge(keys [4]uint64, nonce uint32, mask uint64) {
	e := NewFromKeys(keys).NewEdge(nonce, mask)
	h := blockHash(keys, uint64(nonce))
	vEnsure("first endpoint", e.U == h&mask)
	vEnsure("second endpoint", e.V == (h>>32)&mask)
}

//@ prop C09
//@ contract cuckoo.NewCuckaroo
func vc_NewCuckaroo(header []byte, nonce uint32, mask uint64) {
	e := NewCuckaroo(header).NewEdge(nonce, mask)
	h := blockHash(SpecKeys(header), uint64(nonce))
	vEnsure("keys from the header: first endpoint", e.U == h&mask)
	vEnsure("keys from the header: second endpoint", e.V == (h>>32)&mask)
}

//@ prop C09
//@ contract cuckoo.New (*cuckoo.Cuckoo).NewEdge (*cuckoo.Cuckoo).newNode
//@ split bits 1 32
func vc_Cuckoo_NewEdge(header []byte, bits uint8, nonce uint32) {
	c := New(header, bits)
	e := c.NewEdge(nonce)
	k := SpecKeys(header)
	mask := uint64(1)<<(bits-1) - 1
	vEnsure("first endpoint", e.U == (wordHash(k, 2*uint64(nonce))&mask)*2)
	vEnsure("second endpoint", e.V == (wordHash(k, 2*uint64(nonce)+1)&mask)*2+1)
}
