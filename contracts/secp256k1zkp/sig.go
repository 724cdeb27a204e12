package secp256k1zkp

import (
	"bytes"
	"crypto/sha256"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	bp "github.com/yoss22/bulletproofs"
)

func b32(x *big.Int) []byte {
	b := bp.GetB32(x)
	return b[:]
}

// specCompressed: a sign byte and the x coordinate.
func specCompressed(p *bp.Point) []byte {
	if p.Y.Bit(0) == 1 {
		return vCat(vU8(3), b32(p.X))
	}
	return vCat(vU8(2), b32(p.X))
}

// PointOK: the x coordinate fits in 32 bytes.
func PointOK(p *bp.Point) bool { return p.X.BitLen() <= 256 }

func specChallenge(rx []byte, pub *bp.Point, msg []byte) *big.Int {
	h := sha256.Sum256(vCat(rx, specCompressed(pub), msg))
	return new(big.Int).SetBytes(h[:])
}

// specR: the point whose y coordinate is the quadratic residue.
func specR(sig [64]byte) *bp.Point {
	x := new(big.Int).SetBytes(sig[0:32])
	x3 := new(big.Int).Mul(x, x)
	x3.Mul(x3, x)
	x3.Add(x3, btcec.S256().Params().B)
	return &bp.Point{X: x, Y: bp.ModSqrtFast(x3)}
}

// SpecSignature: s*G = R + e*P.
func SpecSignature(pub *bp.Point, msg []byte, sig [64]byte) bool {
	s, r := new(big.Int).SetBytes(sig[32:64]), specR(sig)
	e := specChallenge(sig[0:32], pub, msg)
	return bp.ScalarMulPoint(&G, s).Equals(bp.SumPoints(r, bp.ScalarMulPoint(pub, e)))
}

// SpecMessage: fee and lock height at the end of 32 bytes.
func SpecMessage(fee, lock uint64) []byte { return vCat(vU64(0), vU64(0), vU64(fee), vU64(lock)) }

//@ prop C12
//@ contract secp256k1zkp.ComputeMessage
func vc_ComputeMessage(fee uint64, lock uint64) {
	m := ComputeMessage(fee, lock)
	vEnsure("layout", bytes.Equal(m[:], SpecMessage(fee, lock)))
}

//@ prop C12
//@ contract secp256k1zkp.CompressPubkey
func vc_CompressPubkey(p bp.Point) {
	vRequire(PointOK(&p))
	c := CompressPubkey(p)
	vEnsure("sign and coordinate", bytes.Equal(c[:], specCompressed(&p)))
}

//@ prop C12
//@ contract secp256k1zkp.ComputeHash
func vc_ComputeHash(a []byte, b []byte, c []byte) {
	h := ComputeHash(a, b, c)
	w := sha256.Sum256(vCat(a, b, c))
	vEnsure("hash of everything", h == w)
}

//@ prop C12
//@ contract secp256k1zkp.DecodeSignature (secp256k1zkp.Signature).Bytes
func vc_DecodeSignature(sig [64]byte) {
	s := DecodeSignature(sig)
	r := specR(sig)
	vEnsure("scalar", s.S.Cmp(new(big.Int).SetBytes(sig[32:64])) == 0)
	vEnsure("point", s.R.X.Cmp(r.X) == 0 && s.R.Y.Cmp(r.Y) == 0)
	vEnsure("encodes as it was", s.Bytes() == sig)
}

//@ prop C12
//@ contract secp256k1zkp.VerifySignature secp256k1zkp.DecodeSignature
func vc_VerifySignature(pub bp.Point, msg [32]byte, sig [64]byte) {
	vRequire(PointOK(&pub))
	vEnsure("accepts exactly what satisfies the equation", VerifySignature(pub, msg, DecodeSignature(sig)) == SpecSignature(&pub, msg[:], sig))
}

//@ prop C12
//@ contract secp256k1zkp.SignMessage secp256k1zkp.VerifySignature (secp256k1zkp.Signature).Bytes
func vc_SignMessage(key [32]byte, msg [32]byte) {
	x := new(big.Int).SetBytes(key[:])
	pub := bp.ScalarMulPoint(&G, x)
	sig := SignMessage(*pub, *x, msg)
	vEnsure("verifies", VerifySignature(*pub, msg, sig))
	vEnsure("verifies from its bytes", VerifySignature(*pub, msg, DecodeSignature(sig.Bytes())))
	vEnsure("satisfies the equation", SpecSignature(pub, msg[:], sig.Bytes()))
}

//@ prop C12
//@ contract secp256k1zkp.RandomInt
func vc_RandomInt() {
	r := RandomInt()
	vEnsure("below the order of the group", r.Cmp(btcec.S256().N) < 0)
}
