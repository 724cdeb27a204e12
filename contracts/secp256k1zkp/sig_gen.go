package secp256k1zkp

import (
	"crypto/sha256"
	"math/big"

	bp "github.com/yoss22/bulletproofs"
)

func vgen_Point(g *vGen, path string, idx []int) bp.Point {
	b := make([]byte, 8)
	g.r.Read(b)
	if b[0]&3 == 0 {
		return *bp.ScalarMulPoint(&G, big.NewInt(7))
	}
	return *bp.ScalarMulPoint(&G, new(big.Int).SetBytes(b))
}

var _ = sha256.New
