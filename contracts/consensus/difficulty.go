package consensus

import (
	"encoding/binary"
	"sort"
)

// specMedian: the middle of eleven times, in seconds.
func specMedian(l BlockList) int64 {
	t := []int64{}
	for i := 0; i < 11; i++ {
		t = append(t, l[i].Header.Timestamp.Unix())
	}
	sort.Slice(t, func(i, j int) bool { return t[i] < t[j] })
	return t[5]
}

// specTime: the damped time of a window between two medians, in seconds.
func specTime(begin, end int64) int64 {
	ts := (3*3600 + (end - begin)) / 4
	if ts < 1800 {
		return 1800
	}
	if ts > 7200 {
		return 7200
	}
	return ts
}

// specNext: the difficulty required after at least 71 blocks, latest first.
func specNext(l BlockList) uint64 {
	sum := uint64(0)
	for i := 0; i < 60; i++ {
		sum += uint64(l[i].Header.Difficulty)
	}
	d := sum / 60 * 3600 / uint64(specTime(specMedian(l[60:71]), specMedian(l[:11])))
	if d < 1 {
		return 1
	}
	return d
}

// plainTimes: times of whole seconds, as blocks carry them, and difficulties
// whose sums do not overflow.
func plainTimes(l BlockList) bool {
	return vForall(len(l), func(k int) bool {
		h := &l[k].Header
		return h.Timestamp.Nanosecond() == 0 && h.Timestamp.Unix() >= 0 && h.Timestamp.Unix() < 1<<32 && uint64(h.Difficulty) < 1<<44
	})
}

//@ prop C14
//@ contract consensus.NextDifficulty
//@ discharges consensus.NextDifficulty
//@ split n 0 72
func vc_NextDifficulty(l BlockList, n uint8) {
	vRequire(len(l) > 71 && plainTimes(l))
	if n <= 71 {
		l = l[:n]
	}
	if n < 71 {
		d := NextDifficulty(l)
		if n > 0 {
			vEnsure("the minimum for a short history", d == MinimumDifficulty && d == 1)
		}
		return
	}
	vEnsure("the retargeting formula", uint64(NextDifficulty(l)) == specNext(l))
}

//@ prop C14
//@ contract (consensus.Difficulty).FromHash
//@ shape h 32
func vc_Difficulty_FromHash(d Difficulty, h []byte) {
	vEnsure("target over hash", uint64(d.FromHash(h)) == specDifficulty(h))
}

// specDifficulty: the maximum target divided by the first 64 bits of a hash.
func specDifficulty(h []byte) uint64 {
	n := binary.BigEndian.Uint64(h[:8])
	if n == 0 {
		n = 1
	}
	return 0x0fffffffffffffff / n
}

//@ prop C14 C15
//@ contract (*consensus.Proof).ToDifficulty
//@ shape github.com/dblokhin/gringo/consensus.Proof.Nonces 42
func vc_Proof_ToDifficulty(p Proof) {
	vRequire(proofOK(&p))
	vEnsure("of the hash of the proof", uint64(p.ToDifficulty()) == specDifficulty(blake(specProof(&p))))
}


// Required: the difficulty required after some blocks, latest first.
//@ abstract
func Required(l BlockList) uint64 {
	if len(l) == 0 {
		return 0
	}
	if len(l) < 71 {
		return 1
	}
	if !plainTimes(l) {
		return uint64(NextDifficulty(l))
	}
	return specNext(l)
}

//@ spec consensus.NextDifficulty optin
func spec_NextDifficulty(l BlockList) Difficulty {
	vEnsure("precondition of NextDifficulty", plainTimes(l))
	return Difficulty(Required(l))
}

// PlainTimes: the precondition of the retargeting formula.
func PlainTimes(l BlockList) bool { return plainTimes(l) }

//@ spec (*consensus.Proof).ToDifficulty optin
func spec_Proof_ToDifficulty(p *Proof) Difficulty { return Difficulty(ProofDifficulty(p)) }

// ProofDifficulty: the difficulty of a proof.
//@ abstract
func ProofDifficulty(p *Proof) uint64 { return specDifficulty(blake(specProof(p))) }
