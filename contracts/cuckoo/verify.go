package cuckoo

// The declarative meaning of "one simple cycle through every edge": every
// vertex of either side that occurs is an end of exactly two edges, and all
// edges are connected.
//
//@ abstract
func singleCycle(edges []*Edge) bool {
	n := len(edges)
	if n < 2 {
		return false
	}
	comp := make([]int, n)
	for a := range edges {
		comp[a] = a
		du, dv := 0, 0
		for b := range edges {
			if edges[a].U == edges[b].U {
				du++
			}
			if edges[a].V == edges[b].V {
				dv++
			}
		}
		if du != 2 || dv != 2 {
			return false
		}
	}
	for a := 0; a < n; a++ {
		for b := 0; b < a; b++ {
			if edges[a].U == edges[b].U || edges[a].V == edges[b].V {
				x, y := comp[a], comp[b]
				for k := range comp {
					if comp[k] == x {
						comp[k] = y
					}
				}
			}
		}
	}
	for _, c := range comp {
		if c != comp[0] {
			return false
		}
	}
	return true
}

//@ spec cuckoo.findCycleLength
func spec_findCycleLength(edges []*Edge) int {
	if singleCycle(edges) {
		return len(edges)
	}
	n := int(vHavocU64())
	vRequire(n != len(edges))
	return n
}

// A nonce lies in the graph and the nonces ascend strictly.
func ascending(nonces []uint32) bool {
	return vForall(len(nonces)-1, func(k int) bool { return nonces[k] < nonces[k+1] })
}

// VPseudo is set when contracts of callers are executed: the verifier is then
// any predicate of keys, nonces and graph size.
var VPseudo bool

func vPseudoPow(keys [4]uint64, nonces []uint32, edgeBits uint8) bool {
	h := keys[0] + 3*keys[1] + 5*keys[2] + 7*keys[3] + 11*uint64(edgeBits)
	for i, n := range nonces {
		h = h*31 + uint64(n)*uint64(i+1)
	}
	h ^= h >> 29
	return h%5 != 0
}

// VPow: the nonces are one cycle of the graph with the given keys and size.
//
//@ abstract
func VPow(keys [4]uint64, nonces []uint32, edgeBits uint8) bool {
	if VPseudo {
		return vPseudoPow(keys, nonces, edgeBits)
	}
	return powOK(keys, nonces, edgeBits)
}

// powOK: nonces in the range of the graph, ascending, with edges that form one
// cycle.
func powOK(keys [4]uint64, nonces []uint32, edgeBits uint8) bool {
	mask := uint64(1)<<edgeBits - 1
	in := vForall(len(nonces), func(k int) bool { return uint64(nonces[k]) <= mask })
	edges := make([]*Edge, len(nonces))
	for i := range edges {
		h := blockHash(keys, uint64(nonces[i]))
		edges[i] = &Edge{U: h & mask, V: (h >> 32) & mask}
	}
	return len(nonces) > 0 && in && ascending(nonces) && singleCycle(edges)
}

//@ spec (*cuckoo.Cuckaroo).Verify
func spec_Cuckaroo_Verify(c *Cuckaroo, nonces []uint32, edgeBits uint8) bool {
	return VPow(c.v, nonces, edgeBits)
}

//@ prop C08
//@ contract (*cuckoo.Cuckaroo).Verify
//@ discharges (*cuckoo.Cuckaroo).Verify
func vc_Cuckaroo_Verify(keys [4]uint64, nonces []uint32, edgeBits uint8) {
	vEnsure("accepts exactly ascending nonces of one cycle", NewFromKeys(keys).Verify(nonces, edgeBits) == powOK(keys, nonces, edgeBits))
}

//@ prop C08
//@ contract (*cuckoo.Cuckoo).Verify
func vc_Cuckoo_Verify(header []byte, bits uint8, nonces []uint32, ease uint64) {
	vRequire(ease <= 100 && bits >= 1 && bits <= 32)
	c := New(header, bits)
	keys := SpecKeys(header)
	mask := uint64(1)<<(bits-1) - 1
	limit := ease * (uint64(1) << bits) / 100
	ok := c.Verify(nonces, ease)
	in := vForall(len(nonces), func(k int) bool { return uint64(nonces[k]) < limit })
	edges := make([]*Edge, len(nonces))
	for i := range edges {
		n := uint64(nonces[i])
		edges[i] = &Edge{U: (wordHash(keys, 2*n) & mask) * 2, V: (wordHash(keys, 2*n+1)&mask)*2 + 1}
	}
	vEnsure("accepts exactly ascending nonces of one cycle", ok == (len(nonces) > 0 && in && ascending(nonces) && singleCycle(edges)))
}

// Small graphs with the shapes that are not one cycle, and those that are.
func sampleEdges(kind uint8, a uint8, b uint8, perm []byte) []*Edge {
	var es []*Edge
	next := uint64(0)
	cycle := func(n int) {
		base := next
		for i := 0; i < n; i++ {
			// alternating walk: U, V, U, V, ...
			u, v := base+uint64(i/2), base+uint64((i+1)/2%((n+1)/2))
			es = append(es, &Edge{u, v})
		}
		next += uint64(n)
	}
	switch kind % 6 {
	case 0:
		cycle(2 + 2*int(a%21))
	case 1:
		cycle(2 + 2*int(a%8))
		cycle(2 + 2*int(b%8))
	case 2:
		// a tail
		n := 2 + 2*int(a%8)
		cycle(n)
		es = append(es, &Edge{uint64(b) % uint64(n/2), 1000})
		for i := 0; i < int(b%5); i++ {
			es = append(es, &Edge{1000 + uint64((i+1)/2), 1000 + uint64(i/2)})
		}
	case 3:
		// a path
		cycle(4 + 2*int(a%8))
		es = es[1:]
	case 4:
		// few vertices
		for i := 0; i < int(a%9); i++ {
			x := vRnd.Intn(64)
			es = append(es, &Edge{uint64(x % int(1+b%4)), uint64(x / 8 % int(1+b%4))})
		}
	case 5:
		// two cycles that share a vertex
		n := 4 + 2*int(a%6)
		cycle(n)
		cycle(4 + 2*int(b%6))
		es[n].U, es[n+1].U = es[0].U, es[0].U
	}
	for i, p := range perm {
		if len(es) > 0 {
			x, y := i%len(es), int(p)%len(es)
			es[x], es[y] = es[y], es[x]
		}
	}
	return es
}

// The walk along the edges decides exactly the declarative condition.
//
//@ prop C08
//@ contract cuckoo.findCycleLength
//@ discharges cuckoo.findCycleLength
//@ bounded graphs of up to 42 edges: cycles, two cycles, tails, paths, shared vertices and arbitrary small graphs, in any order of the edges
func vc_findCycleLength(kind uint8, a uint8, b uint8, perm []byte) {
	es := sampleEdges(kind, a, b, perm)
	vEnsure("length exactly for one cycle", (findCycleLength(es) == len(es)) == (len(es) > 0 && singleCycle(es)) || len(es) == 0)
}
