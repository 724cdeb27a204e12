package p2p

import "net"

// Addresses are mostly well formed.
func vgen_TCPAddr(g *vGen, path string, idx []int) net.TCPAddr {
	n := []int{4, 16}[g.r.Intn(2)]
	if h, ok := g.hinted(g.key(path+".IP.len", idx)); ok && (h == 4 || h == 16) {
		n = int(h)
	}
	ip := make(net.IP, n)
	g.r.Read(ip)
	switch g.r.Intn(6) {
	case 0:
		ip[0] = 224 + byte(g.r.Intn(16))
	case 1:
		for i := range ip {
			ip[i] = 0
		}
	case 2:
		for i := range ip {
			ip[i] = 255
		}
	case 3:
		if n == 16 {
			copy(ip, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
		}
	}
	p := int(g.bits(16) & 0xffff)
	if g.r.Intn(5000) == 0 {
		p = int(g.bits(64))
	}
	return net.TCPAddr{IP: ip, Port: p}
}
