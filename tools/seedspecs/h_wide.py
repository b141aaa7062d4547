seed('c12-shift32', 'C12', 'a graph of more than 2^32 edges',
     'the edge mask is shifted in 32 bits, graphs above that size are cut to 2^32 edges',
     [('cuckoo/client.go', 'edgeMask:  (uint64(1) << edgeBits) - 1,', 'edgeMask:  uint64(uint32(1)<<edgeBits - 1),')],
     'cuckoo', ['testing'], '''
func TestDemo(t *testing.T) {
	const n = 6
	edges := make([]uint64, n)
	for i := range edges {
		edges[i] = uint64(i) + 1<<32
	}
	nodes := func(mask uint64, keys [4]uint64, edge, uorv uint64) uint64 {
		i := edge & 0xff
		if uorv == 0 {
			return (i + i%2) % n << 33
		}
		return i / 2 << 33
	}
	ok, err := NewCuckoo(40, n, nodes, nil).Verify(nil, edges)
	if err != nil || !ok {
		t.Fatal(ok, err)
	}
}
''')
