//go:build go1.24

package main

// Seeds found by an offline search. near: the matrix is regular by a hair (the
// smallest pivot of an elimination is near 1e-6).
var near = [][4]uint64{
	{0xaaed660b478e5cf3, 0x7cf9e79d8af8c9c2, 0xad0ab24a91441c6b, 0x1ce7ff376a5585eb},
	{0x5a7b1b3666b71911, 0xfb6145095622e283, 0xd7c4bd9f18e305a0, 0x726028c6ccc15c2b},
	{0xedb1a0ffb0adb260, 0x2417e797ad2a14b1, 0xa60d56f2043ee62c, 0x7b984d5a285e1b8c},
	{0xa6d0d44be69d680a, 0xb3d306d7a1eaf50, 0x697523c578e98de8, 0x7c41d7ee611243e7},
	{0x3dbb1042dcb1d543, 0x4abe77182db151a1, 0xab32e83ba43de65a, 0x12ef9d941ccf2194},
	{0x23e08641fc570123, 0x86d03a8cf393857c, 0x745cde635e1fa1d9, 0xa7786e1cb92f229},
	{0x5edf8673e41e06a8, 0x7c23935d9baf6003, 0xe9448e32e930534d, 0xdc89ac0cc8804410},
	{0xf77c0472f1cc1f3e, 0x12ce4a73729d50f1, 0xa7ee2b4c31771f21, 0x68bcead5048d63ce},
}

// bad: the matrix is regular, but singular modulo the first number.
var bad = []struct {
	p    uint64
	seed [4]uint64
}{
	{1009, [4]uint64{0x801d79c7111acbc2, 0x51c9cc6bcbdbec26, 0x63c144f2e76c9589, 0xeff0c4d197ee1567}},
	{1009, [4]uint64{0x1a2c0213022c9bbd, 0x971da9da991f7645, 0xd95e45c30b3abb8f, 0xf3422b2fe807b7f4}},
	{4093, [4]uint64{0xea82ea6b3cf3edcf, 0x1fe3bba357c82629, 0xf0d3b4e501dbb1ff, 0xfedb8190e3a78c27}},
	{8191, [4]uint64{0x446e2ab6824886ed, 0x83162550211bd08, 0xf1aff069e5bbcb74, 0xd7cf9915af9da76}},
	{4093, [4]uint64{0x38f0ff1234cb4fe, 0x7482f83c6909ee26, 0xd8be28934919879, 0xfa1add2c8a939620}},
	{8191, [4]uint64{0x8b6068a25319e730, 0x163f5322961de698, 0x276f46b90176c86d, 0x417f92aa040f8ace}},
	{10007, [4]uint64{0x5932436281280c82, 0x610b29f31bea10b, 0xa517b09a2b79c43d, 0x56dd0f71e0b9e8ee}},
	{10007, [4]uint64{0x791e7eb08a827a9d, 0x5332eae5a88694b6, 0x27c9025276c2833a, 0xfa210a64c152cff0}},
	{16381, [4]uint64{0x498721c013e58962, 0xa3ae6c15e70d4d56, 0xdc0ce02365f5254d, 0x71376ee249943826}},
	{32749, [4]uint64{0x14158dcb47efdd35, 0x413608c0297d3cb9, 0x428c2050fd2ca41, 0xeadc846221d98347}},
	{32771, [4]uint64{0x2414f1a3cd19eca8, 0x4d0807991c0ce220, 0x595ea6e03cf5a4e3, 0x6fbe08f1b7ff911e}},
	{32771, [4]uint64{0xd747dee38741c94b, 0x6f6c92e6fbbea509, 0xae649ba20994d860, 0x25a8fa52b4bd9b5a}},
	{16381, [4]uint64{0x652989526eb99e0f, 0xbf6530c90d166e85, 0xba011aa7f4445e9e, 0x74e6581575deeef4}},
	{32749, [4]uint64{0xe7db56d7f37d1c82, 0x1f05fd31394784cd, 0xe8fbd945d8ee60a4, 0xe8a6c8cbde3a91b1}},
	{65521, [4]uint64{0xe242f8a50f826947, 0x8dbafa23bb8ca683, 0x344ba8e3590ff44f, 0xf8cf332f1ae02c57}},
	{65537, [4]uint64{0xa5e81a7843f91b82, 0xabbd209089895373, 0x25247cc0047006c9, 0xdf98e4a2595ca0f7}},
	{65537, [4]uint64{0xa2b9ad0f6cb3d750, 0x79b81dd58d866762, 0x312508039bd8d74e, 0x80fb5273ea98dd57}},
	{99991, [4]uint64{0xcc9df5bcfc1cd029, 0xa712969ad70cd8f4, 0xc38dd175dfa71fa1, 0x491743f81262c0ea}},
	{65521, [4]uint64{0x66c45911988ef9f9, 0xff99c8a43e54d2cd, 0xe107f7ba41b00cb0, 0x24dfbc08f82a3672}},
	{99991, [4]uint64{0x4b21aafe302e559a, 0xa9a819a5bd5367bb, 0x30be8f8050739aa0, 0x7d64d06742cfcb76}},
	{131071, [4]uint64{0x7c9ede6d0c70d8c, 0xc12e8f76332356e4, 0xc632b9ef376c5525, 0x9fc875b15e2cc313}},
	{131071, [4]uint64{0xc748cc3fc8142d5a, 0x34d064648cf6051a, 0x732d1b77dea5d99b, 0xd6bae76d6b347f6f}},
	{262139, [4]uint64{0x11e6d0c74c3095ad, 0x95e4d8affe475337, 0xe000cd0aff56d614, 0x114523dbad1430d6}},
	{524287, [4]uint64{0x6207490570bb6b9d, 0xd658dfb79891dc3e, 0x29b95ad46f2430ff, 0x14d281cbdded01fb}},
	{262139, [4]uint64{0x989e1c073038c738, 0xd8126146d9d60a5c, 0x945c18370fa8bc2a, 0xc3846559a56b6855}},
	{524287, [4]uint64{0xb18338daa3bca6f9, 0x6c6fb2da033d27d, 0xc3f5e5bfe32d69a7, 0xf6336a519793c0d3}},
	{1000003, [4]uint64{0x9b595946ac7afe93, 0xf04ef858c495e3d7, 0xc344dcd40d1df1e1, 0x793b82dac1b4e4ab}},
	{1000003, [4]uint64{0x196486360b64265a, 0xe42f69fcb185f819, 0xfaae0f54a18b0986, 0xa37523707d53de38}},
}
