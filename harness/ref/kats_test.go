//go:build go1.24

package ref

var kats = []struct {
	coin              string
	height, nonce     uint64
	hash, mix, digest string
}{
	{"ETH", 10000000, 0x2f6923f80426f157, "69e71ffd37268b6cf7096cdd917c2c175eaaee8eb7afed4b5cf8521b09024818", "37fde31175fe180346444d15b4dfc6a9da3b2b41ee2298ceeccaf888b2d45df4", "00000000000004418223e154cd70e083a4964684bf333f4654dac2fe76b999f6"},
	{"ETH", 12000000, 0xb62c052c3d4a3866, "1940ee93bb48f1982b9fc546ae69ca9a59de4e55f9944900b3abf04436eb1ee1", "114f16f97d044682678844ea69212d6764998107ccb698fc6ae4fd2d71a33104", "000000000000089029050a54342c13f7614c95da4a471ce0ef10c009f84c762b"},
	{"ETH", 12965001, 0x956e895d988798e, "cf133ce0cccd4ad877d671b310c27f5ce19c28c14455dac45b90171bac5581c7", "cb3166ebb1888430069b769145b20ba5e3a55f32fd2fa39f0ebdc08d60b4557e", "00000000000000012923a9ab2605573e0158adeb21c86b22d8ebd33b8ee08856"},
	{"ETC", 12000000, 0x37850ed39b8fedee, "9451157911b225460f07e5eac6f63e39a0f4a6952ba544302c6b2aae51f36064", "929ce5aad1cfe51bfc88104b0ce6fdde605d21a6e1fa171cafbf7cccf310c626", "0000000000012c6470946acc24916d4c5d4c4f143fef2db2f40e1d7e2e47776f"},
	{"ETC", 12500000, 0x431d9c1839838ea1, "1d225541aeda9d1110b9e61c0c6c81f12376e9b4111472351196b9d557ba83d8", "c280665934366eb1ac3fcf5e6f4e37945e05d764acf2a8106a982826078b613c", "00000000000069bdf3a3bf3bab6529869d8419e477e53898d6c123d023386b20"},
	{"ETC", 13344137, 0x9827862e22a92ff1, "27eaf677273c9147cd27b99c34b3783243255864a54b169af238750c39b3c167", "6dd0879bfe248c4ac73160a3d2554ce12431d2033b5f4464559368d855795df7", "000000000000ca4bd2875398d73ab24e8467d5986bfe85ec7fca1b860a540d14"},
	{"RVN", 0, 0x0000000000000000, "0000000000000000000000000000000000000000000000000000000000000000", "6e97b47b134fda0c7888802988e1a373affeb28bcd813b6e9a0fc669c935d03a", "e601a7257a70dc48fccc97a7330d704d776047623b92883d77111fb36870f3d1"},
	{"RVN", 49, 0x0000000007073c07, "63155f732f2bf556967f906155b510c917e48e99685ead76ea83f4eca03ab12b", "d36f7e815ee09e74eceb9c96993a3d681edf2bf0921fc7bb710364042db99777", "e7ced124598fd2500a55ad9f9f48e3569327fe50493c77a4ac9799b96efb9463"},
	{"RVN", 50, 0x00000000076e482e, "9e7248f20914913a73d80a70174c331b1d34f260535ac3631d770e656b5dd922", "d6dc634ae837e2785b347648ea515e25e5d8821ae0b95e1c2a9c2d497e0dcfbd", "ab0ad7ef8d8ee317dd12d10310aceed7321d34fb263791c2de5776a6658d177e"},
	{"RVN", 99, 0x000000003917afab, "de37e1824c86d35d154cf65a88de6d9286aec4f7f10c3fc9f0fa1bcc2687188d", "fa706860e5e0e830d5d1d7157e5bea7f5f8a350c7c8612ac1d1fcf2974d64244", "aa85340690f2e907054324a5021937910e15edfd1ef1577231843e7d32ec3a61"},
	{"RVN", 29950, 0x005d409dbc23a62a, "ac7b55e801511b77e11d52e9599206101550144525b5679f2dab19386f23dcce", "5359807b77a74878269c3a3044df8618a576ce8dc52e1c48d927d4a60e7c6b79", "022019e5408683f7f8326b4e46b42864a3a069f17b6151e434fcaedecaadd918"},
	{"RVN", 29999, 0x005db5fa4c2a3d03, "e43d7e0bdc8a4a3f6e291a5ed790b9fa1a0948a2b9e33c844888690847de19f5", "d15de3f9bfedd9b6d0f498273eb3b437115bdc8326c96c6457ac06deb5c9f389", "4e93630b81198752f876b24380999189b7b9366c08222ac05e4237b87114f305"},
	{"RVN", 30000, 0x005db8607994ff30, "d34519f72c97cae8892c277776259db3320820cb5279a299d0ef1e155e5c6454", "de0348b69bf91dfe2c3d3dba6f0132e9048a5284e57b8d9d20adc5f3dc0d3236", "c7953d848cda6e304f77b4c6d735645c8e8508a5e74c9e9814ef37b19087cd6c"},
	{"RVN", 30049, 0x005e2e215a8ca2e7, "8b6ce5da0b06d18db7bd8492d9e5717f8b53e7e098d9fef7886d58a6e913ef64", "975c6a9decc89cba7ace69338d4de8510d9619aef42b1d35d0bef7e0ce0614a9", "c262d8055e288d04b951a844bfca8ba529f5b4d652b408e3942727d7dd90957a"},
	{"RVN", 30050, 0x005e30899481055e, "c2c46173481b9ced61123d2e293b42ede5a1b323210eb2a684df0874ffe09047", "362f2fabdb9699d3634b6499703f939f378ee4eac803396c2b0ed0fe1d154972", "4cd7e6e79e0b63d42b2b06716a919ccc7834077ec727a9ea94edcdaff2fefab8"},
	{"RVN", 30099, 0x005ea6aef136f88b, "ea42197eb2ba79c63cb5e655b8b1f612c5f08aae1a49ff236795a3516d87bc71", "b1196457261bd05ccb387a8ff3fd02687bf496bd7943d89419465289669e27aa", "39d1ebfa783b61a6fa8e9747d0f9f134efae5cfba284a2c80e8deabae6b98676"},
	{"RVN", 59950, 0x02ebe0503bd7b1da, "49e15ba4bf501ce8fe8876101c808e24c69a859be15de554bf85dbc095491bd6", "df3dbb1669fd35dbb0ae96bbea2d498f0c6992cbddd092aeace42dd933505f95", "b8984cf4021c4433f753654848d721f33a0792b4417241f0cf7c7c2db011a54a"},
	{"RVN", 59999, 0x02edb6275bd221e3, "f5c50ba5c0d6210ddb16250ec3efda178de857b2b1703d8d5403bd0f848e19cf", "5017df70e97ca35638cf439cdbe54f30383d335e18eb4a74d6e166736f1038fa", "4cf1fa62f25b577ac822a6a28d55f8b7e3ae7fe983abd868ae00927e68c41016"},
	{"RVN", 170915, 0x0000000044975727, "5b3e8dfa1aafd3924a51f33e2d672d8dae32fa528d8b1d378d6e4db0ec5d665d", "efb29147484c434f1cc59629da90fd0343e3b047407ecd36e9ad973bd51bbac5", "e7e6bb3b2f9acd3864bc86f72f87237eaf475633ef650c726ac80eb0adf116b6"},
	{"FIRO", 1, 0x85f22c9b3cd2f123, "2d794e900dcad779e658de9078d9a88eee87d75f7b09a8fdd270d3a8e76650c7", "cfab3766331d6c4e6913e6688a71e4c26b7f36c1581cdbec0f5b19db8956eb50", "00017c7de1fa499314f9e3dd3537546982073624f7d478592cf28a6d13929f2d"},
	{"FIRO", 2, 0x85f22c9d3cd3018d, "312d5670db5cb352e232d372df400c050b4966f0f75a358422cd66d49ddac706", "43c12507b86cbf4530217c9d2552b476d02e813d939c0af415f4deb6442c9880", "0000b9689069f0b245f795683b3dd8c7ac6db3042aaa7c4f41c9d9aa457ce38f"},
	{"FIRO", 3, 0x85f22c9d3cd3174e, "e24e712050309ba90ed700b3f398cd86d4b1f1c3512fd4868160e7b46b163b71", "40a97d9bc76f9fafba88d282f37c64f4b83b12a10c884ac44da603e3a1d3c954", "0000f005e9038845ec66c43a16dccc231139c7bbe4233b9ff0ac83e23358e039"},
	{"FIRO", 4, 0x85f22c9a3cd2ecee, "f8ae4c2ddaf46743ebac31d9cb9297ce4899770f0571ebe8b054c33df4f12f99", "5cb1a5886a18720d8c0cd7cc880dec917308d454f01afb3429bdf279a4f119f4", "0000342886ef7663e625e7fd448efafaf3407031b99aa3ad99cea817f9731a91"},
	{"FIRO", 1299, 0xdec25421bac291d6, "e0724517229995bb72bf516a385716627dec523f622c79660a1d27426ca8ad23", "8cff2cf5ae77dff90485a55d1f5a14cc2f0ad0a5dbd129971b8e45a25e01737b", "00021f431adcff9f70154985b469758d7fa97fb0adc33d2f58f856fe19817b4a"},
	{"FIRO", 1300, 0xdec25420bac29b01, "1fc36bd5d1bff8d134e24a997cfa43cbb2a0b956379bdc0c8df444f2553f6b7d", "5f8fe6069efb88d9af861999973b3523295d3b1ec7e8423c965f33b3d12b20b1", "000038a1804eb3976346bf84e679884d56122e113c3b4a301f6180a246644262"},
	{"FIRO", 1301, 0xdec25420bac292d8, "ecbd807e58edaf0fb3ee7c167a7c2728b31cd6a8fd23219afdc5f7be3161c8eb", "30ba0ee0916d403d71cfa78e7fbebca7c31e2e829e977dd18848cb0f22ec5dbf", "00018b40127c8e24ef958d9867b543aec015bb8eb10f77844b49b7451c48bb12"},
	{"FIRO", 1302, 0xdec2541fbac299b5, "4cb46ab5c76d0f86e09d71947ec4d403cb95c8f70a335ae2163cfed2ee06bd05", "01e3ecf528e4f3b40203bfd9651857fa4440b93d5ac5d0c6f7d8d8ccc202014d", "00022678ddd120a3454bc894c139badb5933ae76c5b2c4c2dae2d6c54224ffcf"},
	{"FIRO", 1303, 0xdec2541fbac2a4e9, "0b4410741b34f040065633185af718248093dc66ae9430fbfb69ef023acbf145", "e1e26b162b92599f1c88ef7952b7d265013b7f8e928fe3ff5b051b7c3e6b2a30", "0002b72cba06b7f872af443a826d5409f4d7c9b24ae052324dba403e4d4a8bfa"},
	{"FIRO", 12999, 0x10d0835770ff398f, "0f26f1349755c816aa69090f228f37404c543a717b5d2a060d31000d0ec89140", "d46f166b0ca83df5c1cda3104b496ebe234d55da1bfb0fa8a630b18bdaa6a504", "0001146b5363e81238e48541cc49fb3cfc27d833126e7b49ad60d7a2facc9bda"},
	{"FIRO", 13000, 0x10d0835970ff1254, "794688e6167995f4891124d488365df76becfd2fc47c5c8337c9a545801d8e60", "653b09240717ddc1d251e75cd24b5fb35d7890a08be6e2ac6b97105f0ff5b27d", "000131b06b06be7a9bd653065f21e0a2a6e46996849f9f8daa996df35e1a9f0e"},
	{"FIRO", 13001, 0x10d0835970ff0be0, "49aac6ff085524ac8e5f62f3d83cf538b8ba1c1ef985c4836a0db732d82f5501", "e0a4114afde4f73720f821c033a03783ab4eba3868cd4075fab9c64ccb9961da", "0000ea1289598f14ed43f3a9a6bb3aeadf44f4352df307abac2fa7f4b3f9fbe1"},
	{"FIRO", 13002, 0x10d0835770ff05fa, "e6e3cdbbc6998b2b006906f7b13c0638f43c8dcd1b47e4db75df15b19cc06089", "68f23dd01fba47c9c4ed8e314512bc5108a858ba990fbd5aece5eb50d5593be8", "00005d7d46632a52e2a232a1ff2c8af11a4a64933ac923c2610535b70275d16e"},
	{"FIRO", 13003, 0x10d0835a70ff13e7, "eba5065ece50fbe0df889b80b5429b1138ddbce0c880fc98fc41db27c16acc52", "717f4970843d90af5672bef264b14fda176f5114b71bd2903c0d330d2ea64a5c", "00010f49654b470b6568bdce805d13b333f99691b3477b652c5d0c96b31d7fef"},
	{"FIRO", 13004, 0x10d0835870ff14cc, "5f4d66eedfabeecdb0840b3a94f670b0aa1637567628a979677b944d53d66350", "9c64f92a4a87e2355e05ed307ce3c68ecafa33b78c4a058922a549202a96f832", "0001d2e8ea914a696f9cacafd7c6996d0d06b86ff1f00ae97d8947d70bfe5176"},
	{"FIRO", 13005, 0x10d0835970ff0928, "1a75e51b3c24968ff80af1458872bc2bf7fbd6b7a68663d815299369d1d2b49f", "384428101d1394a2943672077d8edf771e2ddb4b412a97cd4cd3c8497d800285", "0000a463b128e65c08cc4c668b8d35d1740ec0ed5a18344305d7fe939d81e4f4"},
	{"FIRO", 13006, 0x10d0835870ff9174, "7072ca2d6172ae53aed24ec54db19c38f2682b1f3365276237ea1bfb3e2adcfc", "19892a71a2e2de646e80571e287f9a1f2561b7bf30f99052dd9080bc12287a32", "0000d79a1627cc9d8d1f55dd93dc03badfebbdda82dc12df073d40ff7cb344b4"},
	{"FIRO", 13007, 0x10d0835770ff0291, "94c6060f7843dca66edcdd1f752f32c1b9fbf9a523780222ced9748688fba511", "26ff0482fd2d2984cd2a43c3ebf6ed043c5f20df87cabafcce0f880a84674718", "000154031e70c22bd074023d9f2d15d9609a172c77c6693acbb5ded8842c5db6"},
	{"FIRO", 13008, 0x10d0835870ff4802, "f962572c9663cd7986c2560449afa3595d10a290525caf060c65dcef56422659", "ad9bba3d9baa53cf832d25d3afe85c68c3e0baa796c0450e79e17cff8e921cf7", "0000e4891befecbff65859f0aef391b70771acc4196afa30c4ca53ce03bf0dd1"},
	{"FIRO", 13009, 0x10d0835a70ff28f5, "17a943d97e7a157eed35d0a63a1c72a8d364d95b491706eedd7a22da2adceab4", "19263eb69773ba960ed7fddd64e6802101db5e5445ee848e3765cb577fafa13a", "00001c83042832b92722b4049c591a17ee2fef150ccbe2c1e256f5c22cb4df2e"},
	{"FIRO", 13010, 0x10d0835a70ff0934, "8c3715e03eb354ccbf9cd846c97e7b88b0f1d11dfa7efb2c8472dc9885b72856", "0652be5c9c43fd63923cca59dd614e90bbc672c20b493a98c6abbe8ff5f588f8", "0000bb57589af1269c7c65c30d957e47417139cc735610ee6a8191ffc9219f15"},
	{"FIRO", 13011, 0x10d0835870ff21f9, "d227eae293a153735775b2cc3622636bdd3aa5da061734bc1659893a7ae35f57", "6632515805e6416845e8c2b139f2d3b59c0e24acfeec46e154a42b584253f714", "00009c64ce1d8970f17495ba376eded9958f5dd29e2460ef67dfc1fc613387f0"},
	{"FIRO", 13012, 0x10d0835970ff09e1, "431b7cc510b0c16040406006f617833caf00191910763470dfd5af0fd2da2607", "a86156101ca1260fcf4ce609529b871b8eb14035e9bb2b0cd09ac30a53c304c8", "00000184b4f8e57b0fb8147e83275d5f12784e137b45e98c5dbca6bdffd2174b"},
	{"FIRO", 48650, 0xf63c144f8f7a580c, "b1e6202f07ef291b18497c8210639f246d43299c27d1354bb959430b20cebf12", "419d0df63ea7576a3ee8ca2bc226edc193b50caa086aa51b772b59ef805e7cc5", "00004a35ac80a9ccca61baed18a7df446b56b4c7816b928d6c530e2212cb426c"},
	{"FIRO", 48651, 0xf63c14528f7d6a63, "d1175e6a053cd3f346f3c51c144055c869198f5f52531ab8f93a039fee2dd6fb", "ef010595bbd8ed93718a006f33789751a86897a45bbdfc3dd759c7825ae3f4e1", "000042e351bf4f2bd4029a124f71495c520f1450ceba60d4e10b6b8df203598c"},
	{"FIRO", 48652, 0xf63c144f8f7a5e25, "ccef7f9c32178c6cc602472decbf4e7fd94e040170083d5f12021b2b3d71f104", "126f97c6f53f3122e735f7e7bfbadce009c189a4719d3528f58c875af0c4f995", "0000208614e2c5f10af77ed5dd4a39eb18d65142bd8494a948691924424d7bcd"},
	{"FIRO", 48653, 0xf63c14518f7a9067, "2c128024a0274ec45f773fa878e0f9efc309ebc4864e63346931fb0a80ec9f1e", "6d64d93fa9bdd7f3d1a0dd9a18d32293bc665f196017284e4a2fdb7a24e1a2f4", "000045e2e42b17acd3b394c3b13e68ac466366d96f3f859fcda479cf038e3aa5"},
	{"FIRO", 48654, 0xf63c14508f7c08ca, "e735c300f9475fbb068e10a6a5525af6ed23a9d722b824560376de5f63a57616", "db395ee0366eac32d6e9abe6fc4fbcd3a1010263ae0c6a1a3e17a217b22c23d3", "000014d06665181b73056cca8426f9c396f7c4e3f5556b17289c0c3079f730ac"},
	{"FIRO", 48655, 0xf63c144f8f7a760d, "bf0a109b79b2e989590e7a12acccc4d79016e0d95ed73f15170dfc446917552d", "b3285062764170d185f90e79ae315821eb97e556e99761078a07028da478710e", "000020d490bc8079daeb3454c0546272382cdc8539e5927b73e3681ee53c0494"},
	{"FIRO", 48656, 0xf63c14518f7cf884, "0033058cb7a6b4b4a31ac1f5755573a542fa121e2aec6b4b8053ffeb5d25d5cf", "f31c21fa4fa526d8cd61648b75abd7bcad95fbb6abdb552897838a0d699b8aac", "0000114f87c0ab69515ddcc536c2800ffb9000d3d6e92a80f1f4528dc97feb62"},
	{"FIRO", 48657, 0xf63c144f8f7a6b4d, "70517a1e542e8706d22b47f7350dd0940edeec87b15cf8f47fd4f39d38946d5f", "501ffa55559d938660ddff613bb0ecf46f253b45530d3bde7eb4a2fb6cf2d154", "0000465f1a28272e53680cfd4c9962ee6cfed960580cf82afb981fa75ab391e6"},
	{"FIRO", 48658, 0xf63c144f8f7a5219, "0de3db810d0384a17fbdca43c8153fe56b6253e2d83d167c93a562ab6ed9d552", "a41d1e701aa411e56ea8d519be9a49f302ddbcb29969ecf235c751167f0fce22", "0000345f4413afee14d84ba3b155f0b39d841cf3c75cd961e06a5dbedab52478"},
	{"FIRO", 48659, 0xf63c14528f7a8441, "15a8044fb91d7e51a71a0e4192b7a348b27d23742343dfa3f26fd3b1fda53309", "1357cb9ed8339cf39f3293298aa85f9fe6d25b8f0706a74c34d9c25db5253f77", "00000f68bb4cad82f2e113ef54278b7601b9553c764e21b5f7121d8656e6d151"},
	{"FIRO", 48660, 0xf63c14508f7a8541, "5053fcbea728d7c4c3ba2e8ddced295aed66a7a79921b6d3740589accf75bcbe", "6153328c35d1118f48b5ef4e52e9b7ebebe45e03f8a540ac6c15cd1efff66964", "00004710ef9f5f7b1ecaec1f75453a8240ca3b5c8af5b379c1417881d9baf890"},
	{"FIRO", 48661, 0xf63c144f8f7a5152, "0abf147cc465d649f6a2369f43fc48b40ff8c5c2bbf4d11b7539114169dbbc2c", "2984861e2add6efa0fd7fff989eca7d8d636626de0accc467aef4a391d57859b", "0000402da9d2e2576c559032944a4631ce45f02710147987072262ddcc95b2b6"},
	{"FIRO", 96587, 0x6fec0853f96eb6f3, "80b9cd8b67db95fdb900affece4d7d2c14ddec9b901be0d6e42b89fc7819c693", "3a9608a1f415a76a98eb4fbcb2285db14d3e9d411aacb6a89525432b1b228132", "00001e5086d2148fec8df3097580efb2672786bca9fe7dba04cd111f21cd42de"},
	{"FIRO", 96588, 0x6fec0855f96a97e5, "f6737c8737818d6d69078554279f55576102ca182290d263395eb2b7ca3df5f4", "bb6ecae5ae70526d0f35888c11f34cc0095db347e80fe4f2b544efe93aa82db8", "000002dc8b7d376e2ab354af218d96cb29c6869098cd22aeefd3ef3fea0489d8"},
	{"FIRO", 96589, 0x6fec0854f96d1416, "15fff750c0be3b1154b84adf42402ccd068c82c3103ea4e72ea100b49e3b51fe", "542db538572570227f3bdcec56c45788b83da23eeea3cd1edae5ec62df6761cf", "00000b981f0a57e10cbd39096fb27341f21dbb568861bca06efdf6619b563b13"},
	{"FIRO", 96590, 0x6fec0856f969dd81, "0231f310fb1a0cfd63f363802ae3f0a90c50b3b879d8cedb243efc1446d0d6b2", "a91de8ff0849aed667d4e11f610e3fdc4612ea7d8fe6c58e902eaf95c978bf54", "000016f6ebb36334946238e06d484b8ed8ff50477729eb28c4c294a9e8218f97"},
	{"FIRO", 96591, 0x6fec0856f96c094a, "c5cf3e468cf1987809c7ec07a0d54abead5e843c35cb1fd9088b35b55f4a1d28", "37aa1832f41ccb16ca3956148034bcfe6c55fcc41fe835bdca99e1ca41a0bda5", "000008bdb0253bbdef6d0c29b8b840ecd955b4f096fcca1f251ba3060b1b1853"},
	{"FIRO", 138524, 0x3ddce1e1713d2952, "c3245ec955bd49ce5994a800f6c14db5c17fcc6ccc490f77847bbb7381f4f779", "962c9ff57906f6b13e4cbd6d9dd5d0ace43dc69013b49370301cd02a9c90ef11", "0000003bcd31ed7c2341af79941419da4475593cd4eadfeb2c7f1392f36fc1f1"},
	{"FIRO", 138525, 0x3ddce1e471397224, "a4b15a6aa6a61b36b53a4fcba5d0f91deda619a1b639c41e3e796de66d0ece97", "0d92269db895547d47c307219aee739267998c7115c510bb94e50ce75eb6b642", "000005ffdbc2df46b9967115692827e5701a0953d8dfb33375a0e2e7665e8c01"},
	{"FIRO", 265000, 0xf3e95657f2470e38, "5a085fb8be7e0f10cbeb45a1deda25abfef270e12a203c7dfb020aac0723fa7c", "b5500ea9243f46c0ec2a2293dd5c5b49d299395635597597405f3a87225b472f", "00010c328e59ca58ad0fa9c7f0d266c3dc6cfa83e77bb44e92eb9aa2f377abb6"},
	{"FIRO", 265001, 0xf3e95655f247313c, "6071af1007725ee11f28b1f010a1ac0cafbda917947e9737592197f0808290af", "b5a71090dc07218d392a56cbc55c08b9b616d53a0cdc1c166ae1f91ea39c2a6c", "0001269e4b345375261bb78a19a513f536a12e5882c1a7d1152cc8c2df7e8011"},
	{"FIRO", 265002, 0xf3e95657f2472f25, "2ebef575a00ff895cbec8774cf670e2514c05ec1eb0609e740a8522813cad487", "47d8c49c60cd88ea187fcf2eee162b0506606e937a01953f65de54ff4358b2bc", "0000b4760f61f4a37e9a9eb01407b5846c3d27a09dc6b5e7bcfd5c1357f040f4"},
	{"FIRO", 265003, 0xf3e95658f2474f6b, "91b662e2355d7fd83dc847575aa47e321c852bd4105792a85e76f7e5f44e3c90", "94ab3bf6300ae2b2d336f1ec0e6bc482a9736e4740b2bc11bd950be131e7a4fe", "00013b8edb98563fa532445437d2f1e25ca7c8cff3fbc28104fe9cfa1567ef5b"},
	{"FIRO", 400000, 0x32ec0f0a8878e9c1, "df8208e69e7c8eac0121fc6a9377ae0790079352714fbffdb3c4ec13f1bfc884", "65fd5ae460458787790c5c3f07676d9ebde9209625b4069b1f54f8d6ae12c668", "0000d009a21a524e53b49b4776a269549e88b86a90afca329b8f2e7ae70e3776"},
	{"FIRO", 400001, 0x32ec0f0b88790fbe, "b98bcec3991c33a1211d49360cd90c0906652240a56668530bde843e9cfd1703", "c5e943a63ffe8f68eba2b1dcc9fcea7044c5b76c0cd4654ea84ce455f2cd5642", "00006e2a6f617b6de63500382092988d292283d42cb437ade47c1f20f11f0998"},
	{"FIRO", 400002, 0x32ec0f0a8878ee2e, "e220a0c62442740ad95b1b941b054226d720543b3dcdbfae99a72c9ebe71709d", "d497b31427a5ab4f90fea12b46374be01c4fa9a72e8c2e9e39352ee3167f680a", "0001601a6d05af98a48453e8320a5aa408fd0a79ad2a6e8d630128406614ca9d"},
	{"FIRO", 400003, 0x32ec0f0988792f53, "1ac721ef41f48e58d1357f9e1ac588eecf59e4620c5cf1e360e888171b7f6f97", "10184e6c54293704d07d836334c924eb3aee47fd28a2afe68f5cff1e7ee0ece2", "00006a95e279f56df10a9aff98dceb141b83615050dcc1de0a7a9a5daa27f5e2"},
	{"FIRO", 545856, 0x844c83fe15de8d05, "4741563174fb16f3abf2ca9b593e7f2cca7d5363cce3cb6b1792a9fc97b6848a", "a0fee97a41a7bd84a7e2d75a9cac1dd66f0b3ace888f029e2102d14d5f64b09d", "0000305bf56700d0c304b91a57b6564eaa7815926fdaf89e5133fa29e4300ab0"},
	{"FIRO", 545857, 0x844c83fd15dea41f, "c09cb3f75345751eb84e35a71712123d7f0c8e2edbb980be29034a1aadda0725", "46e2dc0f08e4ffbc8cc8a0355676c2e62d9922ec41a3aa27cc1d6948acca543c", "00001cac52c8dafcb697b0fa6257b81891242ec0f89910c15d57629ec31b69c8"},
	{"FIRO", 545858, 0x844c83fd15de3317, "802730918e3776de37b0b03e5f9e1ebd5c7376097e64578a7702a647214432b3", "66d917802bf756031404d6947e4b389db703af51df2b72dc7806e339a0e51961", "00001d63aff2cee40464b7ea580cbc44ae2842a961dfd78f4084ab99179beb30"},
	{"FIRO", 545859, 0x844c83fc15de0838, "c09e4a8e697fb29447a5301b4c716182a267020b131a0f4137c1841e4c6fc8a2", "768f7232065b7d6ae6e2db50b88b8bb8ec5df6dc9dee45ed95850586c60904f3", "0000486174a163e26818c06f6069ee8e16ff66dd26f3e3bcf7bf3c964f999590"},
	{"FIRO", 545860, 0x844c83fd15ddbc98, "421ecabe666b8a4b3c5d9f899a15115f1fc8e2644468459c9f200d2dd10c204c", "19b62e800a00b6ad8208eb53baeebe9d5e96018ccc7df2ebe35cac463984ea4b", "0000368b42a54273789090266c5093f660642e728031448cc6b21b1ca7ebcbb7"},
	{"CFX", 2, 151182848800, "4d99d0b41c7eb0dd1a801c35aae2df28ae6b53bc7743f0818a34b6ec97f5b4ae", "", "d45c965d3707e27a42995132637854234385cbf5626897259f1ee980554ddd5c"},
	{"CFX", 45749306, 0xd653b35d4689284f, "2115dd73ee8e3e15e65d218eedd6846514ac782b636bc5943fbe4f980e2d395b", "", "00000001b739e70d59c01c97652fa4c9540b1028cee284a72cb7c13bcab7536f"},
	{"CFX", 45749306, 0xe437cce8dbe11c39, "2115dd73ee8e3e15e65d218eedd6846514ac782b636bc5943fbe4f980e2d395b", "", "000000005b182d14a581cd3388cf2621fc787b416b5e0a3638ff8adc466e9686"},
}

var ergoKats = []struct {
	msg           string
	nonce, height uint64
	result        string
}{
	{"548c3e602a8f36f8f2738f5f643b02425038044d98543a51cabaa9785e7e864f", 0x3105, 614400, "0002fcb113fe65e5754959872dfdbffea0489bf830beb4961ddc0e9e66a1412a"},
	{"8e26ba46cd2516cce5c0573dc92c6de8f1b7f110bee9aca4d196e5e0e391d029", 0x062360e36e133e4d, 771223, "000000006b216892578fad42f928c9a19638a2abb667a5a8113311393dcca017"},
	{"8e26ba46cd2516cce5c0573dc92c6de8f1b7f110bee9aca4d196e5e0e391d029", 0x062360e385ffa5ce, 771223, "0000000005353a7890377419c1ddfdec0e185fa445886597a4ed69e376190aa1"},
}

var heavyKats = []struct {
	hash   string
	nonce  uint64
	ts     int64
	digest string
}{
	{"81553a695a0588998c413792e74ce8b8f8a096d64b3ee47387372434485c0b6f", 0x2f8400000eba167c, 0x000001848ca87c49, "000000001726686e851f02c584d7cc8a8fbe5938ecdb3ffa2ba16c260ee1fc40"},
	{"9785c4d0e244b3564115fd110e8e608a688b8803baab9fa6948e9f7ba0540f4c", 0x2f8400000ffdd00f, 0x000001848cac94a5, "000000000943f66d7c28611e552e5523bbeb5e61c52d38b86924ca6268269331"},
	{"2f6cea927f6dca4357c9aab4ac8b7957e3a349cc317d4631f26593b90f327256", 0x2f84000005d52b98, 0x000001848cae8db5, "0000000018c4ec84524ee859f660392858fa50b12c1419f36f480fedcd6ee3d8"},
}

var cuckooKats = []struct {
	coin, header string
	edges        []uint64
}{
	{"AE", "69435549583467653534384d6e4e6c4d714b6371365444674a6631446b783548594f4d67705041783249343d71414541414837384141413d000000000000000000000000000000000000000000000000", []uint64{0x003b5d47, 0x00a70508, 0x00d0aa4a, 0x0238a16a, 0x038653bf, 0x03e91d96, 0x03f4baa8, 0x062ef17e, 0x065d7b41, 0x066fbb1e, 0x079af861, 0x08bd2cf2, 0x0956b89d, 0x0b56fb7f, 0x0c098553, 0x0c6d2c27, 0x0d8c0fd9, 0x0ddcbb1d, 0x0e3eccde, 0x0e464bef, 0x0fb09bef, 0x1267ebb1, 0x129ef8e6, 0x138432b5, 0x144d428b, 0x1484e6b6, 0x14efcfba, 0x158d5352, 0x159f3551, 0x15a07563, 0x160a3efd, 0x17c9b61e, 0x184499bc, 0x1844f434, 0x1919053a, 0x197a9095, 0x1aa04947, 0x1bc3f6e5, 0x1d8b4029, 0x1e6a1fe0, 0x1e7e4380, 0x1f5a2a50}},
	{"AE", "5957616c3675576330543433356d6775473877482f4d4378354e45626f6a4837586d38547176614e3862553d566b35374733496f4141413d000000000000000000000000000000000000000000000000", []uint64{0x007791c9, 0x0197cfec, 0x025166a5, 0x025e30b8, 0x03d6aedc, 0x04311736, 0x0516b291, 0x05179816, 0x056ac771, 0x068b92d8, 0x06aee4f8, 0x0817c500, 0x08c1a751, 0x08f1999c, 0x08f46654, 0x092b8770, 0x096034f8, 0x09cfcb6f, 0x0d4f1cdb, 0x0d5b8793, 0x0d5c09a8, 0x0da0e97b, 0x0db38171, 0x0dc09c91, 0x0e34aeaf, 0x0f0251df, 0x10486aa7, 0x14477924, 0x1544daf9, 0x1623e36e, 0x16b55699, 0x16fa6905, 0x177125c6, 0x17f88a4d, 0x19243b3c, 0x19ebdaa7, 0x1b5383f1, 0x1c614cbf, 0x1de144f9, 0x1df596a7, 0x1f629453, 0x1f6b9406}},
	{"AE", "6a4f3142484c734a775a6571367430457650794d76394a44583274387162574859586e496171494d3245773d582b54766c6e496f4141413d000000000000000000000000000000000000000000000000", []uint64{0x008a9cad, 0x008ec69d, 0x00dbf03e, 0x020337ed, 0x0211161e, 0x02ee6658, 0x045d4488, 0x0534f601, 0x0542e80c, 0x062d2002, 0x078ac9b5, 0x07b7112a, 0x07cb2202, 0x07fbc7e7, 0x088827a7, 0x093e3139, 0x0a7af764, 0x0a92c274, 0x0ad8dcb9, 0x0bf8f10f, 0x0c0f0de0, 0x0cc6670d, 0x0dad83b3, 0x104f3b5e, 0x11817d4c, 0x123a7b96, 0x12b9fbdd, 0x1337ce2b, 0x13432b38, 0x15b1b455, 0x16784bf4, 0x1693250e, 0x169d804f, 0x16e811de, 0x195d114e, 0x1b77f0cb, 0x1c55fca6, 0x1cab0177, 0x1cb0a8c3, 0x1d38ea27, 0x1d9aa6dc, 0x1f713d1f}},
	{"CTXC", "6281a031a95a7669e42cf56d46b5d921b067ace29c46c89fa2698f3b895d6fcb21208e4e00000165", []uint64{0x017ca085, 0x0181ca71, 0x096b8b98, 0x09d3a607, 0x0b6bb4c8, 0x0c9bbecb, 0x10d1c645, 0x13ba80dc, 0x13cb4dc9, 0x15ebc37d, 0x164de862, 0x16a7906a, 0x18c28113, 0x199e50ca, 0x1ba70932, 0x1bc435b1, 0x1caad714, 0x1d94ccd4, 0x1da4b49d, 0x1eff189e, 0x2030c2cf, 0x2084a6c3, 0x2111e51e, 0x241ff2d0, 0x26bb0111, 0x275fd4a1, 0x27654850, 0x291041de, 0x2a4c1e5b, 0x2a8e54e1, 0x2ba12d29, 0x2d16cbc0, 0x2e9e0df8, 0x3209259d, 0x32751e22, 0x33107850, 0x332b35f9, 0x33a134d4, 0x354fc224, 0x384052fb, 0x38cdb22e, 0x3e665fed}},
	{"CTXC", "a855bfb05489f16720c241b8f89db047fd63b4e7ffc8942c37edd81c6a4ee2e321208e4e0000022a", []uint64{0x005f7571, 0x008178c5, 0x00b26db9, 0x01045303, 0x013a9f66, 0x021e09af, 0x0223b428, 0x024fe83b, 0x03f17913, 0x03f232d0, 0x050e8553, 0x054dcf61, 0x05db04d4, 0x0696f89c, 0x0834e12e, 0x0857a4d3, 0x0a2fd97b, 0x0aa26d69, 0x0ce78e0b, 0x0d468cfc, 0x0d5413af, 0x0d6fa7d1, 0x0d91d094, 0x0f173576, 0x1450b48b, 0x182aa6fb, 0x1833ba9a, 0x1a06e9c8, 0x1a2f0366, 0x1c7eefcf, 0x1eb26af8, 0x20021c3a, 0x216dba37, 0x2597bce1, 0x25a187a8, 0x26763784, 0x2a4f0d5e, 0x2d48073f, 0x2f3581b5, 0x3518197e, 0x37f4fb08, 0x3d05d79f}},
	{"CTXC", "a855bfb05489f16720c241b8f89db047fd63b4e7ffc8942c37edd81c6a4ee2e321208e4e00000328", []uint64{0x001b27e9, 0x003af2c7, 0x01eed987, 0x039a8920, 0x050de2d0, 0x07f4dde9, 0x07fd54af, 0x0c4e256a, 0x0dbfe2b4, 0x0ef70428, 0x0f103eb0, 0x0f3d3c08, 0x103f426f, 0x14f152bd, 0x15f55244, 0x16531636, 0x16bce128, 0x16ceb3d8, 0x1774ebef, 0x1b25e464, 0x1d837e14, 0x24fcf2ec, 0x264e7881, 0x284f5e09, 0x2994e92d, 0x2cab769d, 0x2d85985f, 0x2dbc88f1, 0x2f3279b1, 0x2f5984a2, 0x30480ed6, 0x30f44f85, 0x32452faf, 0x33b1a793, 0x33ea0ab1, 0x3406943e, 0x34587460, 0x34c301cd, 0x36bd7591, 0x386e9b94, 0x39e03a63, 0x3a7c54c3}},
}

var equiKats = []struct {
	coin, header, soln string
}{
	{"96,5", "457175696861736820697320616e206173796d6d657472696320506f57206261736564206f6e207468652047656e6572616c697365642042697274686461792070726f626c656d2e0100000000000000000000000000000000000000000000000000000000000000", "046a8ed451a2197332e71f39db9c79fbf93fc1443da58fb38d0599172116d555b1b21f32705ce998f60da852f77f0e7f4d63fc2dd230a3d99953a0787dfefcab341bdec8"},
	{"FLUX", "04000000389f266cdabe6a7c4e108814779ba13aa089431fba5149dfde20887e0900000024dd82bd2aedfdd633c49c12ad8144f590a2f23dd03d5f993a70dbc68a921dc2d9988e7adc9c6da15d12246eeb18623d1f8039f5ee6bcae29261e383248d752227ca9862b2fb1a1d2000c19a000000000000000000000000000000000000000000000000ba098e10", "47729e612ed3c5c2dec26730db486d5e7d78d13b0735b2cddb54619f6f31a646178fb35f3f84636c5490edd4f6f9a5010f2aaac8"},
	{"BEAM", "fc40996a518c221384c9f2542ca811cd66c4ccddb001ef40b9f9ba059c20352eb32c7d4f07a3001c", "0fc81c684be229c36b844ef8299a9744dbb8727276bff8cbd610fa7414fb6cfd67b92586f84f8bffaeeb99266994d79da3fb026a24128b84901f244b08ee6b6b954372fcb0a7d33318da6bf1854ae48f94fe8af2d3147bdc7302cc12daa1a306511122a700000000"},
	{"BEAM", "0a24ff76e1f53ddf605c66a21e9e67a68fd37ecdec17dad8500297622f9d9ad48f92d119df9a5346", "559839f684c3bd54be265dc3cf50c66c084a61e9aaca8c1eca5eb8c6be10d91ec6002d58018c19984c47669a28874cb637ec59956424d23b1bba57bb7ff93ccd5f4617d4abb55fc01b15ced28866fc6c4582b85f9422524cf53e6f36c26be675f89ee3f200000000"},
	{"BEAM", "f24852b0580aa448e0cbed5ee84d235ce622b8e443561dbcf196148df2fc024e8f92d119f597eea8", "8dd20dcc03d033a2230a871f8ec10a73ad3475e57e4fdc00fedb5851a45b7945a8888cc19ed9e2dfce8eb9b1d037c5dd8cc66aed275019f1fe765b8944f855cc050e7080fddf74d55268fb7df22d28f0e5d64616a291e3abb842d6f8eebd4bfae719abd800000000"},
}
