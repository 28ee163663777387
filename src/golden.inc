{"blake256",32,16777300,"7d354ffaacf03b3531dadcade8222d889bb2b326fa20b76c16b2fc9b32f025ee"},
{"blake2b",64,16777300,"9da01602b0a5c7343621d7ee8be58a8bff13b7a11abe8350b8464c474a409501acc3e29804618695be7fcce1f88d59a5c4c47078867a60bb85c6abfa76a67b94"},
{"blake2s",32,16777300,"283f1136a250bf65f8a0c2759807a9fe44a591ec2cf5360617b479390ed77ffd"},
{"blake512",64,16777300,"98d70da8a8edbb67181e1049f5b37259454043ffbfc44cd3554cb9818b04a4971c6aa5fecfb0336abf8427b4e9a410457bbd9f5ff53824d2e394a0257a474f51"},
{"keccak1600",32,16777300,"149b21b8b2d29953b1be2c761061a1f82d7c28542657a07cf1d75af38314a5cb"},
{"keccak800",20,16777300,"854ee714776877212f6055aa5f424d2863809f04"},
{"md5",16,16777300,"fcd6f70f05f5d9c92e1e6087176be23a"},
{"sha1",20,16777300,"d13d548b860e8d334162635dba81afb84c1d1c54"},
{"sha2_256",32,16777300,"945dde886dada9f04af9a77233b85ce22ffd1a6c3ace92424a3416c60338e9b7"},
{"sha2_512",64,16777300,"38379825676abe1323d3e2cec3e475e1ba3fbda8d71e628b7852d8bb963004816500dab73591bf11c2f18dd4cfc68fc27fff74f97a24b48f32489804d69a5935"},
{"sha3",32,16777300,"be193c6e73e5efcc13d8069a43895464b49ad4f56b726ad12b41086686dc09f5"},
{"skein1024",128,16777300,"400e69c49a77ac5cf528f9bd6eaefb7df10b8783cb42e3e9c50f9c825a609076e19dad38e01961c7746b6cc9296f699a43ea2b89c626411d684364453462ef95aeaac9d459e259b30bf8b30d44bd76a5c5dc8f6ae3b3449a60267567dbec5b63faadd6134a41379b260ed42711136b9a1d9ef71e434c8f815cf79d6f90304a08"},
{"skein256",32,16777300,"7f8fb20d9f0639d3f0a94240be25f3412fa33c9e9036614662b3aee67fecfe1a"},
{"skein512",64,16777300,"9177d500b14286ff46eeb45f08b48b30f4fdaa7d8738a29fd91b6582a5afecf03d92c21dd30907e6fe8bc8a7a4be0fd6d3ab8fa86ecd9f419b1e46e515ff2725"},
{"tiger",24,16777300,"25b1bdc47c0caf206f9ff5287fb40d6a37d36bb00900e977"},
{"whirlpool",64,16777300,"7fe11facb6ad56e27c03d3341f527cdb39c9e31c3487fba70dbc7bbe40fa873392d98b5a7a06b1525a73f6ce49f1afea89076334f38b1f38e22d92986e4b5dce"},
{"blake256",32,4294967373,"a2e03073f5f6aca26616ebde9d93b131f9726586874a6fcccf8acf7cd2fff16f"},
{"blake2b",64,4294967373,"5d785f49c19ae817ed726c664866f41150e8d8533caed5e62cccf3096f471b618dda68bf7606202e4981ae08d6d272bdeb73a23ca11a6f0b974e1346912330cc"},
{"blake2s",32,4294967373,"ec704989b54837abcd71c613137978403577366c66cec0c2be25fbac640334fd"},
{"blake512",64,4294967373,"f31593013864a7c1a550d7baa7145a54c30c0e40b1f0fdac9feb82cbb066f9ddff7103c2d73259621e4b5200fd5cca486bc0f05235004cc3096053a0816b1112"},
{"md5",16,4294967373,"2746949b00813cf35b707e0800c3b6e7"},
{"sha1",20,4294967373,"7fcf8a439021f151d3a9f3e253fb3a2cfa474941"},
{"sha2_256",32,4294967373,"5fbf68976691c9a435372ab240ab086243f292f66bbac81b52da0dc62b3985ec"},
{"sha2_512",64,4294967373,"6785b007cb02d7bc0e4f1f28592091751bf90a74b2fe988e024643c9c7d4406cddd8564ea2e4cb4f7f0ee486859308f12e3fef040c8f9aacf77050c0f19dc829"},
{"skein1024",128,4294967373,"587a6e0003ccb4f35d03a3a7dc66239de23b97d1e436bbdc403b19540e2c50220b8109902b674e7cbfb17123c3682702a486d6f137bd3f8cb2e98c9eaa8538fb84dad1baac23c33d2888a82bcbe9a19214d456fb16b6bfd9bcbeef845529aed7c96ca6444986d7b07064d1739377d5ef40d1733e1985b3530aaea1e1dacc4fea"},
{"skein256",32,4294967373,"1713a42230e3e84951a769ad923170cbc5bfb47b8fd17c90f3573b737a7ffdd8"},
{"skein512",64,4294967373,"aa6a5a9942c6bf0f14b783b45bb35738b466765d52c7e2333a7a8c254821efd883a9f877d1c81113250cb43a371b5c03528a6f21a2fbf701b599ce114f93badc"},
{"tiger",24,4294967373,"2a163a578d89203be696de5992f734dab8320f816d7d57a8"},
{"whirlpool",64,4294967373,"2ac965972b8afb2aa77dd090841966d5852adc2f1207de1045adbbcf87a7018cabe95f82328d69db0e54640b82c4b0d928c42b44a8d3a32cd319fe3aed34ab16"},
{"blake256",32,536870907,"9dd8545252cc26c28d4b980bf2bb60570386494ede256b872117809ae689fda5"},
{"blake2b",64,536870907,"81cf9e5a029ec25533c58e945f33da2e83cf5ef9df2f5c4732c3268b0f61a764faaa5bcef01c378cf2bdfaa4e2a11542da2f5019e3909813c4cf256afedad4df"},
{"blake2s",32,536870907,"90a2264982d555b44e7fe38729f2316712337e436b7a6b0757f5a0c04d04e9c4"},
{"blake512",64,536870907,"985466295f1650995a68b04eeea85ca8fceb281c595393ca0bfad370ffcace981f2c69246a0d5519e99552391a6baf94d6df21238e7ca600636df5c333a9bee9"},
{"keccak1600",32,536870907,"9608788d21d8bd9fc0a215d84122f5344770d0acbd5bd273301e6e01d981c080"},
{"keccak800",20,536870907,"bfadfb110b069fd03398ecffb2a7b4742b49e0ff"},
{"md5",16,536870907,"f27d66cb31b4cb17850fbba943750770"},
{"sha1",20,536870907,"e1c99406306d43613ad1ade3808551abaaf55276"},
{"sha2_256",32,536870907,"2ff59a1e81c543d03919b3c8dee0b6f70707f0539e67ca37c23dfc291259e6b6"},
{"sha2_512",64,536870907,"a8598095e4ec2c2c144046385e863f720c4890b0326e0caad9582094334f9e09215180f4897aec4dbbdb41ca9d96ae88831df869cb3ab475649a010d8c2094d0"},
{"sha3",32,536870907,"b75ae91e4118ab45daf4fdffce208c8f8a75b1452ec15052cc0ef2a2298cdff7"},
{"skein1024",128,536870907,"ab35840019220d812f1deaacbef7430d4ecdb25f261666ae1aa7de01ea60453ca11f6d3295c74786bff12a2990656e65072f2e90987b28db1523fc9a85c691864d9fc6ce4af870a0e1b8f79f93a9bc553dc35efe7c37e9fecf175a798ada7938d600964aa3525bbceebb09a09e5e6796235170454bf286f1eb050a438213f9d2"},
{"skein256",32,536870907,"0d0f046a5302d749a285e285e2a30907f6de315eb39abd7bc2433d1bcc06d678"},
{"skein512",64,536870907,"b52e6f36d6526ccafa37274d2d77e9e87a73619cf913c2456c078bb4f59548e0a5c8618c31962caea2ffb6d2fb15d909b2a75621053517c38d92d4ca4fda2c53"},
{"tiger",24,536870907,"066623f4d5f43d1eb55ba1436ffd48fc91244b448d469356"},
{"whirlpool",64,536870907,"ebfb06ac9280b5ce04efca0b6a19c42a4a1b3e812fd7103557ab22908e29b693f4b00a0c66be7508a7bfa2422ef298dc7eefb6a3df4682582ea6ae4e83431a0d"},
{"blake256",32,536870989,"3913d28afe8d575982b60fce6aa05cd637d5228a973888f99d7af2939a995c0c"},
{"blake2b",64,536870989,"c2bf9dc4e8b9f5002d4e7ca35cb6c5256838b0d4e5a0b81bca4d19dee3460c3f30e9d2b61fb76416724a3b02592e3096a16664ac0506d7b84945d74609c0ee0e"},
{"blake2s",32,536870989,"92e0dcde088a2a92f7dbee29e1d23fbb660076a370b618e0b6d0c7f72d572bb5"},
{"blake512",64,536870989,"86ec843c77a3e2cf224e9648454f335d420963e3d3dd99d12ed7dbb0ceb6bd2a963998d625bc19d8ed0eb5866a97024898ca40cbe109ad138fdd673eb08af4f9"},
{"keccak1600",32,536870989,"d9016857ccc24873e288400bf32e6ee88afd510489a3b2a27ad5e51152af4dcc"},
{"keccak800",20,536870989,"7c367afb8ea18beee8f1a98563f172fdd3cdef0b"},
{"md5",16,536870989,"bb965132fe968d15748c25859fd444eb"},
{"sha1",20,536870989,"64bcdd7d6096e30b40dc9de8690b97bc06b7467f"},
{"sha2_256",32,536870989,"4385fcc6ad13df38f929134adadc0ec69cd3504df07e5a893fa8c704462f972b"},
{"sha2_512",64,536870989,"db774878ab8900f00eea37711b8da7963b18a64297ed31aabc40ef9024ae552cca3379d50040a02fa65b8a6870e3ac88353691b74043820cb42051f68e57e7a3"},
{"sha3",32,536870989,"17a85d538ef87a13f6790b21d84f8ebb481fc4a12319f1d617f2fd0db60c444e"},
{"skein1024",128,536870989,"273ee23ab70ebdb620e7271952d4a441b26be04fca93949027bcc9c3a9c465f263fabdc3f2e9eb181de89c171e7c7164d3a8471f40faa691ebe3676ab2a4499710ab2e89bf96640f304f464e2bc79a098e1b5639666ac62df559b1b0e141f7d9636879eb19afb83b4d7b611145f0382bd850fa4325e0cd1ef1ea68827039480e"},
{"skein256",32,536870989,"3baf5cbc8d0cc79c34a3814b5bf1a9dcdc395f3983300939dc3e5ac198d42aac"},
{"skein512",64,536870989,"e9270a2282fff7475d888aa89bc6d8513574bc9361b7da26fbd5423df77af2affa8f570242e157ba394051c4c7c1998de708b0300d8234344c16a6455ddb35d6"},
{"tiger",24,536870989,"7e5942680111ee3fae4b66007ebdb09d4cae4c0f700e17a3"},
{"whirlpool",64,536870989,"2165e06810891b2f779e2e78431d5a701a4a04f2b1ba7a4cf0e68f8da66010304af55a8f5b99e776d9692822e422fc57e109c889460d2141c05a59207ae7aa0b"},
