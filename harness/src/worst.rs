//! The hardest inputs of approximations by tables.
//!
//! WORST: the hardest arguments of the circular functions: all values m * 2^q of the
//! format that are closer than 2^-245 to a multiple of pi/2 (in units of
//! pi/2).  Found by an exhaustive search: for every exponent q the convergents
//! of the continued fraction of frac(2^q * 2/pi).
use crate::gen;
use crate::mp::*;

/// The arguments, nearest first.
pub fn pio2() -> Vec<B> {
    WORST
        .iter()
        .map(|&(q, hi, lo)| gen::compose(false, (hi, lo), q).expect("in range"))
        .collect()
}

#[rustfmt::skip]
const WORST: [(i64, u128, u128); 1311] = [
    (181140, 0x19c7578b391b557200c5e4ce28e5, 0xc22dec43ae3fb9be14b646a87afdf78e),
    (181141, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (224843, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (194358, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (140239, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (181142, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (224844, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (194359, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (77533, 0x1665eda72351bac0cd60de634598, 0x8b2f8b8ec7357ab0405dfd2ed1e1e2d2),
    (77534, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (140240, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (192192, 0x1eb41036e8941e18013babf5e62f, 0x2fe6a9e6e0ae6d86fcaa4c5caa788a28),
    (192193, 0xf5a081b744a0f0c009dd5faf317, 0x97f354f3705736c37e55262e553c4514),
    (192194, 0x7ad040dba250786004eeafd798b, 0xcbf9aa79b82b9b61bf2a93172a9e228a),
    (192195, 0x3d68206dd1283c30027757ebcc5, 0xe5fcd53cdc15cdb0df95498b954f1145),
    (18089, 0x10b59d20b980dcd58b83fc27f01c, 0xeacb9490d1649b9590d8c104ce980227),
    (181143, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (60719, 0x1068ca08da170e5b15de138f3372, 0x1d5c03078d67bafb8dd700d546b44813),
    (224845, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (113605, 0x1c24215fb63247956d2d8e01071f, 0x812c9cb880c44e9af1b824117c15676e),
    (113606, 0xe1210afdb1923cab696c700838f, 0xc0964e5c4062274d78dc1208be0ab3b7),
    (12056, 0x1d30e6cbe5cfaecdb65860ea282d, 0xc96e0bffb0006b590559784b1ffe2373),
    (142929, 0x1b4c1bc47e05cd6dfdd8d21c4acf, 0x963856547c4b1866cfe846746795cde7),
    (135263, 0x14a70b43d8984ca19f9088d136ea, 0x36bf8bc998b25d9a90f4339599533176),
    (135264, 0xa5385a1ec4c2650cfc844689b75, 0x1b5fc5e4cc592ecd487a19cacca998bb),
    (194360, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (212547, 0x154e5eaf96085b35829026aef805, 0xc820f70d0a18530299d612a51bb8e242),
    (212548, 0xaa72f57cb042d9ac14813577c02, 0xe4107b86850c29814ceb09528ddc7121),
    (77535, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (140241, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (24553, 0x185880ae90cf3875930765c47908, 0xb1849fadd849733554791bfd0c287c9a),
    (24554, 0xc2c405748679c3ac983b2e23c84, 0x58c24fd6ec24b99aaa3c8dfe86143e4d),
    (61286, 0x1a49dd30a292a2a7ae47a80e47bb, 0x8c9c8a55ed74de2ba80212367fad82e8),
    (61287, 0xd24ee9851495153d723d40723dd, 0xc64e452af6ba6f15d401091b3fd6c174),
    (61288, 0x692774c28a4a8a9eb91ea0391ee, 0xe32722957b5d378aea00848d9feb60ba),
    (61289, 0x3493ba614525454f5c8f501c8f7, 0x7193914abdae9bc575004246cff5b05d),
    (192196, 0x3d68206dd1283c30027757ebcc5, 0xe5fcd53cdc15cdb0df95498b954f1145),
    (18090, 0x10b59d20b980dcd58b83fc27f01c, 0xeacb9490d1649b9590d8c104ce980227),
    (209933, 0x16efdd85c484edb9d4af0165c0d5, 0xb51e8dc0274bd6bcd948df919ae1d778),
    (209934, 0xb77eec2e24276dcea5780b2e06a, 0xda8f46e013a5eb5e6ca46fc8cd70ebbc),
    (209935, 0x5bbf76171213b6e752bc0597035, 0x6d47a37009d2f5af365237e466b875de),
    (209936, 0x2ddfbb0b8909db73a95e02cb81a, 0xb6a3d1b804e97ad79b291bf2335c3aef),
    (181144, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (60720, 0x1068ca08da170e5b15de138f3372, 0x1d5c03078d67bafb8dd700d546b44813),
    (252479, 0x1ac5a270ff58a8c8dae1980a4b28, 0x5c01ffdd9df19b8f7859abe56682df28),
    (252480, 0xd62d1387fac54646d70cc052594, 0x2e00ffeecef8cdc7bc2cd5f2b3416f94),
    (252481, 0x6b1689c3fd62a3236b8660292ca, 0x17007ff7677c66e3de166af959a0b7ca),
    (252482, 0x358b44e1feb15191b5c33014965, 0xb803ffbb3be3371ef0b357cacd05be5),
    (250194, 0x12576cf38ce04fce05ccc01b5a97, 0xfcf5cb40e49fac952115433663f5a4a8),
    (250195, 0x92bb679c67027e702e6600dad4b, 0xfe7ae5a0724fd64a908aa19b31fad254),
    (250196, 0x495db3ce33813f381733006d6a5, 0xff3d72d03927eb25484550cd98fd692a),
    (250197, 0x24aed9e719c09f9c0b998036b52, 0xff9eb9681c93f592a422a866cc7eb495),
    (224846, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (113607, 0xe1210afdb1923cab696c700838f, 0xc0964e5c4062274d78dc1208be0ab3b7),
    (12057, 0x1d30e6cbe5cfaecdb65860ea282d, 0xc96e0bffb0006b590559784b1ffe2373),
    (198759, 0x1b3f48739766cca097b5f67ae111, 0xb78de6d4141c51155b1ead6b7c67273a),
    (198760, 0xd9fa439cbb366504bdafb3d7088, 0xdbc6f36a0a0e288aad8f56b5be33939d),
    (18178, 0x1710da17a7a57ace35c346ab4b82, 0x1e0e28368196bd57895f8817cbb9ac7f),
    (149356, 0x149ecdc673b7e92b7f85d0361782, 0x863696094223f8ff6dfed31b0a34b02a),
    (149357, 0xa4f66e339dbf495bfc2e81b0bc1, 0x431b4b04a111fc7fb6ff698d851a5815),
    (101197, 0x1f311661c29e28f9bb6e30ba8581, 0x3cd49a726159cb3b3a1b8be3d325fe10),
    (101198, 0xf988b30e14f147cddb7185d42c0, 0x9e6a4d3930ace59d9d0dc5f1e992ff08),
    (101199, 0x7cc459870a78a3e6edb8c2ea160, 0x4f35269c985672cece86e2f8f4c97f84),
    (101200, 0x3e622cc3853c51f376dc61750b0, 0x279a934e4c2b39676743717c7a64bfc2),
    (101201, 0x1f311661c29e28f9bb6e30ba858, 0x13cd49a726159cb3b3a1b8be3d325fe1),
    (114379, 0x165262571e6f15fde39cddc91d63, 0xb96bc7e2dd7c3e1d2e89c83ff3e8a064),
    (114380, 0xb29312b8f378afef1ce6ee48eb1, 0xdcb5e3f16ebe1f0e9744e41ff9f45032),
    (114381, 0x5949895c79bc57f78e737724758, 0xee5af1f8b75f0f874ba2720ffcfa2819),
    (142930, 0x1b4c1bc47e05cd6dfdd8d21c4acf, 0x963856547c4b1866cfe846746795cde7),
    (125251, 0x1a82e62c75fe8dd219c2eb5493e9, 0x9e97e34055ae39070df43adc79c07b69),
    (174165, 0x1c830f30d46d390f53b623fac68d, 0x471a9466bd90476afb5edb21a90e6c68),
    (174166, 0xe4187986a369c87a9db11fd6346, 0xa38d4a335ec823b57daf6d90d4873634),
    (174167, 0x720c3cc351b4e43d4ed88feb1a3, 0x51c6a519af6411dabed7b6c86a439b1a),
    (174168, 0x39061e61a8da721ea76c47f58d1, 0xa8e3528cd7b208ed5f6bdb643521cd8d),
    (177747, 0x14bb723db839008440af5c1645f9, 0xc25a74d9a2efae49ab2d26d14b75a42),
    (177748, 0xa5db91edc1c80422057ae0b22fc, 0x8612d3a6cd177d724d5969368a5bad21),
    (135265, 0xa5385a1ec4c2650cfc844689b75, 0x1b5fc5e4cc592ecd487a19cacca998bb),
    (110470, 0x1bb5e74acafab1508204953489a3, 0x8021cc5b423ceba9c9bd3a2632995f82),
    (110471, 0xddaf3a5657d58a841024a9a44d1, 0xc010e62da11e75d4e4de9d13194cafc1),
    (194361, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (254121, 0x1e21f5bf965a598e4c4853bb1088, 0xf81d7a9593874845afb6209b0e6e7955),
    (212549, 0xaa72f57cb042d9ac14813577c02, 0xe4107b86850c29814ceb09528ddc7121),
    (77536, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (140242, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (24555, 0xc2c405748679c3ac983b2e23c84, 0x58c24fd6ec24b99aaa3c8dfe86143e4d),
    (110303, 0x1f9c2601018b1a990292fbe85ab5, 0x62344802f384868a2ec8c62bdd0422a3),
    (51071, 0x1c3cbdc868d98df964ad627a5386, 0xd19984f1c4cfeac6474c4ee3edf2ce52),
    (51072, 0xe1e5ee4346cc6fcb256b13d29c3, 0x68ccc278e267f56323a62771f6f96729),
    (224063, 0x1ecb5b90986e0c896f0b601c66cf, 0x5c5515a0991b10bac25d9001452aec50),
    (224064, 0xf65adc84c370644b785b00e3367, 0xae2a8ad04c8d885d612ec800a2957628),
    (224065, 0x7b2d6e4261b83225bc2d80719b3, 0xd71545682646c42eb0976400514abb14),
    (224066, 0x3d96b72130dc1912de16c038cd9, 0xeb8aa2b413236217584bb20028a55d8a),
    (224067, 0x1ecb5b90986e0c896f0b601c66c, 0xf5c5515a0991b10bac25d9001452aec5),
    (61290, 0x3493ba614525454f5c8f501c8f7, 0x7193914abdae9bc575004246cff5b05d),
    (192197, 0x3d68206dd1283c30027757ebcc5, 0xe5fcd53cdc15cdb0df95498b954f1145),
    (115529, 0x175513168fd7669c0a4bf3802790, 0xfed100f8143d2352d30703e36543d5cf),
    (3160, 0x1c9a2de301672f477e948de154f3, 0x60648dc7939e6f99da557bcff9eff902),
    (3161, 0xe4d16f180b397a3bf4a46f0aa79, 0xb03246e3c9cf37cced2abde7fcf7fc81),
    (18091, 0x10b59d20b980dcd58b83fc27f01c, 0xeacb9490d1649b9590d8c104ce980227),
    (219535, 0x140834f20025c9a5763baaa3b36b, 0xe8c5f10a1ead84d8ad9f859cf19f16f6),
    (219536, 0xa041a790012e4d2bb1dd551d9b5, 0xf462f8850f56c26c56cfc2ce78cf8b7b),
    (209937, 0x2ddfbb0b8909db73a95e02cb81a, 0xb6a3d1b804e97ad79b291bf2335c3aef),
    (181145, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (60721, 0x1068ca08da170e5b15de138f3372, 0x1d5c03078d67bafb8dd700d546b44813),
    (252483, 0x358b44e1feb15191b5c33014965, 0xb803ffbb3be3371ef0b357cacd05be5),
    (74709, 0x15e47897390d8b9efd2c4de9d4f1, 0x644b17ade7db135aee0382e4bc4cb236),
    (74710, 0xaf23c4b9c86c5cf7e9626f4ea78, 0xb2258bd6f3ed89ad7701c1725e26591b),
    (250198, 0x24aed9e719c09f9c0b998036b52, 0xff9eb9681c93f592a422a866cc7eb495),
    (224847, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (113608, 0xe1210afdb1923cab696c700838f, 0xc0964e5c4062274d78dc1208be0ab3b7),
    (238438, 0x1742076b68dde43118158b6a28b6, 0x5921ff75d7d8205dcbb08d5e87efd020),
    (238439, 0xba103b5b46ef2188c0ac5b5145b, 0x2c90ffbaebec102ee5d846af43f7e810),
    (238440, 0x5d081dada37790c460562da8a2d, 0x96487fdd75f6081772ec2357a1fbf408),
    (238441, 0x2e840ed6d1bbc862302b16d4516, 0xcb243feebafb040bb97611abd0fdfa04),
    (238442, 0x1742076b68dde43118158b6a28b, 0x65921ff75d7d8205dcbb08d5e87efd02),
    (238443, 0xba103b5b46ef2188c0ac5b5145, 0xb2c90ffbaebec102ee5d846af43f7e81),
    (12058, 0x1d30e6cbe5cfaecdb65860ea282d, 0xc96e0bffb0006b590559784b1ffe2373),
    (198761, 0xd9fa439cbb366504bdafb3d7088, 0xdbc6f36a0a0e288aad8f56b5be33939d),
    (18179, 0x1710da17a7a57ace35c346ab4b82, 0x1e0e28368196bd57895f8817cbb9ac7f),
    (149358, 0xa4f66e339dbf495bfc2e81b0bc1, 0x431b4b04a111fc7fb6ff698d851a5815),
    (101202, 0x1f311661c29e28f9bb6e30ba858, 0x13cd49a726159cb3b3a1b8be3d325fe1),
    (114382, 0x5949895c79bc57f78e737724758, 0xee5af1f8b75f0f874ba2720ffcfa2819),
    (142931, 0x1b4c1bc47e05cd6dfdd8d21c4acf, 0x963856547c4b1866cfe846746795cde7),
    (181180, 0x19b0d06001d930450f3124d99ad5, 0x1f3ed7e1b8d991a337825ccb8d473edc),
    (181181, 0xcd8683000ec98228798926ccd6a, 0x8f9f6bf0dc6cc8d19bc12e65c6a39f6e),
    (181182, 0x66c341800764c1143cc493666b5, 0x47cfb5f86e366468cde09732e351cfb7),
    (229546, 0x12073fdf58801421c57491e590a6, 0x2d860ec3a90a5876d9ac19f8aed1cd8e),
    (229547, 0x9039fefac400a10e2ba48f2c853, 0x16c30761d4852c3b6cd60cfc5768e6c7),
    (152652, 0x14b8590ba3de2211378f9cbf683d, 0x2ebf94c2a2425565fb5c60e950047eb9),
    (160201, 0x1ba7bf47c9feecd7f8574196aaea, 0xbdab04b18ef0d959b534431c6dfabf69),
    (125252, 0x1a82e62c75fe8dd219c2eb5493e9, 0x9e97e34055ae39070df43adc79c07b69),
    (92402, 0x1a1db565f2a0f4c373e4a29d62e3, 0x84140fce5255a53a2c5b51c5f7cc810e),
    (92403, 0xd0edab2f9507a61b9f2514eb171, 0xc20a07e7292ad29d162da8e2fbe64087),
    (81404, 0x1b21ea7ac2f472156b47e372cfb9, 0x2776a3e765a7886ac70293995f9f29ef),
    (155609, 0x127f7e3913c53c7a5fad8b717cc5, 0x934ee7fe93cbe0ac0b89c4c17b0f47a),
    (155610, 0x93fbf1c89e29e3d2fd6c5b8be62, 0x849a773ff49e5f05605c4e260bd87a3d),
    (174169, 0x39061e61a8da721ea76c47f58d1, 0xa8e3528cd7b208ed5f6bdb643521cd8d),
    (29042, 0x1dfeb84343dcf35ce0adfc9660f8, 0xc2ac9069d6d9a1e6233ab55e7701ad2a),
    (29043, 0xeff5c21a1ee79ae7056fe4b307c, 0x61564834eb6cd0f3119d5aaf3b80d695),
    (177749, 0xa5db91edc1c80422057ae0b22fc, 0x8612d3a6cd177d724d5969368a5bad21),
    (135266, 0xa5385a1ec4c2650cfc844689b75, 0x1b5fc5e4cc592ecd487a19cacca998bb),
    (110472, 0xddaf3a5657d58a841024a9a44d1, 0xc010e62da11e75d4e4de9d13194cafc1),
    (162610, 0x172ca3e9fde3ec43fa797838a394, 0xd02382cfe5f7ace97c37170ce2573dd8),
    (162611, 0xb9651f4fef1f621fd3cbc1c51ca, 0x6811c167f2fbd674be1b8b86712b9eec),
    (162612, 0x5cb28fa7f78fb10fe9e5e0e28e5, 0x3408e0b3f97deb3a5f0dc5c33895cf76),
    (162613, 0x2e5947d3fbc7d887f4f2f071472, 0x9a047059fcbef59d2f86e2e19c4ae7bb),
    (194362, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (254122, 0x1e21f5bf965a598e4c4853bb1088, 0xf81d7a9593874845afb6209b0e6e7955),
    (212550, 0xaa72f57cb042d9ac14813577c02, 0xe4107b86850c29814ceb09528ddc7121),
    (77537, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (50288, 0x1363b86e34525d4c4a99d6bb6adf, 0xc4df3ef4b7fde94c26314a443b89a1ce),
    (50289, 0x9b1dc371a292ea6254ceb5db56f, 0xe26f9f7a5bfef4a61318a5221dc4d0e7),
    (140243, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (233842, 0x106e1a56e6233b004aa00f9b7f51, 0xbecd65f3f3e658cc7c0b1e0e2af86f6c),
    (233843, 0x8370d2b73119d80255007cdbfa8, 0xdf66b2f9f9f32c663e058f07157c37b6),
    (233844, 0x41b8695b988cec012a803e6dfd4, 0x6fb3597cfcf996331f02c7838abe1bdb),
    (24556, 0xc2c405748679c3ac983b2e23c84, 0x58c24fd6ec24b99aaa3c8dfe86143e4d),
    (110304, 0x1f9c2601018b1a990292fbe85ab5, 0x62344802f384868a2ec8c62bdd0422a3),
    (51073, 0xe1e5ee4346cc6fcb256b13d29c3, 0x68ccc278e267f56323a62771f6f96729),
    (16802, 0x165558a054043f15289ee44184af, 0x4b91adbfd0a9e5b096063ca75330ec36),
    (16803, 0xb2aac502a021f8a944f7220c257, 0xa5c8d6dfe854f2d84b031e53a998761b),
    (224068, 0x1ecb5b90986e0c896f0b601c66c, 0xf5c5515a0991b10bac25d9001452aec5),
    (61291, 0x3493ba614525454f5c8f501c8f7, 0x7193914abdae9bc575004246cff5b05d),
    (188111, 0x1894b90a4ddf8a78ecc09b2e8d32, 0x4ed2af4f12ddfc69677fc7384a86519b),
    (192198, 0x3d68206dd1283c30027757ebcc5, 0xe5fcd53cdc15cdb0df95498b954f1145),
    (86021, 0x119356fa853af25fb7100dd994cc, 0x32a30a7c49d64f50567656b5eb3df58e),
    (86022, 0x8c9ab7d429d792fdb8806ecca66, 0x1951853e24eb27a82b3b2b5af59efac7),
    (118152, 0x1fd38b7bbc8f1670c1f4f769567b, 0xc1955ef591a236f1c6517b678ea53c20),
    (118153, 0xfe9c5bdde478b3860fa7bb4ab3d, 0xe0caaf7ac8d11b78e328bdb3c7529e10),
    (118154, 0x7f4e2deef23c59c307d3dda559e, 0xf06557bd64688dbc71945ed9e3a94f08),
    (118155, 0x3fa716f7791e2ce183e9eed2acf, 0x7832abdeb23446de38ca2f6cf1d4a784),
    (118156, 0x1fd38b7bbc8f1670c1f4f769567, 0xbc1955ef591a236f1c6517b678ea53c2),
    (118157, 0xfe9c5bdde478b3860fa7bb4ab3, 0xde0caaf7ac8d11b78e328bdb3c7529e1),
    (115530, 0x175513168fd7669c0a4bf3802790, 0xfed100f8143d2352d30703e36543d5cf),
    (3162, 0xe4d16f180b397a3bf4a46f0aa79, 0xb03246e3c9cf37cced2abde7fcf7fc81),
    (18092, 0x10b59d20b980dcd58b83fc27f01c, 0xeacb9490d1649b9590d8c104ce980227),
    (257462, 0x15085f47e67cc9f769d48e337856, 0x995bc13efcf5f00ef4a6410bc5b08919),
    (100495, 0x18d0b312c7e767ae118c98574fb1, 0x6de41ba50571a9b3ae693f2976cf9b37),
    (82124, 0x1a87bcc85ae8e3896cf5885c9a70, 0xf8d971a30055c1bb6dcc135a40dd52b5),
    (219537, 0xa041a790012e4d2bb1dd551d9b5, 0xf462f8850f56c26c56cfc2ce78cf8b7b),
    (55337, 0x1fdfd0d0856a94d9855994683bf1, 0xdacca78c273da06c5957ff8525cdb78e),
    (55338, 0xfefe86842b54a6cc2acca341df8, 0xed6653c6139ed0362cabffc292e6dbc7),
    (115044, 0x17f3d39fa0c8f842f675c8449518, 0x66a792d92f7cd0a5c37ef44f3206c56b),
    (209938, 0x2ddfbb0b8909db73a95e02cb81a, 0xb6a3d1b804e97ad79b291bf2335c3aef),
    (209018, 0x12bf71ceb7e0ea2895bca436bacf, 0xda08360ed7e9d5f79c7eabac8e283f8c),
    (209019, 0x95fb8e75bf075144ade521b5d67, 0xed041b076bf4eafbce3f55d647141fc6),
    (209020, 0x4afdc73adf83a8a256f290daeb3, 0xf6820d83b5fa757de71faaeb238a0fe3),
    (181146, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (69148, 0x1a255a7edda1175e43deea114d12, 0xba2489865fec4553ffc4f4832bfdeb3f),
    (208226, 0x1e696a494b8b1e696fbde9619ad7, 0x1b5f70703fef233ef80f6790f4447ea3),
    (60722, 0x1068ca08da170e5b15de138f3372, 0x1d5c03078d67bafb8dd700d546b44813),
    (246569, 0x174f651ecc420afb060de3cda076, 0x8a0a17a279e27ba289f4752381d6b843),
    (64444, 0x1a1c3c8e97e19021a0d319e9e014, 0x8f330281afa9e65e3ed9ced46f9a724c),
    (64445, 0xd0e1e474bf0c810d0698cf4f00a, 0x47998140d7d4f32f1f6ce76a37cd3926),
    (64446, 0x6870f23a5f864086834c67a7805, 0x23ccc0a06bea79978fb673b51be69c93),
    (109924, 0x1ba7eef36c7bf2a76be28708c9cd, 0x7fae68657fbbf82ec8548dad3ba6633e),
    (109925, 0xdd3f779b63df953b5f1438464e6, 0xbfd73432bfddfc17642a46d69dd3319f),
    (252484, 0x358b44e1feb15191b5c33014965, 0xb803ffbb3be3371ef0b357cacd05be5),
    (199606, 0x105507599d785ae7db8afcc53ccd, 0xdd1c3d3b649ca24611e6ebff88b15aa9),
    (74711, 0xaf23c4b9c86c5cf7e9626f4ea78, 0xb2258bd6f3ed89ad7701c1725e26591b),
    (250199, 0x24aed9e719c09f9c0b998036b52, 0xff9eb9681c93f592a422a866cc7eb495),
    (224848, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (113609, 0xe1210afdb1923cab696c700838f, 0xc0964e5c4062274d78dc1208be0ab3b7),
    (21740, 0x1238560f3fecc42d54a44074d1d3, 0xc0add45618aba8c198ef96b941e85c6c),
    (21741, 0x91c2b079ff66216aa52203a68e9, 0xe056ea2b0c55d460cc77cb5ca0f42e36),
    (21742, 0x48e1583cffb310b5529101d3474, 0xf02b7515862aea30663be5ae507a171b),
    (209188, 0x160a4e777292369801f515aeab68, 0xaa0b168209a4c36867d379c12bd8faa9),
    (238444, 0xba103b5b46ef2188c0ac5b5145, 0xb2c90ffbaebec102ee5d846af43f7e81),
    (239433, 0x19161b1a76b2280033b9036a7553, 0x106e8cab0d68d72429a06a3912ff031f),
    (12059, 0x1d30e6cbe5cfaecdb65860ea282d, 0xc96e0bffb0006b590559784b1ffe2373),
    (129423, 0x1a52357f8ec1218aabefb1204ea5, 0x6276ce62ddc9b13d4fa8b5255449a4c0),
    (129424, 0xd291abfc76090c555f7d8902752, 0xb13b67316ee4d89ea7d45a92aa24d260),
    (129425, 0x6948d5fe3b04862aafbec4813a9, 0x589db398b7726c4f53ea2d4955126930),
    (129426, 0x34a46aff1d82431557df62409d4, 0xac4ed9cc5bb93627a9f516a4aa893498),
    (129427, 0x1a52357f8ec1218aabefb1204ea, 0x56276ce62ddc9b13d4fa8b5255449a4c),
    (129428, 0xd291abfc76090c555f7d890275, 0x2b13b67316ee4d89ea7d45a92aa24d26),
    (129429, 0x6948d5fe3b04862aafbec4813a, 0x9589db398b7726c4f53ea2d495512693),
    (198762, 0xd9fa439cbb366504bdafb3d7088, 0xdbc6f36a0a0e288aad8f56b5be33939d),
    (199175, 0x12b5aeebcaa2a14ca54065f7d8ce, 0x34edc715220c41295dcf2c2e749c635),
    (18180, 0x1710da17a7a57ace35c346ab4b82, 0x1e0e28368196bd57895f8817cbb9ac7f),
    (149359, 0xa4f66e339dbf495bfc2e81b0bc1, 0x431b4b04a111fc7fb6ff698d851a5815),
    (101203, 0x1f311661c29e28f9bb6e30ba858, 0x13cd49a726159cb3b3a1b8be3d325fe1),
    (114383, 0x5949895c79bc57f78e737724758, 0xee5af1f8b75f0f874ba2720ffcfa2819),
    (142932, 0x1b4c1bc47e05cd6dfdd8d21c4acf, 0x963856547c4b1866cfe846746795cde7),
    (74238, 0x1b724df8175c8b57ebffdc691b42, 0x4aa6a055bb6a2ce614633705d1a59110),
    (74239, 0xdb926fc0bae45abf5ffee348da1, 0x2553502addb516730a319b82e8d2c888),
    (74240, 0x6dc937e05d722d5fafff71a46d0, 0x92a9a8156eda8b398518cdc174696444),
    (74241, 0x36e49bf02eb916afd7ffb8d2368, 0x4954d40ab76d459cc28c66e0ba34b222),
    (74242, 0x1b724df8175c8b57ebffdc691b4, 0x24aa6a055bb6a2ce614633705d1a5911),
    (158221, 0x1646b28a7651787610fb335ee2ce, 0x15ba8769357b52e0365c3d8cabc3805),
    (60147, 0x14bbfdd7111458995d8dc7b16637, 0x7c8b6d69d403ddef16a402bc5c2f894a),
    (60148, 0xa5dfeeb888a2c4caec6e3d8b31b, 0xbe45b6b4ea01eef78b52015e2e17c4a5),
    (225276, 0x1276b6f4ebd9355ecfd8861a13fc, 0x296af40bdec732e4479b5522235c3bc),
    (225277, 0x93b5b7a75ec9aaf67ec430d09fe, 0x14b57a05ef63997223cdaa9111ae1de),
    (225278, 0x49dadbd3af64d57b3f6218684ff, 0xa5abd02f7b1ccb911e6d54888d70ef),
    (181183, 0x66c341800764c1143cc493666b5, 0x47cfb5f86e366468cde09732e351cfb7),
    (177246, 0x1e65e385f431dbe841c7adec5cfe, 0xd21b8a77d14623faf74d9a534984fe22),
    (177247, 0xf32f1c2fa18edf420e3d6f62e7f, 0x690dc53be8a311fd7ba6cd29a4c27f11),
    (229548, 0x9039fefac400a10e2ba48f2c853, 0x16c30761d4852c3b6cd60cfc5768e6c7),
    (152653, 0x14b8590ba3de2211378f9cbf683d, 0x2ebf94c2a2425565fb5c60e950047eb9),
    (45957, 0x1ccc1e57bbac9c90a3e0bf70aa28, 0xbd679aadec2e592d86713d32ff3f1047),
    (160202, 0x1ba7bf47c9feecd7f8574196aaea, 0xbdab04b18ef0d959b534431c6dfabf69),
    (118632, 0x1be1099f7436e4952f9ad99e8833, 0x40132c8ecc659d5da494c0e0a1d51b92),
    (118633, 0xdf084cfba1b724a97cd6ccf4419, 0xa00996476632ceaed24a607050ea8dc9),
    (125253, 0x1a82e62c75fe8dd219c2eb5493e9, 0x9e97e34055ae39070df43adc79c07b69),
    (109341, 0x141de8dbbe7712be0b9344267c30, 0xfbea68e5a67890451b57f0f60622668f),
    (97090, 0x1c65b8d300eeb6aec1ce09232a47, 0xc0a154829b6174b574f87357e1aa9b6c),
    (97091, 0xe32dc6980775b5760e704919523, 0xe050aa414db0ba5aba7c39abf0d54db6),
    (97092, 0x7196e34c03badabb0738248ca91, 0xf0285520a6d85d2d5d3e1cd5f86aa6db),
    (115968, 0x1767490d1b6b6dfd0cfca1590612, 0xdacb8e30b9df8beac7077dd5c1b2ed8b),
    (92404, 0xd0edab2f9507a61b9f2514eb171, 0xc20a07e7292ad29d162da8e2fbe64087),
    (81405, 0x1b21ea7ac2f472156b47e372cfb9, 0x2776a3e765a7886ac70293995f9f29ef),
    (211552, 0x1087ee26f23678538d3e3dd6d3c4, 0xb19f018b1d27ef38bed413cb26fbc3b),
    (204508, 0x12977493157f3ce59d47ef27baea, 0x97e5f507a96d4ee5fe223e34491737f0),
    (204509, 0x94bba498abf9e72cea3f793dd75, 0x4bf2fa83d4b6a772ff111f1a248b9bf8),
    (204510, 0x4a5dd24c55fcf396751fbc9eeba, 0xa5f97d41ea5b53b97f888f8d1245cdfc),
    (204511, 0x252ee9262afe79cb3a8fde4f75d, 0x52fcbea0f52da9dcbfc447c68922e6fe),
    (204512, 0x12977493157f3ce59d47ef27bae, 0xa97e5f507a96d4ee5fe223e34491737f),
    (155611, 0x93fbf1c89e29e3d2fd6c5b8be62, 0x849a773ff49e5f05605c4e260bd87a3d),
    (187903, 0x1f4dbc69b22d00d8977355e5f5cb, 0xb9839e8e3ee640cac0d61f89e7d4eba2),
    (187904, 0xfa6de34d916806c4bb9aaf2fae5, 0xdcc1cf471f732065606b0fc4f3ea75d1),
    (183557, 0x1b039a4bd36d95194cab12d03d87, 0xe2b46663d67ba36c614a3c9d714a16e0),
    (183558, 0xd81cd25e9b6ca8ca65589681ec3, 0xf15a3331eb3dd1b630a51e4eb8a50b70),
    (183559, 0x6c0e692f4db6546532ac4b40f61, 0xf8ad1998f59ee8db18528f275c5285b8),
    (183560, 0x36073497a6db2a32995625a07b0, 0xfc568ccc7acf746d8c294793ae2942dc),
    (183561, 0x1b039a4bd36d95194cab12d03d8, 0x7e2b46663d67ba36c614a3c9d714a16e),
    (183562, 0xd81cd25e9b6ca8ca65589681ec, 0x3f15a3331eb3dd1b630a51e4eb8a50b7),
    (174170, 0x39061e61a8da721ea76c47f58d1, 0xa8e3528cd7b208ed5f6bdb643521cd8d),
    (60271, 0x19164a0c8eddd8bb409b619750bf, 0x8242a93a93b652b58890457028d1f417),
    (144389, 0x15a5fb50655173ea6f09096e6dcd, 0x8d2c900dc208a479c22755fec0954ced),
    (211486, 0x14b2ad858338e71bc630beab17f8, 0x99c372c764917af8509e800d85841636),
    (211487, 0xa5956c2c19c738de3185f558bfc, 0x4ce1b963b248bd7c284f4006c2c20b1b),
    (29044, 0xeff5c21a1ee79ae7056fe4b307c, 0x61564834eb6cd0f3119d5aaf3b80d695),
    (205464, 0x1ace61234131a60219c362ab4314, 0x96b32a316dc88506b64fab8bef0e1f4d),
    (177750, 0xa5db91edc1c80422057ae0b22fc, 0x8612d3a6cd177d724d5969368a5bad21),
    (165806, 0x184cee9a46f924b0cd721c7631b9, 0xfee6bb8ad0496bdb6e875626d05506cb),
    (135267, 0xa5385a1ec4c2650cfc844689b75, 0x1b5fc5e4cc592ecd487a19cacca998bb),
    (4263, 0x171a2a6af1902f6c6a5258d7cdae, 0x9ae01edd68514481e5209479cd307cf8),
    (4264, 0xb8d153578c817b635292c6be6d7, 0x4d700f6eb428a240f2904a3ce6983e7c),
    (4265, 0x5c68a9abc640bdb1a949635f36b, 0xa6b807b75a1451207948251e734c1f3e),
    (4266, 0x2e3454d5e3205ed8d4a4b1af9b5, 0xd35c03dbad0a28903ca4128f39a60f9f),
    (213666, 0x1af759303de37303c7ddb5493a75, 0x874a3616eb8f00779c1e6824cc8e9801),
    (255364, 0x1d92d4ae34debc7ba27f5eeb39e3, 0xdc50286ad35e130a88be792c17c39008),
    (255365, 0xec96a571a6f5e3dd13faf759cf1, 0xee28143569af0985445f3c960be1c804),
    (255366, 0x764b52b8d37af1ee89fd7bace78, 0xf7140a1ab4d784c2a22f9e4b05f0e402),
    (255367, 0x3b25a95c69bd78f744febdd673c, 0x7b8a050d5a6bc2615117cf2582f87201),
    (258310, 0x111901374505f9daf71faf9d3ca0, 0x7171a94acf556e80d10e1b9fcfeca92c),
    (258311, 0x88c809ba282fced7b8fd7ce9e50, 0x38b8d4a567aab74068870dcfe7f65496),
    (258312, 0x446404dd1417e76bdc7ebe74f28, 0x1c5c6a52b3d55ba0344386e7f3fb2a4b),
    (78330, 0x1ad9a42397b9285dbbfb4f623270, 0xdf746ead86d31c9608538398aa450824),
    (78331, 0xd6cd211cbdc942eddfda7b11938, 0x6fba3756c3698e4b0429c1cc55228412),
    (78332, 0x6b66908e5ee4a176efed3d88c9c, 0x37dd1bab61b4c7258214e0e62a914209),
    (139064, 0x1f7ed2293855eefb6b82e0c0ade6, 0x9456092ac40ab27e1ec2795975a16938),
    (139065, 0xfbf69149c2af77db5c1706056f3, 0x4a2b04956205593f0f613cacbad0b49c),
    (139066, 0x7dfb48a4e157bbedae0b8302b79, 0xa515824ab102ac9f87b09e565d685a4e),
    (139067, 0x3efda45270abddf6d705c1815bc, 0xd28ac1255881564fc3d84f2b2eb42d27),
    (35628, 0x10d22f52af1ec347568457bed5f2, 0xb6adc999584f684d97fdaf1bac09633f),
    (249537, 0x14291fadd03342b1b0f92a8109c3, 0xaf2c3c65df1c4263e142686af51a5ccf),
    (110473, 0xddaf3a5657d58a841024a9a44d1, 0xc010e62da11e75d4e4de9d13194cafc1),
    (162614, 0x2e5947d3fbc7d887f4f2f071472, 0x9a047059fcbef59d2f86e2e19c4ae7bb),
    (23447, 0x1151d80d9b3fa0c6a79cf96f105c, 0xabe94643398853e94568ed30d0e83b41),
    (14811, 0x13644cdf23cb57443db8a333761a, 0xe9d1da61a9f6208bb691000e450ab060),
    (14812, 0x9b2266f91e5aba21edc5199bb0d, 0x74e8ed30d4fb1045db48800722855830),
    (14813, 0x4d91337c8f2d5d10f6e28ccdd86, 0xba7476986a7d8822eda440039142ac18),
    (14814, 0x26c899be4796ae887b714666ec3, 0x5d3a3b4c353ec41176d22001c8a1560c),
    (14815, 0x13644cdf23cb57443db8a333761, 0xae9d1da61a9f6208bb691000e450ab06),
    (14816, 0x9b2266f91e5aba21edc5199bb0, 0xd74e8ed30d4fb1045db4880072285583),
    (167070, 0x1760fdcb6ab6ea0b8f0dff31ccb5, 0x11d1ef80a687a4ff61c6c8f53fac9b03),
    (7027, 0x19dc4f82039cac33061e64ad690b, 0xce78d516602c9f2f35127d516873fefc),
    (7028, 0xcee27c101ce5619830f3256b485, 0xe73c6a8b30164f979a893ea8b439ff7e),
    (7029, 0x67713e080e72b0cc187992b5a42, 0xf39e3545980b27cbcd449f545a1cffbf),
    (194363, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (254123, 0x1e21f5bf965a598e4c4853bb1088, 0xf81d7a9593874845afb6209b0e6e7955),
    (212551, 0xaa72f57cb042d9ac14813577c02, 0xe4107b86850c29814ceb09528ddc7121),
    (77538, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (50290, 0x9b1dc371a292ea6254ceb5db56f, 0xe26f9f7a5bfef4a61318a5221dc4d0e7),
    (233790, 0x1756c61cee6d72f84613f3f57a78, 0x57a3fc77f3a8772e88bcfb82ade8588c),
    (233791, 0xbab630e7736b97c2309f9fabd3c, 0x2bd1fe3bf9d43b97445e7dc156f42c46),
    (233792, 0x5d5b1873b9b5cbe1184fcfd5e9e, 0x15e8ff1dfcea1dcba22f3ee0ab7a1623),
    (140244, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (110774, 0x182f186b79ba649e63e375df47d8, 0x4321d21d0af36cd3510098d88a6a9390),
    (110775, 0xc178c35bcdd324f31f1baefa3ec, 0x2190e90e8579b669a8804c6c453549c8),
    (110776, 0x60bc61ade6e992798f8dd77d1f6, 0x10c8748742bcdb34d4402636229aa4e4),
    (110777, 0x305e30d6f374c93cc7c6ebbe8fb, 0x8643a43a15e6d9a6a20131b114d5272),
    (110778, 0x182f186b79ba649e63e375df47d, 0x84321d21d0af36cd3510098d88a6a939),
    (102838, 0x11afaf1990e0ff6976c4b5a43d6a, 0x8b2090798007be5d001a7adfb18046a7),
    (233845, 0x41b8695b988cec012a803e6dfd4, 0x6fb3597cfcf996331f02c7838abe1bdb),
    (24557, 0xc2c405748679c3ac983b2e23c84, 0x58c24fd6ec24b99aaa3c8dfe86143e4d),
    (226878, 0x1ea951e2cf31a77889111e7b8e53, 0x2ac7e3a4cc137843dc37403a2836018d),
    (125377, 0x1820fbf507c1e591b1c9551b2a1b, 0x306789a10dc10acff5cf33802a0b7660),
    (125378, 0xc107dfa83e0f2c8d8e4aa8d950d, 0x9833c4d086e08567fae799c01505bb30),
    (125379, 0x6083efd41f079646c725546ca86, 0xcc19e268437042b3fd73cce00a82dd98),
    (125380, 0x3041f7ea0f83cb236392aa36543, 0x660cf13421b82159feb9e67005416ecc),
    (125381, 0x1820fbf507c1e591b1c9551b2a1, 0xb306789a10dc10acff5cf33802a0b766),
    (125382, 0xc107dfa83e0f2c8d8e4aa8d950, 0xd9833c4d086e08567fae799c01505bb3),
    (110305, 0x1f9c2601018b1a990292fbe85ab5, 0x62344802f384868a2ec8c62bdd0422a3),
    (51074, 0xe1e5ee4346cc6fcb256b13d29c3, 0x68ccc278e267f56323a62771f6f96729),
    (167397, 0x1460f6792ac5ac8b0ca9471c9791, 0xd226487c15152ca277ebd6a768baf3e0),
    (167398, 0xa307b3c9562d6458654a38e4bc8, 0xe913243e0a8a96513bf5eb53b45d79f0),
    (167399, 0x5183d9e4ab16b22c32a51c725e4, 0x7489921f05454b289dfaf5a9da2ebcf8),
    (167400, 0x28c1ecf2558b591619528e392f2, 0x3a44c90f82a2a5944efd7ad4ed175e7c),
    (167401, 0x1460f6792ac5ac8b0ca9471c979, 0x1d226487c15152ca277ebd6a768baf3e),
    (167402, 0xa307b3c9562d6458654a38e4bc, 0x8e913243e0a8a96513bf5eb53b45d79f),
    (52647, 0x1c2762ba33fe09e8d73549818518, 0x861d116874ae9ebd0f87d86a7274560),
    (52648, 0xe13b15d19ff04f46b9aa4c0c28c, 0x430e88b43a574f5e87c3ec35393a2b0),
    (52649, 0x709d8ae8cff827a35cd52606146, 0x2187445a1d2ba7af43e1f61a9c9d158),
    (52650, 0x384ec57467fc13d1ae6a93030a3, 0x10c3a22d0e95d3d7a1f0fb0d4e4e8ac),
    (52651, 0x1c2762ba33fe09e8d7354981851, 0x80861d116874ae9ebd0f87d86a727456),
    (52652, 0xe13b15d19ff04f46b9aa4c0c28, 0xc0430e88b43a574f5e87c3ec35393a2b),
    (16804, 0xb2aac502a021f8a944f7220c257, 0xa5c8d6dfe854f2d84b031e53a998761b),
    (224069, 0x1ecb5b90986e0c896f0b601c66c, 0xf5c5515a0991b10bac25d9001452aec5),
    (61292, 0x3493ba614525454f5c8f501c8f7, 0x7193914abdae9bc575004246cff5b05d),
    (239652, 0x14a94c891c4a9ef8c836a33d93de, 0xf6b47242baaf277130369ac30e72ca1d),
    (188112, 0x1894b90a4ddf8a78ecc09b2e8d32, 0x4ed2af4f12ddfc69677fc7384a86519b),
    (192199, 0x3d68206dd1283c30027757ebcc5, 0xe5fcd53cdc15cdb0df95498b954f1145),
    (53977, 0x197674011608fe372234bcd907f7, 0xb3df19a22ab5ea49d9a20f224d5438e8),
    (53978, 0xcbb3a008b047f1b911a5e6c83fb, 0xd9ef8cd1155af524ecd1079126aa1c74),
    (53979, 0x65d9d0045823f8dc88d2f3641fd, 0xecf7c6688aad7a92766883c893550e3a),
    (53980, 0x32ece8022c11fc6e446979b20fe, 0xf67be3344556bd493b3441e449aa871d),
    (16100, 0x105cfae8964d1682d7111c341d31, 0x7dc23db158ad31ae2667ba7554a57dc),
    (16101, 0x82e7d744b268b416b888e1a0e98, 0x83ee11ed8ac5698d71333dd3aaa52bee),
    (16102, 0x4173eba259345a0b5c4470d074c, 0x41f708f6c562b4c6b8999ee9d55295f7),
    (224713, 0x18000311cc287f7e0761e68b2e53, 0x2459baeb5a4aea0eda2e15583dc357bb),
    (86023, 0x8c9ab7d429d792fdb8806ecca66, 0x1951853e24eb27a82b3b2b5af59efac7),
    (118158, 0xfe9c5bdde478b3860fa7bb4ab3, 0xde0caaf7ac8d11b78e328bdb3c7529e1),
    (239194, 0x1fd70e5ffa9cf40d05cf49f73c9d, 0x998288d7fd32c11c8e3f391c67734591),
    (115531, 0x175513168fd7669c0a4bf3802790, 0xfed100f8143d2352d30703e36543d5cf),
    (3163, 0xe4d16f180b397a3bf4a46f0aa79, 0xb03246e3c9cf37cced2abde7fcf7fc81),
    (18093, 0x10b59d20b980dcd58b83fc27f01c, 0xeacb9490d1649b9590d8c104ce980227),
    (154117, 0x11a5071cda81708ef480591cf971, 0x93947b32bdd0c6ef58471b3a8f1fb3b9),
    (75011, 0x1cff3fd6bf48d953615733446980, 0xc37e72ee2fa3fa5127517a9e593d8e61),
    (114242, 0x1d53e56d46fb4f2cf84e828469c1, 0x87c2d231ac321784d1d9e6ed912daead),
    (123356, 0x18bb62b8509cb852b42613914f92, 0x55f5ac3320d3fcd30a4931bc29bb2193),
    (58320, 0x1508e8e24fd7964a86029fe8a7ad, 0xe73bc610e860663eec039ced8186ee5c),
    (58321, 0xa84747127ebcb2543014ff453d6, 0xf39de3087430331f7601ce76c0c3772e),
    (58322, 0x5423a3893f5e592a180a7fa29eb, 0x79cef1843a18198fbb00e73b6061bb97),
    (22816, 0x15d89a14a0333bdfcd809d7fe0d4, 0x4203614e01048a80955f9062740eaf0e),
    (22817, 0xaec4d0a50199defe6c04ebff06a, 0x2101b0a7008245404aafc8313a075787),
    (257463, 0x15085f47e67cc9f769d48e337856, 0x995bc13efcf5f00ef4a6410bc5b08919),
    (66366, 0x17f8d0d502897265f519e3bc061c, 0x8648d6d90d53f14ac533989bc679de91),
    (129666, 0x170060789e8083141fe66cce2564, 0x74bcddff574a24239ab08b8601692073),
    (100496, 0x18d0b312c7e767ae118c98574fb1, 0x6de41ba50571a9b3ae693f2976cf9b37),
    (46449, 0x1c0db2aaa147560f237af5d7d041, 0xf3713c458feaf737015323630362794b),
    (82125, 0x1a87bcc85ae8e3896cf5885c9a70, 0xf8d971a30055c1bb6dcc135a40dd52b5),
    (128168, 0x1b2406772d2773d58c9bf7b36b05, 0x42b8b22b77d0f77f127db414e56aaaab),
    (239928, 0x12b5b93f433212cc11665daa4a2c, 0xe62a7c2366b999ebf027e96360b5ff7a),
    (239929, 0x95adc9fa199096608b32ed52516, 0x73153e11b35cccf5f813f4b1b05affbd),
    (219538, 0xa041a790012e4d2bb1dd551d9b5, 0xf462f8850f56c26c56cfc2ce78cf8b7b),
    (146285, 0x180252cfeab8b06c06c875c289e9, 0x77e7419aa11a9b433c0ee976d93ece77),
    (48719, 0x1e27727f1ad19e79feea714bfd2f, 0x494cf4592487b67fccda8a1645aa525d),
    (55339, 0xfefe86842b54a6cc2acca341df8, 0xed6653c6139ed0362cabffc292e6dbc7),
    (54706, 0x136a7b66ae03d6980fd6262f1011, 0x9a975f8c4925929ec4964542a987534c),
    (54707, 0x9b53db35701eb4c07eb13178808, 0xcd4bafc62492c94f624b22a154c3a9a6),
    (54708, 0x4da9ed9ab80f5a603f5898bc404, 0x66a5d7e3124964a7b1259150aa61d4d3),
    (115045, 0x17f3d39fa0c8f842f675c8449518, 0x66a792d92f7cd0a5c37ef44f3206c56b),
    (209939, 0x2ddfbb0b8909db73a95e02cb81a, 0xb6a3d1b804e97ad79b291bf2335c3aef),
    (49068, 0x1ab320f59d7451d95e8e3cd3ab37, 0xe29ee4c7f0db0a7dba2ffe6baae02a9b),
    (169150, 0x1cb9909e802c2b818aacd6f0bfb0, 0x10032eca5cba1acab96f4329b5235800),
    (169151, 0xe5cc84f401615c0c5566b785fd8, 0x80197652e5d0d655cb7a194da91ac00),
    (169152, 0x72e6427a00b0ae062ab35bc2fec, 0x400cbb2972e86b2ae5bd0ca6d48d600),
    (169153, 0x3973213d005857031559ade17f6, 0x20065d94b974359572de86536a46b00),
    (169154, 0x1cb9909e802c2b818aacd6f0bfb, 0x10032eca5cba1acab96f4329b523580),
    (169155, 0xe5cc84f401615c0c5566b785fd, 0x8080197652e5d0d655cb7a194da91ac0),
    (169156, 0x72e6427a00b0ae062ab35bc2fe, 0xc0400cbb2972e86b2ae5bd0ca6d48d60),
    (169157, 0x3973213d005857031559ade17f, 0x6020065d94b974359572de86536a46b0),
    (169158, 0x1cb9909e802c2b818aacd6f0bf, 0xb010032eca5cba1acab96f4329b52358),
    (169159, 0xe5cc84f401615c0c5566b785f, 0xd8080197652e5d0d655cb7a194da91ac),
    (169160, 0x72e6427a00b0ae062ab35bc2f, 0xec0400cbb2972e86b2ae5bd0ca6d48d6),
    (169161, 0x3973213d005857031559ade17, 0xf6020065d94b974359572de86536a46b),
    (209021, 0x4afdc73adf83a8a256f290daeb3, 0xf6820d83b5fa757de71faaeb238a0fe3),
    (164430, 0x13397cacc6fef5b469202ee63ff0, 0xcae7ca1241b5af5f30bdbd1a0e135de0),
    (164431, 0x99cbe56637f7ada349017731ff8, 0x6573e50920dad7af985ede8d0709aef0),
    (164432, 0x4ce5f2b31bfbd6d1a480bb98ffc, 0x32b9f284906d6bd7cc2f6f468384d778),
    (164433, 0x2672f9598dfdeb68d2405dcc7fe, 0x195cf9424836b5ebe617b7a341c26bbc),
    (164434, 0x13397cacc6fef5b469202ee63ff, 0xcae7ca1241b5af5f30bdbd1a0e135de),
    (164435, 0x99cbe56637f7ada349017731ff, 0x86573e50920dad7af985ede8d0709aef),
    (6605, 0x1fc62e407a8814478e5417108a0f, 0x9b30769fc3e93ca0d20ce82d325670c7),
    (181147, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (69149, 0x1a255a7edda1175e43deea114d12, 0xba2489865fec4553ffc4f4832bfdeb3f),
    (171095, 0x1af233649d29031689c86af6be52, 0x92c55ab9cd4b68dd087ebbd61990fd8d),
    (241352, 0x17e03a8a6d2680b87c5b144641b5, 0xc163a9d11231a3db4c406ce8bd55dee7),
    (208227, 0x1e696a494b8b1e696fbde9619ad7, 0x1b5f70703fef233ef80f6790f4447ea3),
    (60723, 0x1068ca08da170e5b15de138f3372, 0x1d5c03078d67bafb8dd700d546b44813),
    (246570, 0x174f651ecc420afb060de3cda076, 0x8a0a17a279e27ba289f4752381d6b843),
    (60316, 0x1a2f478e3c9b48af612ee26a7596, 0xef0075b6f600aa910d3c72f1f1a2b4af),
    (64447, 0x6870f23a5f864086834c67a7805, 0x23ccc0a06bea79978fb673b51be69c93),
    (109926, 0xdd3f779b63df953b5f1438464e6, 0xbfd73432bfddfc17642a46d69dd3319f),
    (19228, 0x1edfd4be77d38aa3ee270cfc5e49, 0xd00dabdf00b4b88bcd7edd285608450a),
    (19229, 0xf6fea5f3be9c551f713867e2f24, 0xe806d5ef805a5c45e6bf6e942b042285),
    (252485, 0x358b44e1feb15191b5c33014965, 0xb803ffbb3be3371ef0b357cacd05be5),
    (199607, 0x105507599d785ae7db8afcc53ccd, 0xdd1c3d3b649ca24611e6ebff88b15aa9),
    (74712, 0xaf23c4b9c86c5cf7e9626f4ea78, 0xb2258bd6f3ed89ad7701c1725e26591b),
    (176668, 0x18e6546b1d18bf41a2dafe4c07df, 0x9b86515c00eccb97e3b20234ae4a5627),
    (250200, 0x24aed9e719c09f9c0b998036b52, 0xff9eb9681c93f592a422a866cc7eb495),
    (83196, 0x10e08ede6e602a3fe075aa0fa180, 0x91b9cd0b1e77ed2aa94bcc7a73e1f3a7),
    (148099, 0x183abbf08f00ae170d90f12affb4, 0xe7793742b438c2a41972c9087a832c99),
    (224849, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (34306, 0x19a031474efce8aae35d8a8e4afd, 0x119de7afe1d7a27233d64f9eea07b4af),
    (220095, 0x1e1ec5de3beeda1ead75173c7987, 0xffefd00239efc0c2eba57017c855b412),
    (220096, 0xf0f62ef1df76d0f56ba8b9e3cc3, 0xfff7e8011cf7e06175d2b80be42ada09),
    (139855, 0x1cedf9eec1014f681749cc9ffd36, 0x8dc900a805f62aa0d926d565d78a9115),
    (113610, 0xe1210afdb1923cab696c700838f, 0xc0964e5c4062274d78dc1208be0ab3b7),
    (131985, 0x1affbff679f23ace9f94587472c2, 0x549b2b9bc71715d67bfee72b231f664b),
    (21743, 0x48e1583cffb310b5529101d3474, 0xf02b7515862aea30663be5ae507a171b),
    (115067, 0x14831fe858fb478c05717477ce38, 0x4da1c651ef41b8599afead5f366562b8),
    (115068, 0xa418ff42c7da3c602b8ba3be71c, 0x26d0e328f7a0dc2ccd7f56af9b32b15c),
    (115069, 0x520c7fa163ed1e3015c5d1df38e, 0x136871947bd06e1666bfab57cd9958ae),
    (115070, 0x29063fd0b1f68f180ae2e8ef9c7, 0x9b438ca3de8370b335fd5abe6ccac57),
    (231968, 0x18347af085df58d8aeb15c1f0bd5, 0xc497a4f7459bd5146b67e70e6d97fb7c),
    (231969, 0xc1a3d7842efac6c5758ae0f85ea, 0xe24bd27ba2cdea8a35b3f38736cbfdbe),
    (231970, 0x60d1ebc2177d6362bac5707c2f5, 0x7125e93dd166f5451ad9f9c39b65fedf),
    (237558, 0x1a2cc8ddc22e76090c56dfc463ad, 0xa83f4392292fc5acda33ae2198029c23),
    (209189, 0x160a4e777292369801f515aeab68, 0xaa0b168209a4c36867d379c12bd8faa9),
    (238445, 0xba103b5b46ef2188c0ac5b5145, 0xb2c90ffbaebec102ee5d846af43f7e81),
    (75665, 0x1731a90c14909ddee61c95aff7e9, 0x77688b25a9312a00c02be2275c795d23),
    (200135, 0x1400cad74f21c98139e26adb5950, 0x4164be204a296f356c09b11feb134334),
    (200136, 0xa00656ba790e4c09cf1356daca8, 0x20b25f102514b79ab604d88ff589a19a),
    (200137, 0x50032b5d3c872604e789ab6d654, 0x10592f88128a5bcd5b026c47fac4d0cd),
    (250930, 0x138de681e905980ed9c92aa6fde6, 0x47f0564f2cce9e2dfe1d93cc42f14694),
    (250931, 0x9c6f340f482cc076ce495537ef3, 0x23f82b2796674f16ff0ec9e62178a34a),
    (250932, 0x4e379a07a416603b6724aa9bf79, 0x91fc1593cb33a78b7f8764f310bc51a5),
    (233356, 0x1e1b0a8c82f143a96736b19f4e73, 0x9971f93e74ea4f979eca011ec91b861d),
    (239434, 0x19161b1a76b2280033b9036a7553, 0x106e8cab0d68d72429a06a3912ff031f),
    (204484, 0x1fd643ff9cc7cc7ba37a8f958095, 0x6e1506579c03cb739b5e1e5aa01a0934),
    (204485, 0xfeb21ffce63e63dd1bd47cac04a, 0xb70a832bce01e5b9cdaf0f2d500d049a),
    (204486, 0x7f590ffe731f31ee8dea3e56025, 0x5b854195e700f2dce6d78796a806824d),
    (12060, 0x1d30e6cbe5cfaecdb65860ea282d, 0xc96e0bffb0006b590559784b1ffe2373),
    (129430, 0x6948d5fe3b04862aafbec4813a, 0x9589db398b7726c4f53ea2d495512693),
    (198763, 0xd9fa439cbb366504bdafb3d7088, 0xdbc6f36a0a0e288aad8f56b5be33939d),
    (199176, 0x12b5aeebcaa2a14ca54065f7d8ce, 0x34edc715220c41295dcf2c2e749c635),
    (18181, 0x1710da17a7a57ace35c346ab4b82, 0x1e0e28368196bd57895f8817cbb9ac7f),
    (129046, 0x1708767aca5307cb6bd8d1a48563, 0xf0f4b29038417c77715f208e4c0a78c6),
    (129047, 0xb843b3d652983e5b5ec68d242b1, 0xf87a59481c20be3bb8af904726053c63),
    (139355, 0x1a14cd2e4e22130cb2e53f828c6d, 0x4aa1a7bfa9d82782851eb8db1822f5c5),
    (217180, 0x13a6e21c7b19e70ca5964737b5d3, 0xe3964e3a570cd011ce91117fe29a8721),
    (217450, 0x19bce84a9f9183ca2b995e402052, 0x15a278262e75fdb310d6b00897a9e290),
    (217451, 0xcde74254fc8c1e515ccaf201029, 0xad13c13173afed9886b58044bd4f148),
    (217452, 0x66f3a12a7e460f28ae657900814, 0x85689e098b9d7f6cc435ac0225ea78a4),
    (217453, 0x3379d0953f2307945732bc8040a, 0x42b44f04c5cebfb6621ad60112f53c52),
    (217454, 0x19bce84a9f9183ca2b995e40205, 0x215a278262e75fdb310d6b00897a9e29),
    (163325, 0x1292c683df6dd84114f560178289, 0x35ad3917ddbbc4129043409b227f8d94),
    (163326, 0x9496341efb6ec208a7ab00bc144, 0x9ad69c8beedde2094821a04d913fc6ca),
    (163327, 0x4a4b1a0f7db7610453d5805e0a2, 0x4d6b4e45f76ef104a410d026c89fe365),
    (149360, 0xa4f66e339dbf495bfc2e81b0bc1, 0x431b4b04a111fc7fb6ff698d851a5815),
    (101204, 0x1f311661c29e28f9bb6e30ba858, 0x13cd49a726159cb3b3a1b8be3d325fe1),
    (45632, 0x151ea67f468221d9ea96a184580f, 0x65bdc934d5dab1924405fdedd6beefd2),
    (45633, 0xa8f533fa34110ecf54b50c22c07, 0xb2dee49a6aed58c92202fef6eb5f77e9),
    (114384, 0x5949895c79bc57f78e737724758, 0xee5af1f8b75f0f874ba2720ffcfa2819),
    (128446, 0x118d1cc862f1e091c47c7be628c6, 0x4c3d0e2f2c2b1ed76c30d97274f15e2e),
    (128447, 0x8c68e643178f048e23e3df31463, 0x261e871796158f6bb6186cb93a78af17),
    (142933, 0x1b4c1bc47e05cd6dfdd8d21c4acf, 0x963856547c4b1866cfe846746795cde7),
    (179025, 0x187f9536eeedd66e5b3ab1c48024, 0xa1b78a8ca242e0b89b8cd3ff14c2a308),
    (179026, 0xc3fca9b7776eb372d9d58e24012, 0x50dbc5465121705c4dc669ff8a615184),
    (179027, 0x61fe54dbbbb759b96ceac712009, 0x286de2a32890b82e26e334ffc530a8c2),
    (179028, 0x30ff2a6ddddbacdcb6756389004, 0x9436f15194485c1713719a7fe2985461),
    (74243, 0x1b724df8175c8b57ebffdc691b4, 0x24aa6a055bb6a2ce614633705d1a5911),
    (158222, 0x1646b28a7651787610fb335ee2ce, 0x15ba8769357b52e0365c3d8cabc3805),
    (60149, 0xa5dfeeb888a2c4caec6e3d8b31b, 0xbe45b6b4ea01eef78b52015e2e17c4a5),
    (202664, 0x167cde5f9a83fc7d8adff9d5639b, 0xaef2e67dfe001fec6ca15fd302dde57d),
    (49405, 0x1b7d0a88bce6da947729af3f1e41, 0x28733c45b4e716760127968d2f695a8a),
    (49406, 0xdbe85445e736d4a3b94d79f8f20, 0x94399e22da738b3b0093cb4697b4ad45),
    (225279, 0x49dadbd3af64d57b3f6218684ff, 0xa5abd02f7b1ccb911e6d54888d70ef),
    (225668, 0x1bebd860d59ce0b5b108c0fb19c9, 0x567262c0789b12821c3335d71825d47f),
    (25994, 0x1d60db7a61084154dc82105cdab3, 0xad8a8010dc394c876efdc9cb387f5250),
    (25995, 0xeb06dbd308420aa6e41082e6d59, 0xd6c540086e1ca643b77ee4e59c3fa928),
    (25996, 0x75836de984210553720841736ac, 0xeb62a004370e5321dbbf7272ce1fd494),
    (25997, 0x3ac1b6f4c21082a9b90420b9b56, 0x75b150021b872990eddfb939670fea4a),
    (25998, 0x1d60db7a61084154dc82105cdab, 0x3ad8a8010dc394c876efdc9cb387f525),
    (181184, 0x66c341800764c1143cc493666b5, 0x47cfb5f86e366468cde09732e351cfb7),
    (177248, 0xf32f1c2fa18edf420e3d6f62e7f, 0x690dc53be8a311fd7ba6cd29a4c27f11),
    (229549, 0x9039fefac400a10e2ba48f2c853, 0x16c30761d4852c3b6cd60cfc5768e6c7),
    (152654, 0x14b8590ba3de2211378f9cbf683d, 0x2ebf94c2a2425565fb5c60e950047eb9),
    (68395, 0x169f9f9a7f499ad61a65a77466ae, 0xb722b1bd602d1c15df2ddabf7c276189),
    (53492, 0x134d8ad3a8cba3cda9c73739b067, 0xad066664ac9ddcbc8bb4f94745960cd0),
    (53493, 0x9a6c569d465d1e6d4e39b9cd833, 0xd6833332564eee5e45da7ca3a2cb0668),
    (53494, 0x4d362b4ea32e8f36a71cdce6c19, 0xeb4199992b27772f22ed3e51d1658334),
    (53495, 0x269b15a75197479b538e6e7360c, 0xf5a0cccc9593bb9791769f28e8b2c19a),
    (53496, 0x134d8ad3a8cba3cda9c73739b06, 0x7ad066664ac9ddcbc8bb4f94745960cd),
    (45958, 0x1ccc1e57bbac9c90a3e0bf70aa28, 0xbd679aadec2e592d86713d32ff3f1047),
    (140511, 0x14a107b3e78402558b2490fb70ed, 0xf6b6ec079f0be1dcf08b2a2a1de421ef),
    (112726, 0x151149cb6fe333fa915d1dcc4407, 0xb2049b868399b76a85ff910ea30ca663),
    (160203, 0x1ba7bf47c9feecd7f8574196aaea, 0xbdab04b18ef0d959b534431c6dfabf69),
    (187175, 0x17fdbfcf2a791653fe9f62efef1b, 0xccd8d1f08414d2550374f03033606c7e),
    (187176, 0xbfedfe7953c8b29ff4fb177f78d, 0xe66c68f8420a692a81ba781819b0363f),
    (132653, 0x137d85fa301a3eb9b58189d8c8a7, 0x53288ee8e6c45581809e2503951cd59c),
    (132654, 0x9bec2fd180d1f5cdac0c4ec6453, 0xa994477473622ac0c04f1281ca8e6ace),
    (132655, 0x4df617e8c068fae6d6062763229, 0xd4ca23ba39b1156060278940e5473567),
    (7237, 0x15687e2804e94ec7f5ef197ed329, 0xc6b3fb63eb13aa65984769a4fe618d4f),
    (118634, 0xdf084cfba1b724a97cd6ccf4419, 0xa00996476632ceaed24a607050ea8dc9),
    (125254, 0x1a82e62c75fe8dd219c2eb5493e9, 0x9e97e34055ae39070df43adc79c07b69),
    (109342, 0x141de8dbbe7712be0b9344267c30, 0xfbea68e5a67890451b57f0f60622668f),
    (95945, 0x13c9f0e33143999c9a85f366a316, 0x36a7fbcc604b8600e0755cd917589e98),
    (95946, 0x9e4f87198a1ccce4d42f9b3518b, 0x1b53fde63025c300703aae6c8bac4f4c),
    (95947, 0x4f27c38cc50e66726a17cd9a8c5, 0x8da9fef31812e180381d573645d627a6),
    (95948, 0x2793e1c662873339350be6cd462, 0xc6d4ff798c0970c01c0eab9b22eb13d3),
    (253623, 0x1c1043c5d6a928ec224a207260ed, 0xbd6591913803d94b500586de95dd1dfb),
    (93892, 0x1423537067c8468fe25eb4201c6e, 0xad7c98845cadaa9b45da4f85baa98808),
    (93893, 0xa11a9b833e42347f12f5a100e37, 0x56be4c422e56d54da2ed27c2dd54c404),
    (93894, 0x508d4dc19f211a3f897ad08071b, 0xab5f2621172b6aa6d17693e16eaa6202),
    (93895, 0x2846a6e0cf908d1fc4bd684038d, 0xd5af93108b95b55368bb49f0b7553101),
    (14008, 0x1b5a1a7b6c4ac5e1766a89920ab0, 0xfe73f2154f5764778024e02a40a41e5d),
    (97093, 0x7196e34c03badabb0738248ca91, 0xf0285520a6d85d2d5d3e1cd5f86aa6db),
    (115969, 0x1767490d1b6b6dfd0cfca1590612, 0xdacb8e30b9df8beac7077dd5c1b2ed8b),
    (92405, 0xd0edab2f9507a61b9f2514eb171, 0xc20a07e7292ad29d162da8e2fbe64087),
    (244446, 0x1e2af97d4c28f3ee85b5210018d5, 0x91025dfa0e8b7ebff81750d1f9d8654e),
    (244447, 0xf157cbea61479f742da90800c6a, 0xc8812efd0745bf5ffc0ba868fcec32a7),
    (81406, 0x1b21ea7ac2f472156b47e372cfb9, 0x2776a3e765a7886ac70293995f9f29ef),
    (103699, 0x199ce8086c4cf6d171b8e543023d, 0x7fe3b7b7c9e6428c5ce66d34445df4db),
    (211553, 0x1087ee26f23678538d3e3dd6d3c4, 0xb19f018b1d27ef38bed413cb26fbc3b),
    (204513, 0x12977493157f3ce59d47ef27bae, 0xa97e5f507a96d4ee5fe223e34491737f),
    (182024, 0x18fe2e5ef04f13154dab209f354c, 0x57a2df3ecd6bc11016c8ea1317600ca0),
    (182025, 0xc7f172f7827898aa6d5904f9aa6, 0x2bd16f9f66b5e0880b6475098bb00650),
    (182026, 0x63f8b97bc13c4c5536ac827cd53, 0x15e8b7cfb35af04405b23a84c5d80328),
    (182027, 0x31fc5cbde09e262a9b56413e6a9, 0x8af45be7d9ad782202d91d4262ec0194),
    (182028, 0x18fe2e5ef04f13154dab209f354, 0xc57a2df3ecd6bc11016c8ea1317600ca),
    (182029, 0xc7f172f7827898aa6d5904f9aa, 0x62bd16f9f66b5e0880b6475098bb0065),
    (57825, 0x10afb5a7e41ea888c34776a148d5, 0x3d526440d70ad118cb25f9e0c30a419),
    (155612, 0x93fbf1c89e29e3d2fd6c5b8be62, 0x849a773ff49e5f05605c4e260bd87a3d),
    (139865, 0x19ca1425dfb9d923c85bbc7b3f25, 0x7d4df5f136ab4997e4ae7ec93f49dd90),
    (139866, 0xce50a12efdcec91e42dde3d9f92, 0xbea6faf89b55a4cbf2573f649fa4eec8),
    (139867, 0x672850977ee7648f216ef1ecfc9, 0x5f537d7c4daad265f92b9fb24fd27764),
    (139868, 0x3394284bbf73b24790b778f67e4, 0xafa9bebe26d56932fc95cfd927e93bb2),
    (139869, 0x19ca1425dfb9d923c85bbc7b3f2, 0x57d4df5f136ab4997e4ae7ec93f49dd9),
    (187905, 0xfa6de34d916806c4bb9aaf2fae5, 0xdcc1cf471f732065606b0fc4f3ea75d1),
    (183563, 0xd81cd25e9b6ca8ca65589681ec, 0x3f15a3331eb3dd1b630a51e4eb8a50b7),
    (28299, 0x11aad77a86f89e754065ba328425, 0x3a8a9ba6aa721067953f473b9440f3e5),
    (185989, 0x1e27a83ef0bf14862d3e69ca08b8, 0x5f89e790c417c8ce3d814382cdd4e2b1),
    (174171, 0x39061e61a8da721ea76c47f58d1, 0xa8e3528cd7b208ed5f6bdb643521cd8d),
    (60272, 0x19164a0c8eddd8bb409b619750bf, 0x8242a93a93b652b58890457028d1f417),
    (30860, 0x1d13c300172bd17a2ae5a88b0956, 0x3a87561526ef5ff10a8527a29b40debf),
    (144420, 0x1cdfd5be8c091656ef32d35aec3c, 0xff03bbefc37f94f27ca25fba1c1f2033),
    (144390, 0x15a5fb50655173ea6f09096e6dcd, 0x8d2c900dc208a479c22755fec0954ced),
    (211488, 0xa5956c2c19c738de3185f558bfc, 0x4ce1b963b248bd7c284f4006c2c20b1b),
    (124207, 0x1796aa724203d62137abc1be177d, 0xbef867d243b3729ac8d27af53720c4c5),
    (29045, 0xeff5c21a1ee79ae7056fe4b307c, 0x61564834eb6cd0f3119d5aaf3b80d695),
    (134330, 0x11e7c21cfe7ce344967c72369ac2, 0xa27f9885e2f636eba5d1a02304e1a717),
    (256379, 0x1849457758d87abe36dac516d855, 0x100d6d729bd9b7b2c1184dd4ed1d5b9d),
    (152378, 0x1585cdb768486baf98e256159464, 0xf3a1272a5e465f24e8f894cf59c7d774),
    (152379, 0xac2e6dbb42435d7cc712b0aca32, 0x79d093952f232f92747c4a67ace3ebba),
    (152380, 0x561736dda121aebe63895856519, 0x3ce849ca979197c93a3e2533d671f5dd),
    (205465, 0x1ace61234131a60219c362ab4314, 0x96b32a316dc88506b64fab8bef0e1f4d),
    (219723, 0x1cae83937e757216d7946f14ec78, 0xcb842ae5cac97c4ebb3ab9a810f3de8c),
    (219724, 0xe5741c9bf3ab90b6bca378a763c, 0x65c21572e564be275d9d5cd40879ef46),
    (219725, 0x72ba0e4df9d5c85b5e51bc53b1e, 0x32e10ab972b25f13aeceae6a043cf7a3),
    (57551, 0x135f1b196384d84c54ceb8d1d3a2, 0xec4732a9c9d2d35b37f6a43cd0490eef),
    (248277, 0x1e558f0c2e5cead1126d5002bcd9, 0xfe51350eae38742747ed9d7af4de4ed1),
    (177751, 0xa5db91edc1c80422057ae0b22fc, 0x8612d3a6cd177d724d5969368a5bad21),
    (165807, 0x184cee9a46f924b0cd721c7631b9, 0xfee6bb8ad0496bdb6e875626d05506cb),
    (117211, 0x103ae3f03ab2f7215792be9f734c, 0x661484626828af4ba49d55bc736f766d),
    (135268, 0xa5385a1ec4c2650cfc844689b75, 0x1b5fc5e4cc592ecd487a19cacca998bb),
    (4267, 0x2e3454d5e3205ed8d4a4b1af9b5, 0xd35c03dbad0a28903ca4128f39a60f9f),
    (193726, 0x193ccdebed2605bf134143197ddb, 0xd3be4169d7c2aca4426f4a0453279761),
    (213667, 0x1af759303de37303c7ddb5493a75, 0x874a3616eb8f00779c1e6824cc8e9801),
    (161743, 0x11d8154955898b31c451de30b317, 0x2321fe897b45d8108808b51f0406ce1c),
    (161744, 0x8ec0aa4aac4c598e228ef18598b, 0x9190ff44bda2ec0844045a8f8203670e),
    (161745, 0x4760552556262cc7114778c2cc5, 0xc8c87fa25ed1760422022d47c101b387),
    (255368, 0x3b25a95c69bd78f744febdd673c, 0x7b8a050d5a6bc2615117cf2582f87201),
    (258313, 0x446404dd1417e76bdc7ebe74f28, 0x1c5c6a52b3d55ba0344386e7f3fb2a4b),
    (179222, 0x1d7f627f38fb0ef72782df39214e, 0x81a0dea33791cf8f6d70ffbb55a8136e),
    (179223, 0xebfb13f9c7d877b93c16f9c90a7, 0x40d06f519bc8e7c7b6b87fddaad409b7),
    (86675, 0x135dd1730229f3d6632f56bff8eb, 0xaaef67e2e18012ee3c30550f6c298eef),
    (214384, 0x1de91dafdfc2166c6e08fd9e5ad9, 0x3b6d7158f1a80d42f1eb5726a04319e2),
    (214385, 0xef48ed7efe10b3637047ecf2d6c, 0x9db6b8ac78d406a178f5ab9350218cf1),
    (191728, 0x1a2f2d99dab966fa7e54bfbed54b, 0x99a2e2a94f4f7acab0dba9c3b26673f8),
    (191729, 0xd1796cced5cb37d3f2a5fdf6aa5, 0xccd17154a7a7bd65586dd4e1d93339fc),
    (191730, 0x68bcb6676ae59be9f952fefb552, 0xe668b8aa53d3deb2ac36ea70ec999cfe),
    (191731, 0x345e5b33b572cdf4fca97f7daa9, 0x73345c5529e9ef59561b7538764cce7f),
    (107143, 0x159a0e3bde14167bf74950863c96, 0x17fbe5227c92e815f2eb7914597c06fd),
    (78333, 0x6b66908e5ee4a176efed3d88c9c, 0x37dd1bab61b4c7258214e0e62a914209),
    (50341, 0x1a6c592af25db37e41eb58d39f75, 0xb0dd918c4e19573082f6c5ebc28176a2),
    (50342, 0xd362c95792ed9bf20f5ac69cfba, 0xd86ec8c6270cab98417b62f5e140bb51),
    (139068, 0x3efda45270abddf6d705c1815bc, 0xd28ac1255881564fc3d84f2b2eb42d27),
    (42489, 0x1b5cd852f9d087a3c59be2e83cab, 0x62df2c1c2f47a4e8b4bdfc6c8914a5ee),
    (42490, 0xdae6c297ce843d1e2cdf1741e55, 0xb16f960e17a3d2745a5efe36448a52f7),
    (35629, 0x10d22f52af1ec347568457bed5f2, 0xb6adc999584f684d97fdaf1bac09633f),
    (249538, 0x14291fadd03342b1b0f92a8109c3, 0xaf2c3c65df1c4263e142686af51a5ccf),
    (122785, 0x1e589207b53ec4a8a0d008ee173d, 0xddba7f8c4f93434a266e8e59c1977082),
    (122786, 0xf2c4903da9f6254506804770b9e, 0xeedd3fc627c9a1a51337472ce0cbb841),
    (203117, 0x1f8769cf26b3ba1be631093bcee1, 0xa47f62dd3c7c525358d86e2866e7b870),
    (203118, 0xfc3b4e79359dd0df318849de770, 0xd23fb16e9e3e2929ac6c37143373dc38),
    (203119, 0x7e1da73c9acee86f98c424ef3b8, 0x691fd8b74f1f1494d6361b8a19b9ee1c),
    (203120, 0x3f0ed39e4d677437cc6212779dc, 0x348fec5ba78f8a4a6b1b0dc50cdcf70e),
    (203121, 0x1f8769cf26b3ba1be631093bcee, 0x1a47f62dd3c7c525358d86e2866e7b87),
    (81930, 0x140bf767c12683b107ad2dd3dcc3, 0x54c4ace955c305133789ff670021b10b),
    (28960, 0x1ae710ee74f3368ec2652256c7b1, 0xf155768e2a186759572927c98a80c2f5),
    (198557, 0x17563bc9d469e5057f39d8c6e6a0, 0x2d67157b3ce9d6eff9afe1ac852fee08),
    (198558, 0xbab1de4ea34f282bf9cec637350, 0x16b38abd9e74eb77fcd7f0d64297f704),
    (198559, 0x5d58ef2751a79415fce7631b9a8, 0xb59c55ecf3a75bbfe6bf86b214bfb82),
    (198560, 0x2eac7793a8d3ca0afe73b18dcd4, 0x5ace2af679d3addff35fc3590a5fdc1),
    (64334, 0x18c8367f4cebb0b74829614c87db, 0x79522a9478e74d7b38e1cb8d313f938c),
    (64335, 0xc641b3fa675d85ba414b0a643ed, 0xbca9154a3c73a6bd9c70e5c6989fc9c6),
    (64336, 0x6320d9fd33aec2dd20a585321f6, 0xde548aa51e39d35ece3872e34c4fe4e3),
    (110474, 0xddaf3a5657d58a841024a9a44d1, 0xc010e62da11e75d4e4de9d13194cafc1),
    (101456, 0x1fc11089f8b5dbcee4ab369b40a5, 0xb187a8cc06de67f10ef8fd7cdd47018f),
    (162615, 0x2e5947d3fbc7d887f4f2f071472, 0x9a047059fcbef59d2f86e2e19c4ae7bb),
    (175943, 0x10ffbb884485368a55a5eade7553, 0xa8ae1aa6df1360f874a6b58a91de4f28),
    (175944, 0x87fddc422429b452ad2f56f3aa9, 0xd4570d536f89b07c3a535ac548ef2794),
    (175945, 0x43feee211214da295697ab79d54, 0xea2b86a9b7c4d83e1d29ad62a47793ca),
    (175946, 0x21ff7710890a6d14ab4bd5bceaa, 0x7515c354dbe26c1f0e94d6b1523bc9e5),
    (120164, 0x19f709e8ed603e5a6acb175c3458, 0x85f8da11b9f562093ef155e99a8942e1),
    (136118, 0x11cc869c6d42c4a352e742cf4a13, 0x9fcf8dbffb127e761834926605e7bfe),
    (136119, 0x8e6434e36a16251a973a167a509, 0x84fe7c6dffd893f3b0c1a493302f3dff),
    (23448, 0x1151d80d9b3fa0c6a79cf96f105c, 0xabe94643398853e94568ed30d0e83b41),
    (14817, 0x9b2266f91e5aba21edc5199bb0, 0xd74e8ed30d4fb1045db4880072285583),
    (167071, 0x1760fdcb6ab6ea0b8f0dff31ccb5, 0x11d1ef80a687a4ff61c6c8f53fac9b03),
    (117711, 0x19dd6dcef612ba840a02cf79050c, 0x96bf13b1d0df41c8212e679a6d29700a),
    (117712, 0xceeb6e77b095d42050167bc8286, 0x4b5f89d8e86fa0e4109733cd3694b805),
    (7030, 0x67713e080e72b0cc187992b5a42, 0xf39e3545980b27cbcd449f545a1cffbf),
    (194364, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (254124, 0x1e21f5bf965a598e4c4853bb1088, 0xf81d7a9593874845afb6209b0e6e7955),
    (101427, 0x17e358b4357674c65cab6fb57063, 0x8b8ff14e87d069a6a4cc136acc35d637),
    (81950, 0x14ee15db1ee8b0c5d0c728d070dc, 0xfc49a91e57f435c6f46a1069b629c084),
    (81951, 0xa770aed8f745862e8639468386e, 0x7e24d48f2bfa1ae37a350834db14e042),
    (81952, 0x53b8576c7ba2c317431ca341c37, 0x3f126a4795fd0d71bd1a841a6d8a7021),
    (212552, 0xaa72f57cb042d9ac14813577c02, 0xe4107b86850c29814ceb09528ddc7121),
    (151115, 0x1303c9254f30342cd31adf8ec094, 0x5401a07e68ce0f1e5c7e3ba6165accd4),
    (151116, 0x981e492a7981a16698d6fc7604a, 0x2a00d03f3467078f2e3f1dd30b2d666a),
    (151117, 0x4c0f24953cc0d0b34c6b7e3b025, 0x1500681f9a3383c7971f8ee98596b335),
    (45226, 0x1d8845193c02fa59827fc5e476e6, 0x7a09f364c4b0b9404111ac901bc68ac),
    (45227, 0xec4228c9e017d2cc13fe2f23b73, 0x3d04f9b262585ca02088d6480de3456),
    (45228, 0x76211464f00be96609ff1791db9, 0x81e827cd9312c2e5010446b2406f1a2b),
    (183298, 0x162a0562a0f311700e28431fb75e, 0xe1b3acf4a7c7a5a0e014441990a2e1c0),
    (183299, 0xb1502b1507988b80714218fdbaf, 0x70d9d67a53e3d2d0700a220cc85170e0),
    (183300, 0x58a8158a83cc45c038a10c7edd7, 0xb86ceb3d29f1e968380511066428b870),
    (183301, 0x2c540ac541e622e01c50863f6eb, 0xdc36759e94f8f4b41c02888332145c38),
    (183302, 0x162a0562a0f311700e28431fb75, 0xee1b3acf4a7c7a5a0e014441990a2e1c),
    (183303, 0xb1502b1507988b80714218fdba, 0xf70d9d67a53e3d2d0700a220cc85170e),
    (183304, 0x58a8158a83cc45c038a10c7edd, 0x7b86ceb3d29f1e968380511066428b87),
    (204650, 0x19c2bc8753bef6dd19b6bb57974c, 0x4057d693cd2efbfe877a669d0e71f10b),
    (149572, 0x11b04713f5e7048b9c385a7527e2, 0x2da37cb11b5e10d041eeca3df1ca911),
    (7939, 0x12e9dc549e3715ccf08f9f54a1bc, 0x49eada76c302efb9975417ed4d2431de),
    (7940, 0x974ee2a4f1b8ae67847cfaa50de, 0x24f56d3b618177dccbaa0bf6a69218ef),
    (77539, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (50291, 0x9b1dc371a292ea6254ceb5db56f, 0xe26f9f7a5bfef4a61318a5221dc4d0e7),
    (107212, 0x176bb5f712c9409a2887464e076a, 0xe0cbcb4e736e43bd8ad8497184ae854),
    (107213, 0xbb5dafb8964a04d1443a32703b5, 0x7065e5a739b721dec56c24b8c25742a),
    (107214, 0x5daed7dc4b250268a21d19381da, 0x83832f2d39cdb90ef62b6125c612ba15),
    (233793, 0x5d5b1873b9b5cbe1184fcfd5e9e, 0x15e8ff1dfcea1dcba22f3ee0ab7a1623),
    (140245, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (110779, 0x182f186b79ba649e63e375df47d, 0x84321d21d0af36cd3510098d88a6a939),
    (102839, 0x11afaf1990e0ff6976c4b5a43d6a, 0x8b2090798007be5d001a7adfb18046a7),
    (92214, 0x160a3c27dd2a009da2111e3d3ec1, 0xc8553309c61bcd6ec9cf86c3b420c6c9),
    (155122, 0x1fe4299f5b115897de392d41273b, 0x140be545240d474a12ec05b7eac568db),
    (258181, 0x13d551de57e30cf7a0eab3dcd01d, 0x298ee31d77d5e1d22e342edc5f96b282),
    (258182, 0x9eaa8ef2bf1867bd07559ee680e, 0x94c7718ebbeaf0e9171a176e2fcb5941),
    (233846, 0x41b8695b988cec012a803e6dfd4, 0x6fb3597cfcf996331f02c7838abe1bdb),
    (24558, 0xc2c405748679c3ac983b2e23c84, 0x58c24fd6ec24b99aaa3c8dfe86143e4d),
    (226879, 0x1ea951e2cf31a77889111e7b8e53, 0x2ac7e3a4cc137843dc37403a2836018d),
    (7220, 0x118d560e76f0da4fa4ef22d8737c, 0xb73986454182cbbddc413e2a1feecfee),
    (7221, 0x8c6ab073b786d27d277916c39be, 0x5b9cc322a0c165deee209f150ff767f7),
    (125383, 0xc107dfa83e0f2c8d8e4aa8d950, 0xd9833c4d086e08567fae799c01505bb3),
    (110306, 0x1f9c2601018b1a990292fbe85ab5, 0x62344802f384868a2ec8c62bdd0422a3),
    (51075, 0xe1e5ee4346cc6fcb256b13d29c3, 0x68ccc278e267f56323a62771f6f96729),
    (167403, 0xa307b3c9562d6458654a38e4bc, 0x8e913243e0a8a96513bf5eb53b45d79f),
    (187771, 0x19db60bbdc3f7b59ffb9c6e7b91c, 0xf1872632e2141a5d02b89f02276da039),
    (4378, 0x15d9a0f81875cf72dae6bd4f500f, 0x771b81a56f26ea131eb26fabf7e909e6),
    (4379, 0xaecd07c0c3ae7b96d735ea7a807, 0xbb8dc0d2b79375098f5937d5fbf484f3),
    (164559, 0x1d6a96d13ed2a8eeeac07b2507a3, 0x1a18c427131c5060bb1d342655b94213),
    (52653, 0xe13b15d19ff04f46b9aa4c0c28, 0xc0430e88b43a574f5e87c3ec35393a2b),
    (16805, 0xb2aac502a021f8a944f7220c257, 0xa5c8d6dfe854f2d84b031e53a998761b),
    (224070, 0x1ecb5b90986e0c896f0b601c66c, 0xf5c5515a0991b10bac25d9001452aec5),
    (61293, 0x3493ba614525454f5c8f501c8f7, 0x7193914abdae9bc575004246cff5b05d),
    (239653, 0x14a94c891c4a9ef8c836a33d93de, 0xf6b47242baaf277130369ac30e72ca1d),
    (215873, 0x192a009d589c168c6b3a229e2c3a, 0xd57c692f74912af37633a5eaa2377ebf),
    (17185, 0x1806fc33ea1806dbde2f0d4ba2fd, 0x5421411da2fa576106a7dfeb05167b82),
    (17186, 0xc037e19f50c036def1786a5d17e, 0xaa10a08ed17d2bb08353eff5828b3dc1),
    (168228, 0x1d7d5c6dc78f3c93b563e0039901, 0xf9f3a4b3df561dad0f4acdd5bd959c96),
    (168229, 0xebeae36e3c79e49dab1f001cc80, 0xfcf9d259efab0ed687a566eadecace4b),
    (188113, 0x1894b90a4ddf8a78ecc09b2e8d32, 0x4ed2af4f12ddfc69677fc7384a86519b),
    (61204, 0x1bdfd0f986a58b2268ad687a8767, 0xf3beba5c585c3cfe551d9114bb7dd83e),
    (61205, 0xdefe87cc352c5913456b43d43b3, 0xf9df5d2e2c2e1e7f2a8ec88a5dbeec1f),
    (192200, 0x3d68206dd1283c30027757ebcc5, 0xe5fcd53cdc15cdb0df95498b954f1145),
    (30340, 0x1fc24665bfe58c84d16231c0808c, 0x295ef08e9ae7009f6f9a5eb13f9ca595),
    (53981, 0x32ece8022c11fc6e446979b20fe, 0xf67be3344556bd493b3441e449aa871d),
    (177104, 0x18754f14f4b78f2af89677fcff1f, 0x70e52b80dfeac34f60a9c36a03c831be),
    (177105, 0xc3aa78a7a5bc7957c4b3bfe7f8f, 0xb87295c06ff561a7b054e1b501e418df),
    (139214, 0x17ecbca168301cca05fb7edc81b2, 0xd52ffe61e0ea08fc096dba9d9b7c1279),
    (16103, 0x4173eba259345a0b5c4470d074c, 0x41f708f6c562b4c6b8999ee9d55295f7),
    (137371, 0x1b426c1f8b0451cc6538b55944a7, 0xd4a068302b40a2e4bbd40ea1513d1d36),
    (137372, 0xda1360fc58228e6329c5aaca253, 0xea50341815a051725dea0750a89e8e9b),
    (224714, 0x18000311cc287f7e0761e68b2e53, 0x2459baeb5a4aea0eda2e15583dc357bb),
    (86024, 0x8c9ab7d429d792fdb8806ecca66, 0x1951853e24eb27a82b3b2b5af59efac7),
    (118159, 0xfe9c5bdde478b3860fa7bb4ab3, 0xde0caaf7ac8d11b78e328bdb3c7529e1),
    (239195, 0x1fd70e5ffa9cf40d05cf49f73c9d, 0x998288d7fd32c11c8e3f391c67734591),
    (223389, 0x1374e0353bebd7a8e7ceaad8473d, 0x3c41286b03ab49049227151aefaf42e1),
    (86165, 0x1d1c3d0eca2e49f15b84f83cdcc1, 0xbb112668afeeec46bddad9c98f033c9b),
    (221623, 0x1266867096bbce63ab54204cb6f4, 0x14528986928d09eb320ed57e5f1f8006),
    (221624, 0x93343384b5de731d5aa10265b7a, 0xa2944c3494684f599076abf2f8fc003),
    (115532, 0x175513168fd7669c0a4bf3802790, 0xfed100f8143d2352d30703e36543d5cf),
    (3164, 0xe4d16f180b397a3bf4a46f0aa79, 0xb03246e3c9cf37cced2abde7fcf7fc81),
    (18094, 0x10b59d20b980dcd58b83fc27f01c, 0xeacb9490d1649b9590d8c104ce980227),
    (39412, 0x1f368c76372e7ae1bbfce405b3eb, 0x5cfe443a71a9b290dad78e05f3e1615a),
    (39413, 0xf9b463b1b973d70ddfe7202d9f5, 0xae7f221d38d4d9486d6bc702f9f0b0ad),
    (154118, 0x11a5071cda81708ef480591cf971, 0x93947b32bdd0c6ef58471b3a8f1fb3b9),
    (100884, 0x1649ea229b3bce621c6cff415766, 0xd2374dd750a4327f6f4300c6fd3ff351),
    (75012, 0x1cff3fd6bf48d953615733446980, 0xc37e72ee2fa3fa5127517a9e593d8e61),
    (72407, 0x1ac9ced4c93eaf77f7cee846131f, 0x9ff1a107570b6aea48a19446d170d2c6),
    (72408, 0xd64e76a649f57bbfbe77423098f, 0xcff8d083ab85b5752450ca2368b86963),
    (47487, 0x18cc0dbd600653a756a3a9f66752, 0xd69a8d5544796c74988aed254221136e),
    (47488, 0xc6606deb00329d3ab51d4fb33a9, 0x6b4d46aaa23cb63a4c457692a11089b7),
    (114243, 0x1d53e56d46fb4f2cf84e828469c1, 0x87c2d231ac321784d1d9e6ed912daead),
    (123357, 0x18bb62b8509cb852b42613914f92, 0x55f5ac3320d3fcd30a4931bc29bb2193),
    (58323, 0x5423a3893f5e592a180a7fa29eb, 0x79cef1843a18198fbb00e73b6061bb97),
    (22818, 0xaec4d0a50199defe6c04ebff06a, 0x2101b0a7008245404aafc8313a075787),
    (123290, 0x1b508b5503499e91615de4dd912c, 0xe55890842b6a0504b48b61bb69a5454),
    (123291, 0xda845aa81a4cf48b0aef26ec896, 0x72ac484215b502825a45b0ddb4d2a2a),
    (123292, 0x6d422d540d267a458577937644b, 0x395624210ada81412d22d86eda69515),
    (257464, 0x15085f47e67cc9f769d48e337856, 0x995bc13efcf5f00ef4a6410bc5b08919),
    (66367, 0x17f8d0d502897265f519e3bc061c, 0x8648d6d90d53f14ac533989bc679de91),
    (136992, 0x1c77c88cfd8be839e755390ab5c3, 0x64c0c3e69c8ac0899dbef78bf26695a2),
    (136993, 0xe3be4467ec5f41cf3aa9c855ae1, 0xb26061f34e456044cedf7bc5f9334ad1),
    (129667, 0x170060789e8083141fe66cce2564, 0x74bcddff574a24239ab08b8601692073),
    (100497, 0x18d0b312c7e767ae118c98574fb1, 0x6de41ba50571a9b3ae693f2976cf9b37),
    (91775, 0x1d8bbb8d7c7441d847ae656426ed, 0x5525e006c7a0c0b00e4b655d4d717a11),
    (46450, 0x1c0db2aaa147560f237af5d7d041, 0xf3713c458feaf737015323630362794b),
    (185908, 0x1a911cc642b6bd0c40181cd9fda2, 0x23024952c03b2563b047e784166d644c),
    (185909, 0xd488e63215b5e86200c0e6cfed1, 0x118124a9601d92b1d823f3c20b36b226),
    (185910, 0x6a4473190adaf43100607367f68, 0x88c09254b00ec958ec11f9e1059b5913),
    (168613, 0x1bf1de7c9efe138490c5f5b206e3, 0xbea848177fc6ebc1d80b40fcdcedde56),
    (168614, 0xdf8ef3e4f7f09c24862fad90371, 0xdf54240bbfe375e0ec05a07e6e76ef2b),
    (101834, 0x1892e33fb604280d600b7565c9b5, 0xe3ba17da41e06bf062656ccb7fcf0399),
    (96238, 0x190acfbb04e10652c8deece65546, 0xaadbcb81d49aa6c6dcdf952896af2d2c),
    (96239, 0xc8567dd82708329646f76732aa3, 0x556de5c0ea4d53636e6fca944b579696),
    (96240, 0x642b3eec1384194b237bb399551, 0xaab6f2e07526a9b1b737e54a25abcb4b),
    (82126, 0x1a87bcc85ae8e3896cf5885c9a70, 0xf8d971a30055c1bb6dcc135a40dd52b5),
    (128169, 0x1b2406772d2773d58c9bf7b36b05, 0x42b8b22b77d0f77f127db414e56aaaab),
    (10357, 0x1a8049c8bbacd321b63f7bbd2b87, 0x605be4fd7c40c17d678e39a06dcb02bb),
    (239930, 0x95adc9fa199096608b32ed52516, 0x73153e11b35cccf5f813f4b1b05affbd),
    (219539, 0xa041a790012e4d2bb1dd551d9b5, 0xf462f8850f56c26c56cfc2ce78cf8b7b),
    (146286, 0x180252cfeab8b06c06c875c289e9, 0x77e7419aa11a9b433c0ee976d93ece77),
    (48720, 0x1e27727f1ad19e79feea714bfd2f, 0x494cf4592487b67fccda8a1645aa525d),
    (118983, 0x13a38dcf5b74dc451d26afa2abd4, 0x641fc487ea56eca314f9fb4ca960890b),
    (261202, 0x13eed1ab84dad89a7b9de6dfa415, 0x59c384bf2f74e27553a9c78864161173),
    (3116, 0x1ba4bb940cd1a6f2efd828fdfb4e, 0xd8f28409c00dcab264d93ac9111572ff),
    (55340, 0xfefe86842b54a6cc2acca341df8, 0xed6653c6139ed0362cabffc292e6dbc7),
    (164613, 0x1d4bb68b990595814eefe0abbe29, 0x3e62b63a8e07d130505236b2748dff5a),
    (164614, 0xea5db45cc82cac0a777f055df14, 0x9f315b1d4703e89828291b593a46ffad),
    (84716, 0x1e36bfe6199f6966d4c119609ba9, 0xb9d740299bb45d666c68e1f510146e47),
    (54709, 0x4da9ed9ab80f5a603f5898bc404, 0x66a5d7e3124964a7b1259150aa61d4d3),
    (115046, 0x17f3d39fa0c8f842f675c8449518, 0x66a792d92f7cd0a5c37ef44f3206c56b),
    (209940, 0x2ddfbb0b8909db73a95e02cb81a, 0xb6a3d1b804e97ad79b291bf2335c3aef),
    (49069, 0x1ab320f59d7451d95e8e3cd3ab37, 0xe29ee4c7f0db0a7dba2ffe6baae02a9b),
    (169162, 0x3973213d005857031559ade17, 0xf6020065d94b974359572de86536a46b),
    (65812, 0x1b88ab5f9df4a19a50e39082a3c9, 0x7bcc423f4b08d1ae01715c4734fd9d81),
    (128084, 0x18fbd6fb3b57f4a443985ed38296, 0x3e52e7635169f2e4200886a947c2a4a5),
    (209022, 0x4afdc73adf83a8a256f290daeb3, 0xf6820d83b5fa757de71faaeb238a0fe3),
    (164436, 0x99cbe56637f7ada349017731ff, 0x86573e50920dad7af985ede8d0709aef),
    (6606, 0x1fc62e407a8814478e5417108a0f, 0x9b30769fc3e93ca0d20ce82d325670c7),
    (81417, 0x1f03389de497925c396ad6f5ed73, 0xd52a7c6b14a9a5f63c60c896960b84db),
    (181148, 0xce3abc59c8daab90062f2671472, 0xe116f621d71fdcdf0a5b23543d7efbc7),
    (69150, 0x1a255a7edda1175e43deea114d12, 0xba2489865fec4553ffc4f4832bfdeb3f),
    (171096, 0x1af233649d29031689c86af6be52, 0x92c55ab9cd4b68dd087ebbd61990fd8d),
    (241353, 0x17e03a8a6d2680b87c5b144641b5, 0xc163a9d11231a3db4c406ce8bd55dee7),
    (208228, 0x1e696a494b8b1e696fbde9619ad7, 0x1b5f70703fef233ef80f6790f4447ea3),
    (151674, 0x1e825a972e85233d9becc978514b, 0xbfd32fa02a8e63f885b7bcc6baa45e6a),
    (151675, 0xf412d4b9742919ecdf664bc28a5, 0xdfe997d0154731fc42dbde635d522f35),
    (73909, 0x1d9684979fd00ce6bf35d7f05575, 0x4ccceceef5b41b140130c3b55ce06647),
    (260455, 0x1a70cff3274287d638cfc678a360, 0xb4b33c07a6031ebf81d55da3c827aed6),
    (260456, 0xd3867f993a143eb1c67e33c51b0, 0x5a599e03d3018f5fc0eaaed1e413d76b),
    (47840, 0x11ea09a8638f4b46c5a491e1c987, 0x47c484c6a4e51c9def8bba66d1d1a945),
    (60724, 0x1068ca08da170e5b15de138f3372, 0x1d5c03078d67bafb8dd700d546b44813),
    (246571, 0x174f651ecc420afb060de3cda076, 0x8a0a17a279e27ba289f4752381d6b843),
    (60317, 0x1a2f478e3c9b48af612ee26a7596, 0xef0075b6f600aa910d3c72f1f1a2b4af),
    (64448, 0x6870f23a5f864086834c67a7805, 0x23ccc0a06bea79978fb673b51be69c93),
    (109927, 0xdd3f779b63df953b5f1438464e6, 0xbfd73432bfddfc17642a46d69dd3319f),
    (48377, 0x11476e7efef550f889f62bc33a75, 0x57a6c057f91ff505e22dc04218a6048f),
    (19230, 0xf6fea5f3be9c551f713867e2f24, 0xe806d5ef805a5c45e6bf6e942b042285),
    (252486, 0x358b44e1feb15191b5c33014965, 0xb803ffbb3be3371ef0b357cacd05be5),
    (199608, 0x105507599d785ae7db8afcc53ccd, 0xdd1c3d3b649ca24611e6ebff88b15aa9),
    (119020, 0x163ce99160c3fed131834bf96fa6, 0x8bf3df9b64d70047f9ea0494951f1e12),
    (119021, 0xb1e74c8b061ff6898c1a5fcb7d3, 0x45f9efcdb26b8023fcf5024a4a8f8f09),
    (10892, 0x19aa9d545a16868ed9f0bd2d234d, 0x55e7cba7df2170a7c87d1265b5d27544),
    (10893, 0xcd54eaa2d0b43476cf85e9691a6, 0xaaf3e5d3ef90b853e43e8932dae93aa2),
    (10894, 0x66aa7551685a1a3b67c2f4b48d3, 0x5579f2e9f7c85c29f21f44996d749d51),
    (74713, 0xaf23c4b9c86c5cf7e9626f4ea78, 0xb2258bd6f3ed89ad7701c1725e26591b),
    (218456, 0x104b82e56d54121d0a718ab234d4, 0xbef37b910a22300ed46631a3f67e8cbd),
    (176669, 0x18e6546b1d18bf41a2dafe4c07df, 0x9b86515c00eccb97e3b20234ae4a5627),
    (250201, 0x24aed9e719c09f9c0b998036b52, 0xff9eb9681c93f592a422a866cc7eb495),
    (111230, 0x13f89b352d90c0a0be20c36b0335, 0x66a097caf689743548118d5173ef1a1f),
    (170878, 0x1ba06f25f22530432da2de252eea, 0x113b7e318b5c48fcc1b42de9986d1249),
    (83197, 0x10e08ede6e602a3fe075aa0fa180, 0x91b9cd0b1e77ed2aa94bcc7a73e1f3a7),
    (148100, 0x183abbf08f00ae170d90f12affb4, 0xe7793742b438c2a41972c9087a832c99),
    (224850, 0x18f8b1be0cebab63667f5f301b6f, 0xfc1edb1481626ee34774caf89601d217),
    (34307, 0x19a031474efce8aae35d8a8e4afd, 0x119de7afe1d7a27233d64f9eea07b4af),
    (220097, 0xf0f62ef1df76d0f56ba8b9e3cc3, 0xfff7e8011cf7e06175d2b80be42ada09),
    (139856, 0x1cedf9eec1014f681749cc9ffd36, 0x8dc900a805f62aa0d926d565d78a9115),
    (113611, 0xe1210afdb1923cab696c700838f, 0xc0964e5c4062274d78dc1208be0ab3b7),
    (88641, 0x12c641b7b036e2d6322e3cc40d6f, 0xd47219e82ab4d9c52f738ae6e309c0b6),
    (88642, 0x96320dbd81b716b19171e6206b7, 0xea390cf4155a6ce297b9c5737184e05b),
    (191330, 0x17bf3a4ca018256b75283d9bd44a, 0xef7c1d1d780cf296c9a88fba5a47f59),
    (172688, 0x105f09bfcc0be7dcf23aa9c6e102, 0xaf851d07111019b8c397e2ab40ecf584),
    (172689, 0x82f84dfe605f3ee791d54e37081, 0x57c28e8388880cdc61cbf155a0767ac2),
    (172690, 0x417c26ff302f9f73c8eaa71b840, 0xabe14741c444066e30e5f8aad03b3d61),
    (131986, 0x1affbff679f23ace9f94587472c2, 0x549b2b9bc71715d67bfee72b231f664b),
    (39275, 0x148aae9063b95b3ddfe306950ee3, 0x6a9f4ce0ebcb0403bf041de0a6b114a8),
    (39276, 0xa45574831dcad9eeff1834a8771, 0xb54fa67075e58201df820ef053588a54),
    (39277, 0x522aba418ee56cf77f8c1a543b8, 0xdaa7d3383af2c100efc1077829ac452a),
    (39278, 0x29155d20c772b67bbfc60d2a1dc, 0x6d53e99c1d79608077e083bc14d62295),
    (21744, 0x48e1583cffb310b5529101d3474, 0xf02b7515862aea30663be5ae507a171b),
    (198971, 0x16bb9252555c83e08ed415a9074d, 0xbc491235ecdc8991fe1a12039a916129),
    (239289, 0x19b09167f7ce7945c731139e4125, 0x62923246104ab3c4467a976e41d62d38),
    (239290, 0xcd848b3fbe73ca2e39889cf2092, 0xb1491923082559e2233d4bb720eb169c),
    (239291, 0x66c2459fdf39e5171cc44e79049, 0x58a48c918412acf1119ea5db90758b4e),
    (239292, 0x336122cfef9cf28b8e62273c824, 0xac524648c209567888cf52edc83ac5a7),
    (115071, 0x29063fd0b1f68f180ae2e8ef9c7, 0x9b438ca3de8370b335fd5abe6ccac57),
    (231971, 0x60d1ebc2177d6362bac5707c2f5, 0x7125e93dd166f5451ad9f9c39b65fedf),
    (237559, 0x1a2cc8ddc22e76090c56dfc463ad, 0xa83f4392292fc5acda33ae2198029c23),
    (209190, 0x160a4e777292369801f515aeab68, 0xaa0b168209a4c36867d379c12bd8faa9),
    (94489, 0x19e0664165e162da757c0485a7ce, 0xf7194b678d8a94ecb37d15f3a62c5290),
    (94490, 0xcf03320b2f0b16d3abe0242d3e7, 0x7b8ca5b3c6c54a7659be8af9d3162948),
    (94491, 0x6781990597858b69d5f012169f3, 0xbdc652d9e362a53b2cdf457ce98b14a4),
    (94492, 0x33c0cc82cbc2c5b4eaf8090b4f9, 0xdee3296cf1b1529d966fa2be74c58a52),
    (94493, 0x19e0664165e162da757c0485a7c, 0xef7194b678d8a94ecb37d15f3a62c529),
    (113459, 0x188c05ade27bf3d2db8a62c03c20, 0xaf8c3b85512d234c8530d636c8b43ceb),
    (238446, 0xba103b5b46ef2188c0ac5b5145, 0xb2c90ffbaebec102ee5d846af43f7e81),
    (71347, 0x17138399114f162ed283c5d52160, 0xbb7e3acd4cedd3a9440a48e8d1308feb),
    (98641, 0x198e017678dbc92128ab20adc3d2, 0x83d556074cb6f4f9a2c072fb6181dc5f),
    (75666, 0x1731a90c14909ddee61c95aff7e9, 0x77688b25a9312a00c02be2275c795d23),
    (200138, 0x50032b5d3c872604e789ab6d654, 0x10592f88128a5bcd5b026c47fac4d0cd),
    (79667, 0x132085532e613e749c0e9a65d0f1, 0x853932dac99df10fcf4c4e8ec44cf676),
    (79668, 0x99042a997309f3a4e074d32e878, 0xc29c996d64cef887e7a6274762267b3b),
    (250933, 0x4e379a07a416603b6724aa9bf79, 0x91fc1593cb33a78b7f8764f310bc51a5),
    (248247, 0x196aca4c52dcb36159e23c599cb0, 0x797ee7aeac769a38e11a68958cdc73fe),
    (248248, 0xcb56526296e59b0acf11e2cce58, 0x3cbf73d7563b4d1c708d344ac66e39ff),
    (13388, 0x1666615290d6e24f15114aa673fd, 0xd934ab8b31cd154587b5f63522bf1aec),
    (13389, 0xb3330a9486b71278a88a55339fe, 0xec9a55c598e68aa2c3dafb1a915f8d76),
    (13390, 0x5999854a435b893c54452a99cff, 0x764d2ae2cc73455161ed7d8d48afc6bb),
    (233357, 0x1e1b0a8c82f143a96736b19f4e73, 0x9971f93e74ea4f979eca011ec91b861d),
    (239435, 0x19161b1a76b2280033b9036a7553, 0x106e8cab0d68d72429a06a3912ff031f),
    (8406, 0x1baecd68cf383fd03c11762e2cbe, 0x95dd57975d55ef8676808ee7d82c3cda),
    (8407, 0xdd766b4679c1fe81e08bb17165f, 0x4aeeabcbaeaaf7c33b404773ec161e6d),
    (204487, 0x7f590ffe731f31ee8dea3e56025, 0x5b854195e700f2dce6d78796a806824d),
    (12061, 0x1d30e6cbe5cfaecdb65860ea282d, 0xc96e0bffb0006b590559784b1ffe2373),
    (91152, 0x1d12fd3daa12ab1f570574c7b24d, 0xda58bc72faf60fd4b5cd5f8b1824e285),
    (105367, 0x1b763c1f19bb2c7458d4a9150b75, 0xbe983d7d3623c21af07190683c7c5f40),
    (105368, 0xdbb1e0f8cdd963a2c6a548a85ba, 0xdf4c1ebe9b11e10d7838c8341e3e2fa0),
    (105369, 0x6dd8f07c66ecb1d16352a4542dd, 0x6fa60f5f4d88f086bc1c641a0f1f17d0),
    (105370, 0x36ec783e337658e8b1a9522a16e, 0xb7d307afa6c478435e0e320d078f8be8),
    (105371, 0x1b763c1f19bb2c7458d4a9150b7, 0x5be983d7d3623c21af07190683c7c5f4),
    (105372, 0xdbb1e0f8cdd963a2c6a548a85b, 0xadf4c1ebe9b11e10d7838c8341e3e2fa),
    (105373, 0x6dd8f07c66ecb1d16352a4542d, 0xd6fa60f5f4d88f086bc1c641a0f1f17d),
    (129431, 0x6948d5fe3b04862aafbec4813a, 0x9589db398b7726c4f53ea2d495512693),
    (198764, 0xd9fa439cbb366504bdafb3d7088, 0xdbc6f36a0a0e288aad8f56b5be33939d),
    (199177, 0x12b5aeebcaa2a14ca54065f7d8ce, 0x34edc715220c41295dcf2c2e749c635),
    (18182, 0x1710da17a7a57ace35c346ab4b82, 0x1e0e28368196bd57895f8817cbb9ac7f),
    (4961, 0x1e93b9cfc26b228eb18b64e060b1, 0x9a5c179a8ed19f054718dc2e34dd343f),
    (116854, 0x1a796cb10e76e88328a5d748a182, 0x26c36530487d9288dec83dfd6f470a70),
    (116855, 0xd3cb658873b74419452eba450c1, 0x1361b298243ec9446f641efeb7a38538),
    (116856, 0x69e5b2c439dba20ca2975d22860, 0x89b0d94c121f64a237b20f7f5bd1c29c),
    (116857, 0x34f2d9621cedd106514bae91430, 0x44d86ca6090fb2511bd907bfade8e14e),
    (116858, 0x1a796cb10e76e88328a5d748a18, 0x226c36530487d9288dec83dfd6f470a7),
    (201256, 0x174ef9ab7ebb48ca517cdc18b112, 0xd3997102f556f9e71c8b98ed6b5019e5),
    (129048, 0xb843b3d652983e5b5ec68d242b1, 0xf87a59481c20be3bb8af904726053c63),
    (194168, 0x1dff0390211fe7c191acf23999fe, 0xbb762541bb2396c3f1a92128eb80c3b6),
    (194169, 0xeff81c8108ff3e0c8d6791cccff, 0x5dbb12a0dd91cb61f8d4909475c061db),
    (104906, 0x16e739dc69c3cac6ad12da57e21e, 0xa19c9e41ea994e77ef318589725fc38b),
    (231235, 0x19173ebae68b3f5cac996a6852bf, 0x1886db0e48cb2bbc8a60a84a446a74e6),
    (231236, 0xc8b9f5d73459fae564cb534295f, 0x8c436d87246595de4530542522353a73),
    (61998, 0x12656518a6d937640507de72275c, 0xd36b425ef1d88442281e0f337a273f8),
    (61999, 0x932b28c536c9bb20283ef3913ae, 0x69b5a12f78ec4221140f0799bd139fc),
    (62000, 0x499594629b64dd90141f79c89d7, 0x34dad097bc7621108a0783ccde89cfe),
    (62001, 0x24caca314db26ec80a0fbce44eb, 0x81a6d684bde3b10884503c1e66f44e7f),
    (49028, 0x1af5d79f275f72eae0fbd8b8f7f7, 0xbb314ae914356b3f5749f440f9c0144b),
    (139356, 0x1a14cd2e4e22130cb2e53f828c6d, 0x4aa1a7bfa9d82782851eb8db1822f5c5),
    (161769, 0x18b295600e40aa8d6383b24a69ca, 0x1eb2ca78f1ba3fbab82bd4b3e7875a2a),
    (161770, 0xc594ab007205546b1c1d92534e5, 0xf59653c78dd1fdd5c15ea59f3c3ad15),
    (217181, 0x13a6e21c7b19e70ca5964737b5d3, 0xe3964e3a570cd011ce91117fe29a8721),
    (28132, 0x1b5e09b5f7b67f1bcd414424d529, 0xf9b58309beb9cffd318f2fd7880745c6),
    (28133, 0xdaf04dafbdb3f8de6a0a2126a94, 0xfcdac184df5ce7fe98c797ebc403a2e3),
    (133349, 0x1cb6dd229073b975b19bc67a56bc, 0x83b417d2cdda8fc64cf339afeadc8982),
    (133350, 0xe5b6e914839dcbad8cde33d2b5e, 0x41da0be966ed47e326799cd7f56e44c1),
    (108837, 0x1905d2ee2b77c2b9fcecc5fe0cbb, 0xa2b1bebaf1321cd294e26902f51bf41b),
    (99337, 0x1334f6c5c3818225584c18e55e55, 0x98d0c666ea87d11f7d59031d22c2104d),
    (217455, 0x19bce84a9f9183ca2b995e40205, 0x215a278262e75fdb310d6b00897a9e29),
    (136960, 0x1e050207385492655ae24535f68d, 0xb2045d8baf3d394e39383e78158c63ba),
    (136961, 0xf0281039c2a4932ad71229afb46, 0xd9022ec5d79e9ca71c9c1f3c0ac631dd),
    (163328, 0x4a4b1a0f7db7610453d5805e0a2, 0x4d6b4e45f76ef104a410d026c89fe365),
    (72959, 0x1a5e8f67cd2843376c866ab42940, 0xb9f23b007b7503ce79f0cf793e4b2ef2),
    (72960, 0xd2f47b3e694219bb643355a14a0, 0x5cf91d803dba81e73cf867bc9f259779),
    (149361, 0xa4f66e339dbf495bfc2e81b0bc1, 0x431b4b04a111fc7fb6ff698d851a5815),
    (101205, 0x1f311661c29e28f9bb6e30ba858, 0x13cd49a726159cb3b3a1b8be3d325fe1),
    (45634, 0xa8f533fa34110ecf54b50c22c07, 0xb2dee49a6aed58c92202fef6eb5f77e9),
    (193578, 0x1c508ba7be27966622ed38de34ca, 0xb5190b6b63830b81aa3a0b6c606abe20),
    (193579, 0xe2845d3df13cb3311769c6f1a65, 0x5a8c85b5b1c185c0d51d05b630355f10),
    (193580, 0x71422e9ef89e59988bb4e378d32, 0xad4642dad8e0c2e06a8e82db181aaf88),
    (193581, 0x38a1174f7c4f2ccc45da71bc699, 0x56a3216d6c7061703547416d8c0d57c4),
    (193582, 0x1c508ba7be27966622ed38de34c, 0xab5190b6b63830b81aa3a0b6c606abe2),
    (193583, 0xe2845d3df13cb3311769c6f1a6, 0x55a8c85b5b1c185c0d51d05b630355f1),
    (64711, 0x1dc7102b48223c2e1c34b9962576, 0x997a7e5beb8d68f020f564026c58ef47),
    (94383, 0x18dbc351a4a84285087b3d971874, 0x1d49157f15738c31eede5f40cbe4051d),
    (114385, 0x5949895c79bc57f78e737724758, 0xee5af1f8b75f0f874ba2720ffcfa2819),
    (128448, 0x8c68e643178f048e23e3df31463, 0x261e871796158f6bb6186cb93a78af17),
    (142934, 0x1b4c1bc47e05cd6dfdd8d21c4acf, 0x963856547c4b1866cfe846746795cde7),
    (14938, 0x1e77d2521fd5feeefcf714626b9b, 0xe30fc5ca23ecd813fef72f72ebea438f),
    (66086, 0x1ec8cbd93fec37b10aa39d401cb0, 0x6861abef8b44cc88a9f5f6e4c91fefa3),
    (87482, 0x13e5931655e3aa049d746b1bf96a, 0x99de9811910b514548b072fea2d81606),
    (87483, 0x9f2c98b2af1d5024eba358dfcb5, 0x4cef4c08c885a8a2a458397f516c0b03),
    (179029, 0x30ff2a6ddddbacdcb6756389004, 0x9436f15194485c1713719a7fe2985461),
    (74244, 0x1b724df8175c8b57ebffdc691b4, 0x24aa6a055bb6a2ce614633705d1a5911),
    (174575, 0x19e2351e68ed2e10f01187a76e96, 0x82b2bdc66a10ff245837f5eb62b9cbba),
    (174576, 0xcf11a8f347697087808c3d3b74b, 0x41595ee335087f922c1bfaf5b15ce5dd),
    (31972, 0x1672a20dca3957fc2e27196862c3, 0x5f003cf4716fd63378eeaea354c607c1),
    (158223, 0x1646b28a7651787610fb335ee2ce, 0x15ba8769357b52e0365c3d8cabc3805),
    (60150, 0xa5dfeeb888a2c4caec6e3d8b31b, 0xbe45b6b4ea01eef78b52015e2e17c4a5),
    (202665, 0x167cde5f9a83fc7d8adff9d5639b, 0xaef2e67dfe001fec6ca15fd302dde57d),
    (231147, 0x1f57dec3f22a296b8c2fb1400d3c, 0xd163910ba3b388c2283fbbbd1fe1bd10),
    (231148, 0xfabef61f91514b5c617d8a0069e, 0x68b1c885d1d9c461141fddde8ff0de88),
    (231149, 0x7d5f7b0fc8a8a5ae30bec50034f, 0x3458e442e8ece2308a0feeef47f86f44),
    (231150, 0x3eafbd87e45452d7185f62801a7, 0x9a2c7221747671184507f777a3fc37a2),
    (231151, 0x1f57dec3f22a296b8c2fb1400d3, 0xcd163910ba3b388c2283fbbbd1fe1bd1),
    (49407, 0xdbe85445e736d4a3b94d79f8f20, 0x94399e22da738b3b0093cb4697b4ad45),
    (12462, 0x1477314ff699f46ad9b0791c9fa3, 0xc55b35820fe0d465ee19f16ff0dc19d),
    (148303, 0x128b338a98d140c4e5f015c075af, 0xdc2083db1577df210cbec635e53bf8d4),
    (148304, 0x94599c54c68a06272f80ae03ad7, 0xee1041ed8abbef90865f631af29dfc6a),
    (148305, 0x4a2cce2a6345031397c05701d6b, 0xf70820f6c55df7c8432fb18d794efe35),
    (225280, 0x49dadbd3af64d57b3f6218684ff, 0xa5abd02f7b1ccb911e6d54888d70ef),
    (207907, 0x192f269c045d3d90d7b60d60d775, 0xb1c5466afdc23938ba69c636af3b0d70),
    (207908, 0xc97934e022e9ec86bdb06b06bba, 0xd8e2a3357ee11c9c5d34e31b579d86b8),
    (207909, 0x64bc9a701174f6435ed835835dd, 0x6c71519abf708e4e2e9a718dabcec35c),
    (207910, 0x325e4d3808ba7b21af6c1ac1aee, 0xb638a8cd5fb84727174d38c6d5e761ae),
    (207911, 0x192f269c045d3d90d7b60d60d77, 0x5b1c5466afdc23938ba69c636af3b0d7),
    (225669, 0x1bebd860d59ce0b5b108c0fb19c9, 0x567262c0789b12821c3335d71825d47f),
    (29464, 0x1081cfba9b40d5d3285064c90d9e, 0x1e9d3ad99d74aaef447a7473bc78a5e3),
    (25999, 0x1d60db7a61084154dc82105cdab, 0x3ad8a8010dc394c876efdc9cb387f525),
    (181185, 0x66c341800764c1143cc493666b5, 0x47cfb5f86e366468cde09732e351cfb7),
    (107932, 0x1a1e3caa5ad73ffe5f3b73a27802, 0xc4801d6c45d09e3338e72df2c670405d),
    (177249, 0xf32f1c2fa18edf420e3d6f62e7f, 0x690dc53be8a311fd7ba6cd29a4c27f11),
    (258482, 0x15af8bb6a00c8089d0bb970ed0db, 0x54831a20d4382fae6af6924e409cb82e),
    (258483, 0xad7c5db50064044e85dcb87686d, 0xaa418d106a1c17d7357b4927204e5c17),
    (229550, 0x9039fefac400a10e2ba48f2c853, 0x16c30761d4852c3b6cd60cfc5768e6c7),
    (152655, 0x14b8590ba3de2211378f9cbf683d, 0x2ebf94c2a2425565fb5c60e950047eb9),
    (94069, 0x1c1acbb736207ee8bd77b79aa2ec, 0xcceda926c87170214340ee8b34a145ea),
    (94070, 0xe0d65db9b103f745ebbdbcd5176, 0x6676d4936438b810a1a077459a50a2f5),
    (94435, 0x1a0b492d9d5e18d9ed574f7b03ef, 0x73398c7d6bc020f3926e8d8bffe29d2c),
    (94436, 0xd05a496ceaf0c6cf6aba7bd81f7, 0xb99cc63eb5e01079c93746c5fff14e96),
    (94437, 0x682d24b675786367b55d3dec0fb, 0xdcce631f5af0083ce49ba362fff8a74b),
    (167762, 0x1df7b0484be02c485b18a301b0ba, 0x53743f977c2b8ebd08ca852943fa92a3),
    (68396, 0x169f9f9a7f499ad61a65a77466ae, 0xb722b1bd602d1c15df2ddabf7c276189),
    (53497, 0x134d8ad3a8cba3cda9c73739b06, 0x7ad066664ac9ddcbc8bb4f94745960cd),
    (99660, 0x19b35abe61a1620bd9e78a81a4d2, 0x69c93d7ca935f93fbae08a21a1ea25a2),
    (99661, 0xcd9ad5f30d0b105ecf3c540d269, 0x34e49ebe549afc9fdd704510d0f512d1),
    (45959, 0x1ccc1e57bbac9c90a3e0bf70aa28, 0xbd679aadec2e592d86713d32ff3f1047),
    (140512, 0x14a107b3e78402558b2490fb70ed, 0xf6b6ec079f0be1dcf08b2a2a1de421ef),
    (219691, 0x154d73e48f95f23b530ef6d25d08, 0xecfd7ff0d7407357ab7d517519f360e9),
    (112727, 0x151149cb6fe333fa915d1dcc4407, 0xb2049b868399b76a85ff910ea30ca663),
    (160204, 0x1ba7bf47c9feecd7f8574196aaea, 0xbdab04b18ef0d959b534431c6dfabf69),
    (187177, 0xbfedfe7953c8b29ff4fb177f78d, 0xe66c68f8420a692a81ba781819b0363f),
    (165069, 0x18d20fec05e455ed3b2e2f1cafa7, 0x78124ef96bef8fbc85236d128321bbf9),
    (132656, 0x4df617e8c068fae6d6062763229, 0xd4ca23ba39b1156060278940e5473567),
    (260156, 0x1a4db251d8720293b631deec7afe, 0xaf4850f1875106abbde2060e2f07198c),
    (260157, 0xd26d928ec390149db18ef763d7f, 0x57a42878c3a88355def1030717838cc6),
    (260158, 0x6936c94761c80a4ed8c77bb1ebf, 0xabd2143c61d441aaef7881838bc1c663),
    (8349, 0x149d7aadaed8527285a849989fc9, 0x55c660b7a58354574ef8cc0a010228d6),
    (8350, 0xa4ebd56d76c293942d424cc4fe4, 0xaae3305bd2c1aa2ba77c66050081146b),
    (57450, 0x1ab48287017934fe00f2471c9205, 0x85cfb2e8a75204d16cdda3a9c675bbd3),
    (7238, 0x15687e2804e94ec7f5ef197ed329, 0xc6b3fb63eb13aa65984769a4fe618d4f),
    (20143, 0x13e59edf60936247bafe86bbe067, 0x1bcd862696de81c3164daddbc1e2ce1a),
    (20144, 0x9f2cf6fb049b123dd7f435df033, 0x8de6c3134b6f40e18b26d6ede0f1670d),
    (14039, 0x150dcca2b731ec20e958b3b504d7, 0x2fa4b25ac2589279f392ca43d819d3c4),
    (14040, 0xa86e6515b98f61074ac59da826b, 0x97d2592d612c493cf9c96521ec0ce9e2),
    (14041, 0x5437328adcc7b083a562ced4135, 0xcbe92c96b096249e7ce4b290f60674f1),
    (118635, 0xdf084cfba1b724a97cd6ccf4419, 0xa00996476632ceaed24a607050ea8dc9),
    (125255, 0x1a82e62c75fe8dd219c2eb5493e9, 0x9e97e34055ae39070df43adc79c07b69),
    (109343, 0x141de8dbbe7712be0b9344267c30, 0xfbea68e5a67890451b57f0f60622668f),
    (95949, 0x2793e1c662873339350be6cd462, 0xc6d4ff798c0970c01c0eab9b22eb13d3),
    (254809, 0x1da097ccd270bb59c2de228b391a, 0x54091502ea8a00a895660f56ec73c9e0),
    (254810, 0xed04be669385dace16f11459c8d, 0x2a048a81754500544ab307ab7639e4f0),
    (254811, 0x76825f3349c2ed670b788a2ce46, 0x95024540baa2802a255983d5bb1cf278),
    (254812, 0x3b412f99a4e176b385bc4516723, 0x4a8122a05d51401512acc1eadd8e793c),
    (254813, 0x1da097ccd270bb59c2de228b391, 0xa54091502ea8a00a895660f56ec73c9e),
    (254814, 0xed04be669385dace16f11459c8, 0xd2a048a81754500544ab307ab7639e4f),
    (253624, 0x1c1043c5d6a928ec224a207260ed, 0xbd6591913803d94b500586de95dd1dfb),
    (93896, 0x2846a6e0cf908d1fc4bd684038d, 0xd5af93108b95b55368bb49f0b7553101),
    (5988, 0x1890fcc7c2b08218e34b7bcd59ae, 0xad8262f663d90f9db8646eef8fc36a88),
    (5989, 0xc487e63e158410c71a5bde6acd7, 0x56c1317b31ec87cedc323777c7e1b544),
    (5990, 0x6243f31f0ac208638d2def3566b, 0xab6098bd98f643e76e191bbbe3f0daa2),
    (5991, 0x3121f98f85610431c696f79ab35, 0xd5b04c5ecc7b21f3b70c8dddf1f86d51),
    (14009, 0x1b5a1a7b6c4ac5e1766a89920ab0, 0xfe73f2154f5764778024e02a40a41e5d),
    (97094, 0x7196e34c03badabb0738248ca91, 0xf0285520a6d85d2d5d3e1cd5f86aa6db),
    (120976, 0x154ef97c54825e0e136655fb0990, 0xe71af6405be4c47c98bd4257608c2d81),
    (115970, 0x1767490d1b6b6dfd0cfca1590612, 0xdacb8e30b9df8beac7077dd5c1b2ed8b),
    (153362, 0x101b8fe106d2da8c5aecb264b416, 0x7a09343467f30085fee11d927e03f0e8),
    (153363, 0x80dc7f083696d462d7659325a0b, 0x3d049a1a33f98042ff708ec93f01f874),
    (153364, 0x406e3f841b4b6a316bb2c992d05, 0x9e824d0d19fcc0217fb847649f80fc3a),
    (153365, 0x20371fc20da5b518b5d964c9682, 0xcf4126868cfe6010bfdc23b24fc07e1d),
    (74676, 0x172ea6ddc476c406c67d9e20bfcd, 0x4795adbd70b4776d606e62bbd2297457),
    (35578, 0x17a0292e8a196d9c9e4d767828a3, 0x448ae8ce68775e8789729a4f43c2d4bb),
    (92406, 0xd0edab2f9507a61b9f2514eb171, 0xc20a07e7292ad29d162da8e2fbe64087),
    (110901, 0x10fdeebd53d112a27a0b71f39d69, 0x4e5491a05bf58a3dcc43455956e97e66),
    (110902, 0x87ef75ea9e889513d05b8f9ceb4, 0xa72a48d02dfac51ee621a2acab74bf33),
    (172089, 0x192505bcf6af8048f17fb5058de5, 0x826d75cef96e2bdc2fd18a0d6d239258),
    (172090, 0xc9282de7b57c02478bfda82c6f2, 0xc136bae77cb715ee17e8c506b691c92c),
    (172091, 0x649416f3dabe0123c5fed416379, 0x609b5d73be5b8af70bf462835b48e496),
    (172092, 0x324a0b79ed5f0091e2ff6a0b1bc, 0xb04daeb9df2dc57b85fa3141ada4724b),
    (30982, 0x125bf43f814a6693d0c4e4027f33, 0x78880ea63d165a94198fdc67219c06e9),
    (244448, 0xf157cbea61479f742da90800c6a, 0xc8812efd0745bf5ffc0ba868fcec32a7),
    (261690, 0x1b8cb8227e3e59b226df0270f8f0, 0x1e7e5acd072453a1d2656da3253b7703),
    (111179, 0x130bf7a2c75da81cc5794a81902d, 0xa6fb3dacbb60aa11a47708de55d65625),
    (81407, 0x1b21ea7ac2f472156b47e372cfb9, 0x2776a3e765a7886ac70293995f9f29ef),
    (103700, 0x199ce8086c4cf6d171b8e543023d, 0x7fe3b7b7c9e6428c5ce66d34445df4db),
    (169454, 0x156c327b3d5e58b77534f7204a62, 0x3271efbe217195101ea81e9b99b6e1e0),
    (169455, 0xab6193d9eaf2c5bba9a7b902531, 0x1938f7df10b8ca880f540f4dccdb70f0),
    (169456, 0x55b0c9ecf57962ddd4d3dc81298, 0x8c9c7bef885c654407aa07a6e66db878),
    (169457, 0x2ad864f67abcb16eea69ee4094c, 0x464e3df7c42e32a203d503d37336dc3c),
    (169458, 0x156c327b3d5e58b77534f7204a6, 0x23271efbe217195101ea81e9b99b6e1e),
    (169459, 0xab6193d9eaf2c5bba9a7b90253, 0x11938f7df10b8ca880f540f4dccdb70f),
    (191440, 0x15b16fbb4324e21d00f5cb26f5f2, 0xce25cda8da1c54cf21742517e6bc8e89),
    (8243, 0x15efce8e39b6b0f181a77186a889, 0xc542ebb6370e464fe9a5da4093263bc9),
    (110040, 0x1ce68397c418731bce0a2bcf4dc6, 0x5f57d55f7bd6dfd7c75bafd39e5a68c5),
    (209999, 0x189f7d73c924cb5c5f9dfbeb3965, 0xeba8f2ff7cc35a70b6b382bbc5eb62eb),
    (211554, 0x1087ee26f23678538d3e3dd6d3c4, 0xb19f018b1d27ef38bed413cb26fbc3b),
    (204514, 0x12977493157f3ce59d47ef27bae, 0xa97e5f507a96d4ee5fe223e34491737f),
    (182030, 0xc7f172f7827898aa6d5904f9aa, 0x62bd16f9f66b5e0880b6475098bb0065),
    (57826, 0x10afb5a7e41ea888c34776a148d5, 0x3d526440d70ad118cb25f9e0c30a419),
    (232828, 0x139eea204811262cf4a3faed616f, 0x5afe5a4b07511b5a08989dd4abba7bec),
    (232829, 0x9cf7510240893167a51fd76b0b7, 0xad7f2d2583a88dad044c4eea55dd3df6),
    (232830, 0x4e7ba881204498b3d28febb585b, 0xd6bf9692c1d446d6822627752aee9efb),
    (100437, 0x18f024fa6910af4989577d21b4cf, 0xe3e2593f095102ef695531f0dd9d5605),
    (155613, 0x93fbf1c89e29e3d2fd6c5b8be62, 0x849a773ff49e5f05605c4e260bd87a3d),
    (223836, 0x1f6c3478b85ad9ac802aeff4bd99, 0x436c73253b0592998e26ac837bc5bce5),
    (90552, 0x1709cc5d957635ee05fa75eb576f, 0xaf112486d67553adb26a1241159825e4),
    (90553, 0xb84e62ecabb1af702fd3af5abb7, 0xd78892436b3aa9d6d93509208acc12f2),
    (90554, 0x5c27317655d8d7b817e9d7ad5db, 0xebc44921b59d54eb6c9a849045660979),
    (139870, 0x19ca1425dfb9d923c85bbc7b3f2, 0x57d4df5f136ab4997e4ae7ec93f49dd9),
    (187906, 0xfa6de34d916806c4bb9aaf2fae5, 0xdcc1cf471f732065606b0fc4f3ea75d1),
    (118843, 0x1dd263190a6e6c8214f1ad4652df, 0x7b4fbcc90c21eb5e0ffb8965c24a0296),
    (118844, 0xee9318c853736410a78d6a3296f, 0xbda7de648610f5af07fdc4b2e125014b),
    (183564, 0xd81cd25e9b6ca8ca65589681ec, 0x3f15a3331eb3dd1b630a51e4eb8a50b7),
    (28300, 0x11aad77a86f89e754065ba328425, 0x3a8a9ba6aa721067953f473b9440f3e5),
    (85560, 0x16a24e6ea9ce48ef0873c0e8c1de, 0xdfa9892a9dbe62d5b1a0bf5ee24ea129),
    (185990, 0x1e27a83ef0bf14862d3e69ca08b8, 0x5f89e790c417c8ce3d814382cdd4e2b1),
    (118661, 0x187224b592798fb26a2c3c8dbc98, 0x86397acbc99ea9c56bb371b254f4f6dd),
    (212675, 0x1c1ad764d8f4aee82ce04980555a, 0xc59c3729cb289332990f1a76bcf6eea0),
    (212676, 0xe0d6bb26c7a5774167024c02aad, 0x62ce1b94e59449994c878d3b5e7b7750),
    (212677, 0x706b5d9363d2bba0b3812601556, 0xb1670dca72ca24cca643c69daf3dbba8),
    (212678, 0x3835aec9b1e95dd059c09300aab, 0x58b386e5396512665321e34ed79eddd4),
    (212679, 0x1c1ad764d8f4aee82ce04980555, 0xac59c3729cb289332990f1a76bcf6eea),
    (212680, 0xe0d6bb26c7a5774167024c02aa, 0xd62ce1b94e59449994c878d3b5e7b775),
    (24782, 0x14a481a8192f7087630309a61044, 0xb2c7d647211af82074ee3580d1c1fee9),
    (22771, 0x1845ea36f1e2dba841a2a226c1e6, 0xa0eccbebc236b7e64b246d586437c1fd),
    (174172, 0x39061e61a8da721ea76c47f58d1, 0xa8e3528cd7b208ed5f6bdb643521cd8d),
    (60273, 0x19164a0c8eddd8bb409b619750bf, 0x8242a93a93b652b58890457028d1f417),
    (41288, 0x1bc48dcf1ee1eee31a74da665941, 0x645b36454099d4ea06662848cfe92a04),
    (41289, 0xde246e78f70f7718d3a6d332ca0, 0xb22d9b22a04cea750333142467f49502),
    (41290, 0x6f12373c7b87bb8c69d36999650, 0x5916cd915026753a81998a1233fa4a81),
    (47195, 0x1cdfe23200c2e279f14b5a56a59e, 0x14fb852d65f41d9903afff5021665528),
    (47196, 0xe6ff1190061713cf8a5ad2b52cf, 0xa7dc296b2fa0ecc81d7ffa810b32a94),
    (47197, 0x737f88c8030b89e7c52d695a967, 0x853ee14b597d076640ebffd40859954a),
    (47198, 0x39bfc4640185c4f3e296b4ad4b3, 0xc29f70a5acbe83b32075ffea042ccaa5),
    (5646, 0x101c8fd63a4abbefd22efbfcfe08, 0x90ad292966f2214bc3e99aed09e890bf),
    (30861, 0x1d13c300172bd17a2ae5a88b0956, 0x3a87561526ef5ff10a8527a29b40debf),
    (144421, 0x1cdfd5be8c091656ef32d35aec3c, 0xff03bbefc37f94f27ca25fba1c1f2033),
    (66042, 0x1ec288ccde32a66892f467e260ef, 0xa7ecbd940b89146d492873f30b7d61bd),
    (185505, 0x1c7972b0aa504d9cf13834abba37, 0x4417577b8b3b8647de12ca1c207b466d),
    (101909, 0x10217b82cbe8bdd32a087595e533, 0x52be92a811e054e58cf2e3097a000579),
    (138336, 0x18862386734c64c88816687b6f9f, 0x4f07bf419f3c720e4ae85e4262f0fb39),
    (144391, 0x15a5fb50655173ea6f09096e6dcd, 0x8d2c900dc208a479c22755fec0954ced),
    (211489, 0xa5956c2c19c738de3185f558bfc, 0x4ce1b963b248bd7c284f4006c2c20b1b),
    (124208, 0x1796aa724203d62137abc1be177d, 0xbef867d243b3729ac8d27af53720c4c5),
    (29046, 0xeff5c21a1ee79ae7056fe4b307c, 0x61564834eb6cd0f3119d5aaf3b80d695),
    (82363, 0x18f2ca87d8b6d41e40c8428e2ca9, 0x90ee5d7c3ac1b0ebc6c76bf362e88406),
    (82364, 0xc796543ec5b6a0f206421471654, 0xc8772ebe1d60d875e363b5f9b1744203),
    (134331, 0x11e7c21cfe7ce344967c72369ac2, 0xa27f9885e2f636eba5d1a02304e1a717),
    (256380, 0x1849457758d87abe36dac516d855, 0x100d6d729bd9b7b2c1184dd4ed1d5b9d),
    (232240, 0x10cc0dfff92dff1f2dbe989e7aff, 0x3f93b013d5853d22dbc88aeb5c354f29),
    (152381, 0x561736dda121aebe63895856519, 0x3ce849ca979197c93a3e2533d671f5dd),
    (62623, 0x132d126370f2da6e2e2fbd23943d, 0x1cd5d9b5b3c9a3c1dc8725a636dc2055),
    (205466, 0x1ace61234131a60219c362ab4314, 0x96b32a316dc88506b64fab8bef0e1f4d),
    (10720, 0x150e89620cac53612cf4fb318ebc, 0x5662dd21b60db62870779a311cd821c0),
    (10721, 0xa8744b1065629b0967a7d98c75e, 0x2b316e90db06db14383bcd188e6c10e0),
    (10722, 0x543a258832b14d84b3d3ecc63af, 0x1598b7486d836d8a1c1de68c47360870),
    (10723, 0x2a1d12c41958a6c259e9f6631d7, 0x8acc5ba436c1b6c50e0ef346239b0438),
    (10724, 0x150e89620cac53612cf4fb318eb, 0xc5662dd21b60db62870779a311cd821c),
    (10725, 0xa8744b1065629b0967a7d98c75, 0xe2b316e90db06db14383bcd188e6c10e),
    (10726, 0x543a258832b14d84b3d3ecc63a, 0xf1598b7486d836d8a1c1de68c4736087),
    (87783, 0x19faf7e3fda6a1d1c2dc8b9ab35b, 0x9ecc6c30f59d97f32581871c650d7460),
    (87784, 0xcfd7bf1fed350e8e16e45cd59ad, 0xcf6636187acecbf992c0c38e3286ba30),
    (87785, 0x67ebdf8ff69a87470b722e6acd6, 0xe7b31b0c3d6765fcc96061c719435d18),
    (87786, 0x33f5efc7fb4d43a385b9173566b, 0x73d98d861eb3b2fe64b030e38ca1ae8c),
    (87787, 0x19faf7e3fda6a1d1c2dc8b9ab35, 0xb9ecc6c30f59d97f32581871c650d746),
    (87788, 0xcfd7bf1fed350e8e16e45cd59a, 0xdcf6636187acecbf992c0c38e3286ba3),
    (219726, 0x72ba0e4df9d5c85b5e51bc53b1e, 0x32e10ab972b25f13aeceae6a043cf7a3),
    (57552, 0x135f1b196384d84c54ceb8d1d3a2, 0xec4732a9c9d2d35b37f6a43cd0490eef),
    (248278, 0x1e558f0c2e5cead1126d5002bcd9, 0xfe51350eae38742747ed9d7af4de4ed1),
    (177752, 0xa5db91edc1c80422057ae0b22fc, 0x8612d3a6cd177d724d5969368a5bad21),
    (137398, 0x1dff5a4c19415e322b6538df35da, 0xff4475c2de9039653485da95018b684d),
    (165808, 0x184cee9a46f924b0cd721c7631b9, 0xfee6bb8ad0496bdb6e875626d05506cb),
    (167107, 0x1cbcc1f84f4efae3200501a7e73f, 0xdd6c4633b8a797d01a3980c157c92fde),
    (167108, 0xe5e60fc27a77d71900280d3f39f, 0xeeb62319dc53cbe80d1cc060abe497ef),
    (76507, 0x18f69d7a72b6be797e45bc06bbd7, 0x501c36b8a9e2558c21520a7d11e0876b),
    (150706, 0x126fb6dfd204d72f977ee78a3c5b, 0xa9e505274b8b3b737c954bc9665f2fa1),
    (117212, 0x103ae3f03ab2f7215792be9f734c, 0x661484626828af4ba49d55bc736f766d),
    (135269, 0xa5385a1ec4c2650cfc844689b75, 0x1b5fc5e4cc592ecd487a19cacca998bb),
    (4268, 0x2e3454d5e3205ed8d4a4b1af9b5, 0xd35c03dbad0a28903ca4128f39a60f9f),
    (222684, 0x1c401bb4fc9591bd006bf258f5fb, 0x2e502bb150a5a685eee6809cfb9d427b),
    (193727, 0x193ccdebed2605bf134143197ddb, 0xd3be4169d7c2aca4426f4a0453279761),
    (213668, 0x1af759303de37303c7ddb5493a75, 0x874a3616eb8f00779c1e6824cc8e9801),
    (161746, 0x4760552556262cc7114778c2cc5, 0xc8c87fa25ed1760422022d47c101b387),
    (255369, 0x3b25a95c69bd78f744febdd673c, 0x7b8a050d5a6bc2615117cf2582f87201),
    (258314, 0x446404dd1417e76bdc7ebe74f28, 0x1c5c6a52b3d55ba0344386e7f3fb2a4b),
    (179224, 0xebfb13f9c7d877b93c16f9c90a7, 0x40d06f519bc8e7c7b6b87fddaad409b7),
    (122602, 0x171ab7a735b4bcb242d059214112, 0xa068d77223435dab7bf74f2a6d1a71e9),
    (86676, 0x135dd1730229f3d6632f56bff8eb, 0xaaef67e2e18012ee3c30550f6c298eef),
    (233182, 0x1494359fe801ecf2c100d9f284f2, 0x8c3cb479f8dfaa1ff4e6c9e274ad4dce),
    (233183, 0xa4a1acff400f67960806cf94279, 0x461e5a3cfc6fd50ffa7364f13a56a6e7),
    (214386, 0xef48ed7efe10b3637047ecf2d6c, 0x9db6b8ac78d406a178f5ab9350218cf1),
    (249437, 0x1aaf4a0f7e5ae8375b85250fe762, 0xfa200688d9abe4575a9b3d96f69c51b0),
    (249438, 0xd57a507bf2d741badc29287f3b1, 0x7d1003446cd5f22bad4d9ecb7b4e28d8),
    (249439, 0x6abd283df96ba0dd6e14943f9d8, 0xbe8801a2366af915d6a6cf65bda7146c),
    (249440, 0x355e941efcb5d06eb70a4a1fcec, 0x5f4400d11b357c8aeb5367b2ded38a36),
    (249441, 0x1aaf4a0f7e5ae8375b85250fe76, 0x2fa200688d9abe4575a9b3d96f69c51b),
    (191732, 0x345e5b33b572cdf4fca97f7daa9, 0x73345c5529e9ef59561b7538764cce7f),
    (153904, 0x1e427c40edecc4bac804a9351297, 0x43d0a3f688e43e5246a2721357a058aa),
    (153905, 0xf213e2076f6625d6402549a894b, 0xa1e851fb44721f2923513909abd02c55),
    (109568, 0x121cab7b0434b7e3e0dd2fc822e9, 0x21227a01c99da65f80f32e0258302010),
    (109569, 0x90e55bd821a5bf1f06e97e41174, 0x90913d00e4ced32fc07997012c181008),
    (109570, 0x4872adec10d2df8f8374bf208ba, 0x48489e8072676997e03ccb80960c0804),
    (109571, 0x243956f608696fc7c1ba5f9045d, 0x24244f403933b4cbf01e65c04b060402),
    (109572, 0x121cab7b0434b7e3e0dd2fc822e, 0x921227a01c99da65f80f32e025830201),
    (3225, 0x1ea52a3996ff3a2d570b9ff46f90, 0x820db015aea8d12ca227caaf8cce1181),
    (107144, 0x159a0e3bde14167bf74950863c96, 0x17fbe5227c92e815f2eb7914597c06fd),
    (78334, 0x6b66908e5ee4a176efed3d88c9c, 0x37dd1bab61b4c7258214e0e62a914209),
    (50343, 0xd362c95792ed9bf20f5ac69cfba, 0xd86ec8c6270cab98417b62f5e140bb51),
    (139069, 0x3efda45270abddf6d705c1815bc, 0xd28ac1255881564fc3d84f2b2eb42d27),
    (249271, 0x1f2f1dd4304584c8ce23ecf0bf00, 0xe3820bb7a4ccd5e30087d9a8d9132335),
    (42491, 0xdae6c297ce843d1e2cdf1741e55, 0xb16f960e17a3d2745a5efe36448a52f7),
    (179291, 0x1a2ae7bcbc513f2ae480d23e2540, 0xbd648416d8ed2422b17d6dbee1bfb015),
    (160221, 0x1ac7dd22adc73cf05568c55797b1, 0x263657e5f987199fab99dceec98b49f),
    (35630, 0x10d22f52af1ec347568457bed5f2, 0xb6adc999584f684d97fdaf1bac09633f),
    (241803, 0x1f5bab665f9c70aef5cfad9f1824, 0xd418333ca6eca8ddb634e9732f91d4c1),
    (249539, 0x14291fadd03342b1b0f92a8109c3, 0xaf2c3c65df1c4263e142686af51a5ccf),
    (122787, 0xf2c4903da9f6254506804770b9e, 0xeedd3fc627c9a1a51337472ce0cbb841),
    (102176, 0x12266ef3b26f036494f652b1925d, 0x6076c501d165af76c6a43a8734694316),
    (102177, 0x9133779d93781b24a7b2958c92e, 0xb03b6280e8b2d7bb63521d439a34a18b),
    (203122, 0x1f8769cf26b3ba1be631093bcee, 0x1a47f62dd3c7c525358d86e2866e7b87),
    (108332, 0x1392a0b47d7c689979b1df4bc634, 0xec400d3fffc7596c194ba7214883c3fe),
    (108333, 0x9c9505a3ebe344cbcd8efa5e31a, 0x7620069fffe3acb60ca5d390a441e1ff),
    (33351, 0x145c5a21c5dd01951559c9110e05, 0x5213283e34f46ff3746a2a8e004b018b),
    (31404, 0x1d1683ea7565db96659edfdd21e8, 0x4b1a8a1924c92ade381a3d8a8b8a8b75),
    (238559, 0x1cebee301001d17d669b1a03391c, 0xa601f8a39dedce9b2756ee6cefdf48ce),
    (238560, 0xe75f7180800e8beb34d8d019c8e, 0x5300fc51cef6e74d93ab773677efa467),
    (81931, 0x140bf767c12683b107ad2dd3dcc3, 0x54c4ace955c305133789ff670021b10b),
    (28961, 0x1ae710ee74f3368ec2652256c7b1, 0xf155768e2a186759572927c98a80c2f5),
    (198561, 0x2eac7793a8d3ca0afe73b18dcd4, 0x5ace2af679d3addff35fc3590a5fdc1),
    (173939, 0x130899ac5d0061a4dba26aaed17d, 0x82684d14b32e868dea099c62e85e4205),
    (64337, 0x6320d9fd33aec2dd20a585321f6, 0xde548aa51e39d35ece3872e34c4fe4e3),
    (121271, 0x177e089a49b5476c212a77f04352, 0xa3cb4d686c2fc6826b297d17a705e38a),
    (121272, 0xbbf044d24daa3b610953bf821a9, 0x51e5a6b43617e3413594be8bd382f1c5),
    (159559, 0x1be7b6fc1e5ddec9309d25a7fe43, 0xda44a105c64aa304ac0f1d8c99939a23),
    (110475, 0xddaf3a5657d58a841024a9a44d1, 0xc010e62da11e75d4e4de9d13194cafc1),
    (180410, 0x1c345ae9e6d546bc081037f76ef1, 0x46068fbd10fe557874d1cfdbea1bbe07),
    (101457, 0x1fc11089f8b5dbcee4ab369b40a5, 0xb187a8cc06de67f10ef8fd7cdd47018f),
    (174390, 0x1f8c2d9efb41f4caee0db3a734e1, 0x2c4105dfa4b14622133a32167a56f03a),
    (174391, 0xfc616cf7da0fa657706d9d39a70, 0x962082efd258a311099d190b3d2b781d),
    (162616, 0x2e5947d3fbc7d887f4f2f071472, 0x9a047059fcbef59d2f86e2e19c4ae7bb),
    (175947, 0x21ff7710890a6d14ab4bd5bceaa, 0x7515c354dbe26c1f0e94d6b1523bc9e5),
    (120165, 0x19f709e8ed603e5a6acb175c3458, 0x85f8da11b9f562093ef155e99a8942e1),
    (136120, 0x8e6434e36a16251a973a167a509, 0x84fe7c6dffd893f3b0c1a493302f3dff),
    (249701, 0x1ab6fa69ff9984b963da573291ca, 0x6969db8b84d10151c99c2ad4ca7c82de),
    (249702, 0xd5b7d34ffccc25cb1ed2b9948e5, 0x34b4edc5c26880a8e4ce156a653e416f),
    (23449, 0x1151d80d9b3fa0c6a79cf96f105c, 0xabe94643398853e94568ed30d0e83b41),
    (98596, 0x133e9fbc3e2041700866de244f0e, 0xa104108a70ad519bc69946f8e1c15018),
    (98597, 0x99f4fde1f1020b804336f122787, 0x508208453856a8cde34ca37c70e0a80c),
    (98598, 0x4cfa7ef0f88105c0219b78913c3, 0xa84104229c2b5466f1a651be38705406),
    (98599, 0x267d3f787c4082e010cdbc489e1, 0xd42082114e15aa3378d328df1c382a03),
    (14818, 0x9b2266f91e5aba21edc5199bb0, 0xd74e8ed30d4fb1045db4880072285583),
    (60403, 0x131683618e04b0c325b1b69c5c98, 0xb747496acba3b84a9c18a979cbd1ead9),
    (167072, 0x1760fdcb6ab6ea0b8f0dff31ccb5, 0x11d1ef80a687a4ff61c6c8f53fac9b03),
    (166897, 0x165246cbf15e7f8308b140ea870e, 0xdf9ebc33ad14881189faed7236d81885),
    (212771, 0x1ffd4c0fb51b6db07e6afc9bbcc0, 0x849051bd043ea4c56efdabf19fef03ad),
    (259255, 0x1805eabb0a2b692f2f87c642bb9c, 0x24ca870611825eebe0478d14ed5188f7),
    (117713, 0xceeb6e77b095d42050167bc8286, 0x4b5f89d8e86fa0e4109733cd3694b805),
    (54235, 0x19079b72d4875bd59513397edfe5, 0x7f45f507eb4a68daf3e8a2a5da09c343),
    (189017, 0x19872fcc1d8a404d0c0a64cd0ebf, 0xba4dd0d1ee960ae117d407766330d23e),
    (189018, 0xcc397e60ec5202686053266875f, 0xdd26e868f74b05708bea03bb3198691f),
    (7031, 0x67713e080e72b0cc187992b5a42, 0xf39e3545980b27cbcd449f545a1cffbf),
    (194365, 0x15ebe6db2172b13e718e36e0d6de, 0x1c6c10995a3349cb009141ba8a49dec1),
    (75751, 0x1d3e7692d69d54078eba05d83116, 0xb57d0271c99a3909acbf07cc9874b13f),
    (254125, 0x1e21f5bf965a598e4c4853bb1088, 0xf81d7a9593874845afb6209b0e6e7955),
    (40487, 0x1e2d8d8a2c9af208dc801d7780dc, 0x66efdd765d28efbcb8887d1e2b91b204),
    (40488, 0xf16c6c5164d79046e400ebbc06e, 0x3377eebb2e9477de5c443e8f15c8d902),
    (40489, 0x78b63628b26bc823720075de037, 0x19bbf75d974a3bef2e221f478ae46c81),
    (101428, 0x17e358b4357674c65cab6fb57063, 0x8b8ff14e87d069a6a4cc136acc35d637),
    (81953, 0x53b8576c7ba2c317431ca341c37, 0x3f126a4795fd0d71bd1a841a6d8a7021),
    (228392, 0x100f1ba2a7729456df5204f468d2, 0xdfcc43ad2421de9e84fb4e9c1d56e943),
    (67756, 0x15fcbc21ffafa132ebaa4aca82f2, 0x678b2030340a9f48ed64b0bede069523),
    (233479, 0x1fd40505456d850c8b4546994d2a, 0xcc0d4883f1a6855b4f7b1332baab06c0),
    (233480, 0xfea0282a2b6c28645a2a34ca695, 0x6606a441f8d342ada7bd89995d558360),
    (233481, 0x7f50141515b614322d151a6534a, 0xb3035220fc69a156d3dec4ccaeaac1b0),
    (233482, 0x3fa80a0a8adb0a19168a8d329a5, 0x5981a9107e34d0ab69ef6266575560d8),
    (233483, 0x1fd40505456d850c8b4546994d2, 0xacc0d4883f1a6855b4f7b1332baab06c),
    (233484, 0xfea0282a2b6c28645a2a34ca69, 0x56606a441f8d342ada7bd89995d55836),
    (233485, 0x7f50141515b614322d151a6534, 0xab3035220fc69a156d3dec4ccaeaac1b),
    (212553, 0xaa72f57cb042d9ac14813577c02, 0xe4107b86850c29814ceb09528ddc7121),
    (7722, 0x18b733c9c7b09617cc51317070b4, 0x2019b8f14e8791673829d9ab01737600),
    (7723, 0xc5b99e4e3d84b0be62898b8385a, 0x100cdc78a743c8b39c14ecd580b9bb00),
    (7724, 0x62dccf271ec2585f3144c5c1c2d, 0x8066e3c53a1e459ce0a766ac05cdd80),
    (7725, 0x316e67938f612c2f98a262e0e16, 0x8403371e29d0f22ce7053b35602e6ec0),
    (7726, 0x18b733c9c7b09617cc51317070b, 0x42019b8f14e8791673829d9ab0173760),
    (7727, 0xc5b99e4e3d84b0be62898b8385, 0xa100cdc78a743c8b39c14ecd580b9bb0),
    (7728, 0x62dccf271ec2585f3144c5c1c2, 0xd08066e3c53a1e459ce0a766ac05cdd8),
    (7729, 0x316e67938f612c2f98a262e0e1, 0x68403371e29d0f22ce7053b35602e6ec),
    (7730, 0x18b733c9c7b09617cc51317070, 0xb42019b8f14e8791673829d9ab017376),
    (7731, 0xc5b99e4e3d84b0be62898b838, 0x5a100cdc78a743c8b39c14ecd580b9bb),
    (151118, 0x4c0f24953cc0d0b34c6b7e3b025, 0x1500681f9a3383c7971f8ee98596b335),
    (62447, 0x1933849843a3382d0286da2daf59, 0x181dcbbb9d65ad3072f0297d9f9fe7b0),
    (62448, 0xc99c24c21d19c1681436d16d7ac, 0x8c0ee5ddceb2d698397814becfcff3d8),
    (62449, 0x64ce12610e8ce0b40a1b68b6bd6, 0x460772eee7596b4c1cbc0a5f67e7f9ec),
    (62450, 0x326709308746705a050db45b5eb, 0x2303b97773acb5a60e5e052fb3f3fcf6),
    (62451, 0x1933849843a3382d0286da2daf5, 0x9181dcbbb9d65ad3072f0297d9f9fe7b),
    (45229, 0x76211464f00be96609ff1791db9, 0x81e827cd9312c2e5010446b2406f1a2b),
    (78961, 0x16392b373e02c7e45e5cf3a477b1, 0xeb8c94939aae0893491b1391e85df8aa),
    (78962, 0xb1c959b9f0163f22f2e79d23bd8, 0xf5c64a49cd570449a48d89c8f42efc55),
    (41726, 0x1e37b5cc357f00cd55c8456783d9, 0x8aca6113ed6ed258b08e36cdcc76d508),
    (41727, 0xf1bdae61abf8066aae422b3c1ec, 0xc5653089f6b7692c58471b66e63b6a84),
    (41728, 0x78ded730d5fc03355721159e0f6, 0x62b29844fb5bb4962c238db3731db542),
    (41729, 0x3c6f6b986afe019aab908acf07b, 0x31594c227dadda4b1611c6d9b98edaa1),
    (183305, 0x58a8158a83cc45c038a10c7edd, 0x7b86ceb3d29f1e968380511066428b87),
    (9997, 0x12c1e3a700b07c3611962047f2ce, 0xc4c6e7fb56aa0d88450d36ebaf988d1f),
    (204651, 0x19c2bc8753bef6dd19b6bb57974c, 0x4057d693cd2efbfe877a669d0e71f10b),
    (149573, 0x11b04713f5e7048b9c385a7527e2, 0x2da37cb11b5e10d041eeca3df1ca911),
    (109223, 0x1fb8d6445abbd8bf1d5c9fbe9b30, 0xf3f32e591a89500cd461d1b0f1ecdd8a),
    (109224, 0xfdc6b222d5dec5f8eae4fdf4d98, 0x79f9972c8d44a8066a30e8d878f66ec5),
    (46027, 0x1e255aaf3052d5baed044f5780f5, 0xd0b3feb16ff03200beb6a66ac5590741),
    (7941, 0x974ee2a4f1b8ae67847cfaa50de, 0x24f56d3b618177dccbaa0bf6a69218ef),
    (77540, 0xb32f6d391a8dd6066b06f31a2cc, 0x4597c5c7639abd58202efe9768f0f169),
    (50292, 0x9b1dc371a292ea6254ceb5db56f, 0xe26f9f7a5bfef4a61318a5221dc4d0e7),
    (107215, 0x5daed7dc4b250268a21d19381da, 0x83832f2d39cdb90ef62b6125c612ba15),
    (199597, 0x1188c223da51ac0e1f415234b563, 0x9b99b7117c1ce3bf7b38d9368c018c8b),
    (233794, 0x5d5b1873b9b5cbe1184fcfd5e9e, 0x15e8ff1dfcea1dcba22f3ee0ab7a1623),
    (19197, 0x10a0b2e8ec5b7b6a243eaa100225, 0xe4a946f21e257e7254cdd450e86f5843),
    (139322, 0x11c90ea5f74c0988c9a9275b6998, 0xa185210546f1039b45ede00df54945c1),
    (63724, 0x1beb32034b9e2580b5091290d3cc, 0xe264ca7b091510b35649a852d2037a88),
    (63725, 0xdf59901a5cf12c05a84894869e6, 0x7132653d848a8859ab24d4296901bd44),
    (63726, 0x6facc80d2e789602d4244a434f3, 0x3899329ec245442cd5926a14b480dea2),
    (63727, 0x37d66406973c4b016a122521a79, 0x9c4c994f6122a2166ac9350a5a406f51),
    (191767, 0x122811f60e51242408ba088818a7, 0x81d22206f7fc6a15a14e36b734207b5c),
    (191768, 0x91408fb07289212045d04440c53, 0xc0e911037bfe350ad0a71b5b9a103dae),
    (191769, 0x48a047d83944909022e82220629, 0xe0748881bdff1a8568538dadcd081ed7),
    (140246, 0x1f2b86846b01d4e82555d5c5417b, 0x3832eaae50ec5dd524b78a40a7dd936f),
    (110780, 0x182f186b79ba649e63e375df47d, 0x84321d21d0af36cd3510098d88a6a939),
    (102840, 0x11afaf1990e0ff6976c4b5a43d6a, 0x8b2090798007be5d001a7adfb18046a7),
    (92215, 0x160a3c27dd2a009da2111e3d3ec1, 0xc8553309c61bcd6ec9cf86c3b420c6c9),
    (118733, 0x148ef8146bae2e805c25ee2f2308, 0xa10c36d4c374b2e0a794ce7aabe45180),
    (118734, 0xa477c0a35d717402e12f7179184, 0x50861b6a61ba597053ca673d55f228c0),
    (118735, 0x523be051aeb8ba017097b8bc8c2, 0x28430db530dd2cb829e5339eaaf91460),
    (118736, 0x291df028d75c5d00b84bdc5e461, 0x142186da986e965c14f299cf557c8a30),
    (118737, 0x148ef8146bae2e805c25ee2f230, 0x8a10c36d4c374b2e0a794ce7aabe4518),
    (118738, 0xa477c0a35d717402e12f717918, 0x450861b6a61ba597053ca673d55f228c),
    (118739, 0x523be051aeb8ba017097b8bc8c, 0x228430db530dd2cb829e5339eaaf9146),
    (118740, 0x291df028d75c5d00b84bdc5e46, 0x1142186da986e965c14f299cf557c8a3),
    (135460, 0x142be745de6f6b6c3dc92b486a1a, 0x9c2f7e8ec3a9a1d62926a6bbbbd0c632),
    (135461, 0xa15f3a2ef37b5b61ee495a4350d, 0x4e17bf4761d4d0eb1493535ddde86319),
    (155123, 0x1fe4299f5b115897de392d41273b, 0x140be545240d474a12ec05b7eac568db),
    (258183, 0x9eaa8ef2bf1867bd07559ee680e, 0x94c7718ebbeaf0e9171a176e2fcb5941),
    (201230, 0x15d59f9e09c2cd1a9f2f230e8a5d, 0x96502458b7ba38d6d22b5943e9faa1d),
    (233847, 0x41b8695b988cec012a803e6dfd4, 0x6fb3597cfcf996331f02c7838abe1bdb),
    (24559, 0xc2c405748679c3ac983b2e23c84, 0x58c24fd6ec24b99aaa3c8dfe86143e4d),
    (98232, 0x1d0b943a9ad8ef914ef140bed5ee, 0x7d38b3284c03cee89e12bca2b4d8887c),
    (98233, 0xe85ca1d4d6c77c8a778a05f6af7, 0x3e9c59942601e7744f095e515a6c443e),
    (98234, 0x742e50ea6b63be453bc502fb57b, 0x9f4e2cca1300f3ba2784af28ad36221f),
    (226880, 0x1ea951e2cf31a77889111e7b8e53, 0x2ac7e3a4cc137843dc37403a2836018d),
    (238792, 0x1ca3a11e9338456b69c96354b401, 0xe8e28cf4de5fee1a2b3e4e058ffe5faf),
    (7222, 0x8c6ab073b786d27d277916c39be, 0x5b9cc322a0c165deee209f150ff767f7),
    (125384, 0xc107dfa83e0f2c8d8e4aa8d950, 0xd9833c4d086e08567fae799c01505bb3),
    (163477, 0x1f47495dee090bba7c0016cbcce8, 0x57b20d21ec8ca487e27d349c74f9bdb8),
    (163478, 0xfa3a4aef70485dd3e000b65e674, 0x2bd90690f6465243f13e9a4e3a7cdedc),
    (163479, 0x7d1d2577b8242ee9f0005b2f33a, 0x15ec83487b232921f89f4d271d3e6f6e),
    (163480, 0x3e8e92bbdc121774f8002d9799d, 0xaf641a43d919490fc4fa6938e9f37b7),
    (110307, 0x1f9c2601018b1a990292fbe85ab5, 0x62344802f384868a2ec8c62bdd0422a3),
    (55595, 0x14e7154e8579dd6af8fc755c13dc, 0xefbafaa707676209ecc00070e4d41663),
];

/// The hardest values for shortest decimal output.
pub fn shortest() -> Vec<B> {
    SHORTEST
        .iter()
        .map(|&(q, hi, lo)| gen::compose(false, (hi, lo), q).expect("in range"))
        .collect()
}

/// Values which, or whose distance half-way to a neighbour, lie closer than
/// 2^-248.5 to, but not on, an integral multiple of the power of ten that
/// leaves two or three digits more than necessary, i.e. where the products
/// with table entries of 501 bits have to be exact to their last bits. Found by
/// an exhaustive search over all exponents (continued fractions of
/// 2^(q-2)/10^g).
#[rustfmt::skip]
const SHORTEST: [(i64, u128, u128); 593] = [
    (110044, 0x1703951a7007667da780a971ea09, 0x7bf922ba0b50cba451bc98d15d5d4045),
    (110044, 0x1703951a7007667da780a971ea09, 0x7bf922ba0b50cba451bc98d15d5d4046),
    (-126481, 0x1f896263f9680c7b5dbb41b06c2b, 0xe4726a9a778381e1c14a7a02486eca54),
    (-126481, 0x1f896263f9680c7b5dbb41b06c2b, 0xe4726a9a778381e1c14a7a02486eca55),
    (47033, 0x198cb2aeda0b9924d1d64b22b741, 0x758522805bee961e271ee4e05306624b),
    (47033, 0x198cb2aeda0b9924d1d64b22b741, 0x758522805bee961e271ee4e05306624c),
    (30624, 0x1e09b20621c20e5ddc60859673ca, 0x52d3a996add97a38bab8bdc6f03dbe46),
    (111480, 0x164c53c55b159c31d478857ba919, 0x22518b18e6f20c0f7c8dbf9cbe477d92),
    (111483, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf6),
    (111483, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf7),
    (30625, 0x1687458499518ac665486430d6d7, 0xbe1ebf3102631baa8c0a8e55342e4eb4),
    (30625, 0x1687458499518ac665486430d6d7, 0xbe1ebf3102631baa8c0a8e55342e4eb5),
    (117443, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dacd),
    (117443, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dace),
    (256530, 0x1261085a6e616e924c5b6695b520, 0x36ebcd1c4246cd2bd31a8a8a2004d88d),
    (256530, 0x1261085a6e616e924c5b6695b520, 0x36ebcd1c4246cd2bd31a8a8a2004d88e),
    (30625, 0x1e09b20621c20e5ddc60859673ca, 0x52d3a996add97a38bab8bdc6f03dbe46),
    (5703, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396288),
    (5703, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396289),
    (30622, 0x1e09b20621c20e5ddc60859673ca, 0x52d3a996add97a38bab8bdc6f03dbe46),
    (111481, 0x164c53c55b159c31d478857ba919, 0x22518b18e6f20c0f7c8dbf9cbe477d92),
    (111484, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf6),
    (111484, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf7),
    (30626, 0x1687458499518ac665486430d6d7, 0xbe1ebf3102631baa8c0a8e55342e4eb4),
    (30626, 0x1687458499518ac665486430d6d7, 0xbe1ebf3102631baa8c0a8e55342e4eb5),
    (202807, 0x17ebe965df8c170f56f90f1515dc, 0xc49608a5f50deed82a485b8395487e84),
    (202810, 0x1de6e3bf576f1cd32cb752da5b53, 0xf5bb8acf72516a8e34da72647a9a9e25),
    (117444, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dacd),
    (117444, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dace),
    (256531, 0x1261085a6e616e924c5b6695b520, 0x36ebcd1c4246cd2bd31a8a8a2004d88d),
    (256531, 0x1261085a6e616e924c5b6695b520, 0x36ebcd1c4246cd2bd31a8a8a2004d88e),
    (30626, 0x1e09b20621c20e5ddc60859673ca, 0x52d3a996add97a38bab8bdc6f03dbe46),
    (-145595, 0x1b853d27bbda8c9b312f3d9fdcfd, 0x167fb4ef356653445c0f7bc0877fea81),
    (-145595, 0x1b853d27bbda8c9b312f3d9fdcfd, 0x167fb4ef356653445c0f7bc0877fea82),
    (74153, 0x1ff0053c43d46ac83b77785fe94d, 0x9a1e2d31e9cd0561a8637f2d618e4abc),
    (74157, 0x13f60345aa64c2bd252aab3bf1d0, 0x8052dc3f3220235d093e2f7c5cf8eeb5),
    (74157, 0x13f60345aa64c2bd252aab3bf1d0, 0x8052dc3f3220235d093e2f7c5cf8eeb6),
    (-225977, 0x1ef78491cc7b5ffe647925d1c8db, 0x11150476b452aca450b86232a63e915f),
    (-225977, 0x1ef78491cc7b5ffe647925d1c8db, 0x11150476b452aca450b86232a63e9160),
    (111482, 0x10b93ed4045035255f5a641cbed2, 0xd9bd2852ad35890b9d6a4fb58eb59e2d),
    (111482, 0x10b93ed4045035255f5a641cbed2, 0xd9bd2852ad35890b9d6a4fb58eb59e2e),
    (5704, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396288),
    (5704, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396289),
    (30623, 0x1e09b20621c20e5ddc60859673ca, 0x52d3a996add97a38bab8bdc6f03dbe46),
    (245757, 0x128ac4c8b6f453ddf5e273ee1397, 0x30335205465ba0c169aa1f4b5e6cf3ee),
    (245757, 0x128ac4c8b6f453ddf5e273ee1397, 0x30335205465ba0c169aa1f4b5e6cf3ef),
    (111482, 0x164c53c55b159c31d478857ba919, 0x22518b18e6f20c0f7c8dbf9cbe477d92),
    (111485, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf6),
    (111485, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf7),
    (80024, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eea9),
    (80024, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eeaa),
    (5701, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396288),
    (5701, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396289),
    (224471, 0x14e6e759a7ea08416524ccba8e89, 0x99cf428b456c369c9c88a604b43f2e37),
    (-233273, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9ba),
    (-233273, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9bb),
    (202808, 0x17ebe965df8c170f56f90f1515dc, 0xc49608a5f50deed82a485b8395487e84),
    (202811, 0x1de6e3bf576f1cd32cb752da5b53, 0xf5bb8acf72516a8e34da72647a9a9e25),
    (117445, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dacd),
    (117445, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dace),
    (32234, 0x16f3535d0d422a0939ea4ecda577, 0x27ecca8624d3a521a337bab4e490368b),
    (32234, 0x16f3535d0d422a0939ea4ecda577, 0x27ecca8624d3a521a337bab4e490368c),
    (-145210, 0x1c9898d277a268ca122295f9e761, 0x836ec81ffb658567e5256adb46aa7d1f),
    (111479, 0x164c53c55b159c31d478857ba919, 0x22518b18e6f20c0f7c8dbf9cbe477d92),
    (111482, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf6),
    (111482, 0x1bdf68b6b1db033e4996a6da935f, 0x6ae5eddf20ae8f135bb12f83edd95cf7),
    (200434, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df04),
    (200434, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df05),
    (47877, 0x1fc4e7fd5849550764af4bf83faa, 0xe4b0e8e5b83995eba9648b6744fde4f4),
    (47877, 0x1fc4e7fd5849550764af4bf83faa, 0xe4b0e8e5b83995eba9648b6744fde4f5),
    (-184448, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-47666, 0x1e05159c23a006b47fed5a544398, 0x593e542238da08606c60b459e28388a6),
    (-47666, 0x1e05159c23a006b47fed5a544398, 0x593e542238da08606c60b459e28388a7),
    (66186, 0x19ecb02577a7cf00be0cacc97822, 0xcf721c2afb687f1255662d02858bff38),
    (66186, 0x19ecb02577a7cf00be0cacc97822, 0xcf721c2afb687f1255662d02858bff39),
    (117442, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dacd),
    (117442, 0x15e4920a55f697b2d2ce5f731945, 0x67c700bd94e2c2d52152651a81d0dace),
    (-184448, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda55),
    (-184448, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda56),
    (74154, 0x1ff0053c43d46ac83b77785fe94d, 0x9a1e2d31e9cd0561a8637f2d618e4abc),
    (51406, 0x1923613493f14617af38ae7b81f5, 0x493fb92b9c21e39314914ddde4598358),
    (51409, 0x1f6c3981b8ed979d9b06da1a6272, 0x9b8fa776832a5c77d9b5a1555d6fe42e),
    (-225976, 0x1ef78491cc7b5ffe647925d1c8db, 0x11150476b452aca450b86232a63e915f),
    (-225976, 0x1ef78491cc7b5ffe647925d1c8db, 0x11150476b452aca450b86232a63e9160),
    (107245, 0x18f6cf91a2b3b7dc2ae0fd238328, 0xb60a3aa2104fccd5ac396954627e48e5),
    (-190244, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c14),
    (-190244, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c15),
    (-258424, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (-184451, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184448, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (202809, 0x11f0ef0c67a9114b813acb4fd065, 0x9370867c77ca73221fb644a2aff65ee3),
    (5705, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396288),
    (5705, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396289),
    (-184448, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee68),
    (-184448, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee69),
    (245758, 0x128ac4c8b6f453ddf5e273ee1397, 0x30335205465ba0c169aa1f4b5e6cf3ee),
    (245758, 0x128ac4c8b6f453ddf5e273ee1397, 0x30335205465ba0c169aa1f4b5e6cf3ef),
    (-121352, 0x14dc486377e130d1bcecb9fa9437, 0xec03ffc538dea73ab96e85b4e767ea7e),
    (-121352, 0x14dc486377e130d1bcecb9fa9437, 0xec03ffc538dea73ab96e85b4e767ea7f),
    (-8098, 0x1acbbdd844ee579cb98c94ba0953, 0xde4e046b8647b1e9424590b14f5ba9e5),
    (-8098, 0x1acbbdd844ee579cb98c94ba0953, 0xde4e046b8647b1e9424590b14f5ba9e6),
    (258425, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (200431, 0x137db9154c3c61486acdbeb21e51, 0x3f1d30a3472c291c6ace8ae549e30b9f),
    (-184448, 0x1a24db08ac2ddb0a901561944ca6, 0xe10c3d0c19a14e7642caeb09a73e7872),
    (-258427, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (-142093, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26365),
    (-142093, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26366),
    (-16030, 0x12ec4f34395481060f722f0294fe, 0xd58df638506e5d4e8c5503eaacb9e3d9),
    (-16030, 0x12ec4f34395481060f722f0294fe, 0xd58df638506e5d4e8c5503eaacb9e3da),
    (80025, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eea9),
    (80025, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eeaa),
    (5702, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396288),
    (5702, 0x16a3b6049a390176b63160bf9a67, 0x9ac89165c94117a75b3e3f79e9396289),
    (-116334, 0x11547a6db4055fd766ec87396f42, 0x1c3c4c95735db50c4dd5500f2884bd50),
    (-116334, 0x11547a6db4055fd766ec87396f42, 0x1c3c4c95735db50c4dd5500f2884bd51),
    (-184448, 0x1c5297f40fdc57f61c1729b5fdb4, 0xc9229777c66ebfaac85bd3f51fd9027b),
    (-184448, 0x1c5297f40fdc57f61c1729b5fdb4, 0xc9229777c66ebfaac85bd3f51fd9027c),
    (133914, 0x1221c8887bdb861b3b030c94dd25, 0x91eaedeae9bbeb0bf6d6c69f5eb1aa12),
    (133917, 0x16aa3aaa9ad267a209c3cfba146e, 0xf665a965a42ae5cef48c7847365e1496),
    (133917, 0x16aa3aaa9ad267a209c3cfba146e, 0xf665a965a42ae5cef48c7847365e1497),
    (-233272, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9ba),
    (-233272, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9bb),
    (-29446, 0x137c322062a5772aa79b96caa57d, 0x40ca46febcdec4a0ff222d8b2ecea710),
    (-29443, 0x185b3ea87b4ed4f551827c7d4edc, 0x90fcd8be6c1675c93eeab8edfa8250d4),
    (-29440, 0x1e720e529a228a32a5e31b9ca293, 0xb53c0eee071c133b8ea567297922e509),
    (-178728, 0x1dd3796b4cf1677ca1fd8e760a38, 0x850ad7dd20774139ffdf0b52a5f6c115),
    (-178728, 0x1dd3796b4cf1677ca1fd8e760a38, 0x850ad7dd20774139ffdf0b52a5f6c116),
    (202809, 0x17ebe965df8c170f56f90f1515dc, 0xc49608a5f50deed82a485b8395487e84),
    (202812, 0x1de6e3bf576f1cd32cb752da5b53, 0xf5bb8acf72516a8e34da72647a9a9e25),
    (-251547, 0x1921cf501f7f8d71d085f0fb60c8, 0x1f7d34380837d32b58054bcb5452bbdc),
    (-251547, 0x1921cf501f7f8d71d085f0fb60c8, 0x1f7d34380837d32b58054bcb5452bbdd),
    (74791, 0x10d70357551605254e3b8569fca3, 0x1472015b72efcf3c6ab663ac78e5d4d7),
    (74791, 0x10d70357551605254e3b8569fca3, 0x1472015b72efcf3c6ab663ac78e5d4d8),
    (-184448, 0x1e8054df738ad4e1a818f1d7aec2, 0xb138f1e3733c30df4decbce098738c85),
    (30345, 0x13636804edf3d8b722ed97c831a5, 0xdab2fdddf5f77c523b9166d939c78d1d),
    (-174430, 0x1885b95f56849c4cbe32cf87575a, 0xb077ea2f7df5f08b67ce121994ba9f6b),
    (258432, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (-184451, 0x1a24db08ac2ddb0a901561944ca6, 0xe10c3d0c19a14e7642caeb09a73e7872),
    (-142309, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ec),
    (-142309, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ed),
    (-258420, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (200431, 0x19fcf6c7105081b5e3bcfe42d316, 0xfed1962f099036d08e68b931b7d964d4),
    (200435, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df04),
    (200435, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df05),
    (-184447, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184444, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (260661, 0x176ab4c2cdf10bafa1c256c35d43, 0x933d64b8321c88ebf17109709c86f07e),
    (260664, 0x1d4561f3816d4e9b8a32ec743494, 0x780cbde63ea3ab26edcd4bccc3a8ac9d),
    (260664, 0x1d4561f3816d4e9b8a32ec743494, 0x780cbde63ea3ab26edcd4bccc3a8ac9e),
    (-47665, 0x1e05159c23a006b47fed5a544398, 0x593e542238da08606c60b459e28388a6),
    (-47665, 0x1e05159c23a006b47fed5a544398, 0x593e542238da08606c60b459e28388a7),
    (34058, 0x12c59ca262fcb383af6687fba110, 0x67062e54d28aeb7a04acc43a70d3b9b3),
    (-197030, 0x1b6743503422f42902de2a9618b8, 0xaef63ef6fdee9748aedc03d47f66e431),
    (-197030, 0x1b6743503422f42902de2a9618b8, 0xaef63ef6fdee9748aedc03d47f66e432),
    (164472, 0x1d1eaf14dbe9731b850694ec1ddd, 0x2babe21c128d3bcf2e20750e422d220e),
    (202809, 0x1de6e3bf576f1cd32cb752da5b53, 0xf5bb8acf72516a8e34da72647a9a9e25),
    (-3401, 0x19e238dd4e80f42f73505ddcee31, 0x56d92aa7d92eb80a09d3c81ec7e3ff6c),
    (-3397, 0x102d638a5110989da8123aaa14de, 0xd647baa8e7bd330646245d133cee7fa3),
    (-3397, 0x102d638a5110989da8123aaa14de, 0xd647baa8e7bd330646245d133cee7fa4),
    (66187, 0x19ecb02577a7cf00be0cacc97822, 0xcf721c2afb687f1255662d02858bff38),
    (66187, 0x19ecb02577a7cf00be0cacc97822, 0xcf721c2afb687f1255662d02858bff39),
    (-47631, 0x1cab8e4fbef1c912d0c5269ed1b7, 0x5fc2533a15c63b9c59e35e7087d9f330),
    (-47627, 0x11eb38f1d7571dabc27b38234312, 0x9bd974044d9be541b82e1b0654e837fe),
    (-47624, 0x1666072e4d2ce516b31a062c13d7, 0x42cfd1056102de922639a1c7ea2245fd),
    (-47624, 0x1666072e4d2ce516b31a062c13d7, 0x42cfd1056102de922639a1c7ea2245fe),
    (-19838, 0x19970116e1acf6f54d23b48e0e07, 0x7c797ccf9c6cc35f6f2b492feddc867e),
    (-19838, 0x19970116e1acf6f54d23b48e0e07, 0x7c797ccf9c6cc35f6f2b492feddc867f),
    (-1982, 0x195f5284f9610cf4b78cfd5d5927, 0x6d2f11dc8d122e80277c544f506e76b9),
    (-1982, 0x195f5284f9610cf4b78cfd5d5927, 0x6d2f11dc8d122e80277c544f506e76ba),
    (-184447, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda55),
    (-184447, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda56),
    (94503, 0x17c67d4feb57f7f26ecd08d700cc, 0xcc605c6a3fe9a3b41562d89675678fe4),
    (94503, 0x17c67d4feb57f7f26ecd08d700cc, 0xcc605c6a3fe9a3b41562d89675678fe5),
    (51407, 0x1923613493f14617af38ae7b81f5, 0x493fb92b9c21e39314914ddde4598358),
    (51410, 0x1f6c3981b8ed979d9b06da1a6272, 0x9b8fa776832a5c77d9b5a1555d6fe42e),
    (-85922, 0x151df0cad67fdc0519c7ff131a3d, 0x9b79e5d385807e1149c6752270e19715),
    (-85922, 0x151df0cad67fdc0519c7ff131a3d, 0x9b79e5d385807e1149c6752270e19716),
    (-165733, 0x1969e3862efecce17e32c39bc459, 0xe14e49c5fa7a398ca8ce755aaf1ced30),
    (-165730, 0x1fc45c67babe8019ddbf7482b570, 0x59a1dc377918c7efd30212b15ae4287c),
    (-165726, 0x13dab9c0d4b710102a97a8d1b166, 0x380529a2abaf7cf5e3e14baed8ce994d),
    (-165726, 0x13dab9c0d4b710102a97a8d1b166, 0x380529a2abaf7cf5e3e14baed8ce994e),
    (-250819, 0x1cff07b40b149221feb884354a43, 0x410847866554fa7fb1d57fed0db00d19),
    (-250819, 0x1cff07b40b149221feb884354a43, 0x410847866554fa7fb1d57fed0db00d1a),
    (258429, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (143953, 0x14e997529e334763ba747dcafab7, 0xca6323562a09ef34a1bccb70a0847bfc),
    (143956, 0x1a23fd2745c0193ca9119d3db965, 0xbcfbec2bb48c6b01ca2bfe4cc8a59afb),
    (107246, 0x18f6cf91a2b3b7dc2ae0fd238328, 0xb60a3aa2104fccd5ac396954627e48e5),
    (-60092, 0x1238e1f17a7d3a8c303fc22b142e, 0x3b4bcf4d42434e4625cf6465d98752fe),
    (-60092, 0x1238e1f17a7d3a8c303fc22b142e, 0x3b4bcf4d42434e4625cf6465d98752ff),
    (211576, 0x1106d97d9489f2013b58d6fbc819, 0x2b59e793630ec0643804dedf8f99a43f),
    (134587, 0x1c99dfafdc20ef3c67ee48a7b0e5, 0x63f384b5cac3c028f754b94b8210844a),
    (242650, 0x10c077a3d4ec23b470551c904168, 0x2f83a0a36685b2c5c38e345297c6d90c),
    (242650, 0x10c077a3d4ec23b470551c904168, 0x2f83a0a36685b2c5c38e345297c6d90d),
    (-190243, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c14),
    (-190243, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c15),
    (151450, 0x1bef62567eb1d08d45bcce6eae2f, 0xf34c34901016b14926feba07d448aa44),
    (151450, 0x1bef62567eb1d08d45bcce6eae2f, 0xf34c34901016b14926feba07d448aa45),
    (-258423, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (200428, 0x19fcf6c7105081b5e3bcfe42d316, 0xfed1962f099036d08e68b931b7d964d4),
    (200432, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df04),
    (200432, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df05),
    (-184450, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184447, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (-200958, 0x164901c4e36b148760ac970e0398, 0x770a2aaeec505c51a93f08b1f57ef2c1),
    (44653, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1c),
    (44653, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1d),
    (259270, 0x1c2e44b46e540f9a24a931bb25e5, 0x9f0e23e061a0f9ed30680d3f6396c25b),
    (28893, 0x12f9439295fa205e2f042045b0e1, 0x8e69d0c3b18f4c91d563aeb10c1400a1),
    (28893, 0x12f9439295fa205e2f042045b0e1, 0x8e69d0c3b18f4c91d563aeb10c1400a2),
    (-183866, 0x119c0bc75ca8a7749d4c35656c63, 0xd364df7cdf1f2c0c928b0bc21676246b),
    (-184447, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee68),
    (-184447, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee69),
    (-8097, 0x1acbbdd844ee579cb98c94ba0953, 0xde4e046b8647b1e9424590b14f5ba9e5),
    (-8097, 0x1acbbdd844ee579cb98c94ba0953, 0xde4e046b8647b1e9424590b14f5ba9e6),
    (258426, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (200432, 0x137db9154c3c61486acdbeb21e51, 0x3f1d30a3472c291c6ace8ae549e30b9f),
    (-255867, 0x1cc09281f22c4384726b57a4e071, 0x8b17f39463630edab7261bdb322d65d),
    (255495, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c32),
    (255495, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c33),
    (-145561, 0x1cae7b1cf9462ddc73c01b14261c, 0xf8d3e27b20fe8d539bee7800f004792d),
    (-145561, 0x1cae7b1cf9462ddc73c01b14261c, 0xf8d3e27b20fe8d539bee7800f004792e),
    (-184447, 0x1a24db08ac2ddb0a901561944ca6, 0xe10c3d0c19a14e7642caeb09a73e7872),
    (-190246, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c14),
    (-190246, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c15),
    (-105831, 0x16b850e9c70a74c46c7166aa846e, 0x481d885a0a71694d620b1dc9d926e3c2),
    (-124316, 0x145873e0e5c33fdbf825fddc922d, 0x905640d6a41729c06724ba9235dba1b9),
    (-258426, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (-142092, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26365),
    (-142092, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26366),
    (-184453, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184450, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (44650, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1c),
    (44650, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1d),
    (80026, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eea9),
    (80026, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eeaa),
    (-116333, 0x11547a6db4055fd766ec87396f42, 0x1c3c4c95735db50c4dd5500f2884bd50),
    (-116333, 0x11547a6db4055fd766ec87396f42, 0x1c3c4c95735db50c4dd5500f2884bd51),
    (-184447, 0x1c5297f40fdc57f61c1729b5fdb4, 0xc9229777c66ebfaac85bd3f51fd9027b),
    (-184447, 0x1c5297f40fdc57f61c1729b5fdb4, 0xc9229777c66ebfaac85bd3f51fd9027c),
    (133915, 0x1221c8887bdb861b3b030c94dd25, 0x91eaedeae9bbeb0bf6d6c69f5eb1aa12),
    (133918, 0x16aa3aaa9ad267a209c3cfba146e, 0xf665a965a42ae5cef48c7847365e1496),
    (133918, 0x16aa3aaa9ad267a209c3cfba146e, 0xf665a965a42ae5cef48c7847365e1497),
    (189352, 0x1c1bbeccdc83bd8b6e6dc5308034, 0xdc0bd711426bbc7c4f336929367078e4),
    (189352, 0x1c1bbeccdc83bd8b6e6dc5308034, 0xdc0bd711426bbc7c4f336929367078e5),
    (-233271, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9ba),
    (-233271, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9bb),
    (-29445, 0x137c322062a5772aa79b96caa57d, 0x40ca46febcdec4a0ff222d8b2ecea710),
    (-29442, 0x185b3ea87b4ed4f551827c7d4edc, 0x90fcd8be6c1675c93eeab8edfa8250d4),
    (-29439, 0x1e720e529a228a32a5e31b9ca293, 0xb53c0eee071c133b8ea567297922e509),
    (533, 0x14a9fd133b09ecf8a6b8af685c90, 0xb33834ab972f20470a128be02e5499a2),
    (536, 0x19d47c5809cc6836d066db4273b4, 0xe00641d67cfae858cc972ed839e9c00a),
    (536, 0x19d47c5809cc6836d066db4273b4, 0xe00641d67cfae858cc972ed839e9c00b),
    (-166228, 0x103105ba256cca18caea2a0436ad, 0x6711c6f7b251c28b3f407ce906892a84),
    (-166225, 0x143d4728aec7fc9efda4b4854458, 0xc0d638b59ee6332e0f109c23482b7525),
    (59540, 0x15e6d420172f84e6d8e09dc708f2, 0xf9e9bd295f1bd070c6ad3fafd0bdd89d),
    (-251546, 0x1921cf501f7f8d71d085f0fb60c8, 0x1f7d34380837d32b58054bcb5452bbdc),
    (-251546, 0x1921cf501f7f8d71d085f0fb60c8, 0x1f7d34380837d32b58054bcb5452bbdd),
    (51408, 0x12da88e76ef4f491c36a82dca177, 0xf6efcae0b5196aae4f6cfa666b432282),
    (51411, 0x17912b214ab231b634452393c9d5, 0xf4abbd98e25fc559e34839000613eb22),
    (51411, 0x17912b214ab231b634452393c9d5, 0xf4abbd98e25fc559e34839000613eb23),
    (-13120, 0x1adecadb2ae5ba791c98466cff90, 0x69b874b8b039c5c4673036bfc7b1b8c6),
    (-13120, 0x1adecadb2ae5ba791c98466cff90, 0x69b874b8b039c5c4673036bfc7b1b8c7),
    (200432, 0x16bd57ee2e46717f27455e7a78b4, 0x1ef76369285e2ff67c9ba20b80de3839),
    (200432, 0x16bd57ee2e46717f27455e7a78b4, 0x1ef76369285e2ff67c9ba20b80de383a),
    (-184447, 0x1e8054df738ad4e1a818f1d7aec2, 0xb138f1e3733c30df4decbce098738c85),
    (5997, 0x14bfbf576a65fe01b30b2a899302, 0x2e7df27763e047c5d8ec33669bd29b8f),
    (5997, 0x14bfbf576a65fe01b30b2a899302, 0x2e7df27763e047c5d8ec33669bd29b90),
    (219388, 0x15722cc723f5cec8cbf45895f897, 0x79daadf9e27673dc83c0dfad577f2681),
    (185916, 0x118e58d775958bbea9e482dc0ffc, 0x92c03d5ba36134345c69a510977f9503),
    (-183866, 0x177aba5f2636349b7c659c873b2f, 0xc4867f51297ee56618b96502c89d85e4),
    (-183863, 0x1d5968f6efc3c1c25b7f03a909fb, 0xb5a81f2573de9ebf9ee7be437ac4e75d),
    (85844, 0x10b7f613f92ea27c10454f61df69, 0x1163b7cbc8ca0daee8720e688319bc6),
    (85844, 0x10b7f613f92ea27c10454f61df69, 0x1163b7cbc8ca0daee8720e688319bc7),
    (-65985, 0x1168eb660477153c9bf94aa84a70, 0xce621e19a41c3ec6b57fbf0eb006de89),
    (30346, 0x13636804edf3d8b722ed97c831a5, 0xdab2fdddf5f77c523b9166d939c78d1d),
    (258423, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (-215083, 0x1b7955f88081a7becdc9f492456b, 0x1d1004424fe0f9acb0f2751d21c4d6bc),
    (-215083, 0x1b7955f88081a7becdc9f492456b, 0x1d1004424fe0f9acb0f2751d21c4d6bd),
    (37453, 0x1ee73e424b19ca0b806c62183c5c, 0xd05b18242746ccb0fb3071202ba43464),
    (255492, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c32),
    (255492, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c33),
    (212383, 0x121b8fd30513817bf7c50e0a3249, 0x895f7e9e08007b04abfcc9e14ba0fcd),
    (258433, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (-184450, 0x1a24db08ac2ddb0a901561944ca6, 0xe10c3d0c19a14e7642caeb09a73e7872),
    (-142308, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ec),
    (-142308, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ed),
    (-54281, 0x12d370587afe09e344f5c6f1e2d8, 0x12b018fcb1ca0f17d09952482dc68938),
    (-54281, 0x12d370587afe09e344f5c6f1e2d8, 0x12b018fcb1ca0f17d09952482dc68939),
    (-40941, 0x10533d0a3ac7d7a4a88a87fd2fc7, 0x4f52b04193eaf6a28f053e69f645988),
    (-40938, 0x14680c4cc979cd8dd2ad29fc7bb8, 0xc63275c51f8e5b44b32c68e0473d6fea),
    (-40935, 0x19820f5ffbd840f14758747b9aa6, 0xf7bf13366771f215dff78318590ccbe4),
    (-40935, 0x19820f5ffbd840f14758747b9aa6, 0xf7bf13366771f215dff78318590ccbe5),
    (-258429, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (-142095, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26365),
    (-142095, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26366),
    (91176, 0x11e7f29077c1b88e941543fa79f3, 0x74043ec8eecffbea5ad818c99279feb2),
    (91176, 0x11e7f29077c1b88e941543fa79f3, 0x74043ec8eecffbea5ad818c99279feb3),
    (-225817, 0x1fbcacae806f7fa37279a9aef73c, 0x300eee463c8cc7d1980db731dab0ccf8),
    (-225817, 0x1fbcacae806f7fa37279a9aef73c, 0x300eee463c8cc7d1980db731dab0ccf9),
    (-258419, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (200432, 0x19fcf6c7105081b5e3bcfe42d316, 0xfed1962f099036d08e68b931b7d964d4),
    (200436, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df04),
    (200436, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df05),
    (-219968, 0x14267655d3598b1c014b659f22c0, 0xde111a8e464e3f3c133157c1532d8158),
    (-219965, 0x193013eb482fede3019e3f06eb71, 0x15956131d7e1cf0b17fdadb1a7f8e1ae),
    (-219962, 0x1f7c18e61a3be95bc205cec8a64d, 0x5afab97e4dda42cdddfd191e11f71a19),
    (-219962, 0x1f7c18e61a3be95bc205cec8a64d, 0x5afab97e4dda42cdddfd191e11f71a1a),
    (80023, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eea9),
    (80023, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eeaa),
    (193911, 0x1e520345494e2371787a2023b30f, 0x438c0b2a840ba8a32da160edfa971d29),
    (193911, 0x1e520345494e2371787a2023b30f, 0x438c0b2a840ba8a32da160edfa971d2a),
    (-184446, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184443, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (260662, 0x176ab4c2cdf10bafa1c256c35d43, 0x933d64b8321c88ebf17109709c86f07e),
    (260665, 0x1d4561f3816d4e9b8a32ec743494, 0x780cbde63ea3ab26edcd4bccc3a8ac9d),
    (260665, 0x1d4561f3816d4e9b8a32ec743494, 0x780cbde63ea3ab26edcd4bccc3a8ac9e),
    (-97758, 0x10e62e92acc6b66a6f7779154d55, 0x6faef35708ee0bf56aafc7871220a85),
    (-97758, 0x10e62e92acc6b66a6f7779154d55, 0x6faef35708ee0bf56aafc7871220a86),
    (-233274, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9ba),
    (-233274, 0x1f59aa53369cd191cc9ad8375801, 0xdd29ca64f587d7a964047360a570d9bb),
    (-197029, 0x1b6743503422f42902de2a9618b8, 0xaef63ef6fdee9748aedc03d47f66e431),
    (-197029, 0x1b6743503422f42902de2a9618b8, 0xaef63ef6fdee9748aedc03d47f66e432),
    (115147, 0x12e352440f9ae04ff02baac5abf4, 0x95ea2ee61e98e7931c744abb479a254d),
    (115147, 0x12e352440f9ae04ff02baac5abf4, 0x95ea2ee61e98e7931c744abb479a254e),
    (164473, 0x1d1eaf14dbe9731b850694ec1ddd, 0x2babe21c128d3bcf2e20750e422d220e),
    (214029, 0x1c957a3c24dc77a17d7467eff165, 0x5f79e71da7b11c05c56c66e4b4c48a2a),
    (214029, 0x1c957a3c24dc77a17d7467eff165, 0x5f79e71da7b11c05c56c66e4b4c48a2b),
    (-3400, 0x19e238dd4e80f42f73505ddcee31, 0x56d92aa7d92eb80a09d3c81ec7e3ff6c),
    (193933, 0x18d976e1804a864e1e53452b17da, 0x5120c1ba59f6b91c4e1d7c7ccf7dd956),
    (-105099, 0x1a4c7eac5273fd06c669a4ec703d, 0xd2ddd6adfa54ed2ab81a66fd7721b908),
    (-105095, 0x106fcf2bb3887e243c020713c626, 0xa3caa62cbc75143ab310805e6a7513a5),
    (66188, 0x19ecb02577a7cf00be0cacc97822, 0xcf721c2afb687f1255662d02858bff38),
    (66188, 0x19ecb02577a7cf00be0cacc97822, 0xcf721c2afb687f1255662d02858bff39),
    (86532, 0x1c347a5d938028c1fca2d95e0713, 0x34c7e89d282dd375b86b2a7d97a8a8f),
    (-47630, 0x1cab8e4fbef1c912d0c5269ed1b7, 0x5fc2533a15c63b9c59e35e7087d9f330),
    (-47626, 0x11eb38f1d7571dabc27b38234312, 0x9bd974044d9be541b82e1b0654e837fe),
    (-47623, 0x1666072e4d2ce516b31a062c13d7, 0x42cfd1056102de922639a1c7ea2245fd),
    (-47623, 0x1666072e4d2ce516b31a062c13d7, 0x42cfd1056102de922639a1c7ea2245fe),
    (-184450, 0x1e8054df738ad4e1a818f1d7aec2, 0xb138f1e3733c30df4decbce098738c85),
    (-19837, 0x19970116e1acf6f54d23b48e0e07, 0x7c797ccf9c6cc35f6f2b492feddc867e),
    (-19837, 0x19970116e1acf6f54d23b48e0e07, 0x7c797ccf9c6cc35f6f2b492feddc867f),
    (200432, 0x1d3c959ff25a91eca0349e0b2d79, 0xdeabc8f4eac23daaa035d057eed4916e),
    (200432, 0x1d3c959ff25a91eca0349e0b2d79, 0xdeabc8f4eac23daaa035d057eed4916f),
    (-34678, 0x1961d040ee6d0112a85f1a1a3ee8, 0x5f2b316e5397dd08aab9d49dceaa6afe),
    (-34675, 0x1fba44512a0841575276e0a0cea2, 0x76f5fdc9e87dd44ad56849c5425505bd),
    (-34675, 0x1fba44512a0841575276e0a0cea2, 0x76f5fdc9e87dd44ad56849c5425505be),
    (29772, 0x122fda954b3649c377a249d8a00d, 0x8eafd4e1a0bc72d639c59dac47f3ee18),
    (29772, 0x122fda954b3649c377a249d8a00d, 0x8eafd4e1a0bc72d639c59dac47f3ee19),
    (-183869, 0x177aba5f2636349b7c659c873b2f, 0xc4867f51297ee56618b96502c89d85e4),
    (-183866, 0x1d5968f6efc3c1c25b7f03a909fb, 0xb5a81f2573de9ebf9ee7be437ac4e75d),
    (85841, 0x10b7f613f92ea27c10454f61df69, 0x1163b7cbc8ca0daee8720e688319bc6),
    (85841, 0x10b7f613f92ea27c10454f61df69, 0x1163b7cbc8ca0daee8720e688319bc7),
    (-184446, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda55),
    (-184446, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda56),
    (94504, 0x17c67d4feb57f7f26ecd08d700cc, 0xcc605c6a3fe9a3b41562d89675678fe4),
    (94504, 0x17c67d4feb57f7f26ecd08d700cc, 0xcc605c6a3fe9a3b41562d89675678fe5),
    (-106602, 0x1cab141d00499db1fc2dfb60f0d1, 0x5d78800a3698e2f5806c88c272f3700f),
    (51408, 0x1923613493f14617af38ae7b81f5, 0x493fb92b9c21e39314914ddde4598358),
    (51411, 0x1f6c3981b8ed979d9b06da1a6272, 0x9b8fa776832a5c77d9b5a1555d6fe42e),
    (-85921, 0x151df0cad67fdc0519c7ff131a3d, 0x9b79e5d385807e1149c6752270e19715),
    (-85921, 0x151df0cad67fdc0519c7ff131a3d, 0x9b79e5d385807e1149c6752270e19716),
    (-105830, 0x110a3caf5547d79351550cffe352, 0xb616264387d50efa0988565762dd2ad1),
    (-105830, 0x110a3caf5547d79351550cffe352, 0xb616264387d50efa0988565762dd2ad2),
    (-165729, 0x1fc45c67babe8019ddbf7482b570, 0x59a1dc377918c7efd30212b15ae4287c),
    (-250818, 0x1cff07b40b149221feb884354a43, 0x410847866554fa7fb1d57fed0db00d19),
    (-250818, 0x1cff07b40b149221feb884354a43, 0x410847866554fa7fb1d57fed0db00d1a),
    (258430, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (143954, 0x14e997529e334763ba747dcafab7, 0xca6323562a09ef34a1bccb70a0847bfc),
    (143957, 0x1a23fd2745c0193ca9119d3db965, 0xbcfbec2bb48c6b01ca2bfe4cc8a59afb),
    (107247, 0x18f6cf91a2b3b7dc2ae0fd238328, 0xb60a3aa2104fccd5ac396954627e48e5),
    (113826, 0x1fbe5a440a5d02ee01cbbdd5a054, 0x3866e0d94e08c36b9a3e6041120ef8df),
    (113826, 0x1fbe5a440a5d02ee01cbbdd5a054, 0x3866e0d94e08c36b9a3e6041120ef8e0),
    (255499, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c32),
    (255499, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c33),
    (96703, 0x17db805ee0f30e8d71b4fadeb738, 0xcde6a46e4c4de5189427d1df749893db),
    (96703, 0x17db805ee0f30e8d71b4fadeb738, 0xcde6a46e4c4de5189427d1df749893dc),
    (-142311, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ec),
    (-142311, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ed),
    (-54284, 0x12d370587afe09e344f5c6f1e2d8, 0x12b018fcb1ca0f17d09952482dc68938),
    (-54284, 0x12d370587afe09e344f5c6f1e2d8, 0x12b018fcb1ca0f17d09952482dc68939),
    (211577, 0x1106d97d9489f2013b58d6fbc819, 0x2b59e793630ec0643804dedf8f99a43f),
    (49785, 0x1ffd9d5f7677516b790176fc4fec, 0xc1f919b1dff251b55558c18bef4b5b5b),
    (49785, 0x1ffd9d5f7677516b790176fc4fec, 0xc1f919b1dff251b55558c18bef4b5b5c),
    (134588, 0x1c99dfafdc20ef3c67ee48a7b0e5, 0x63f384b5cac3c028f754b94b8210844a),
    (242651, 0x10c077a3d4ec23b470551c904168, 0x2f83a0a36685b2c5c38e345297c6d90c),
    (242651, 0x10c077a3d4ec23b470551c904168, 0x2f83a0a36685b2c5c38e345297c6d90d),
    (91173, 0x11e7f29077c1b88e941543fa79f3, 0x74043ec8eecffbea5ad818c99279feb2),
    (91173, 0x11e7f29077c1b88e941543fa79f3, 0x74043ec8eecffbea5ad818c99279feb3),
    (-190242, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c14),
    (-190242, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c15),
    (151451, 0x1bef62567eb1d08d45bcce6eae2f, 0xf34c34901016b14926feba07d448aa44),
    (151451, 0x1bef62567eb1d08d45bcce6eae2f, 0xf34c34901016b14926feba07d448aa45),
    (-258422, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (133915, 0x1b32acccb9c94928d88492df4bb8, 0x5ae064e05e99e091f24229ef0e0a7f1b),
    (200429, 0x19fcf6c7105081b5e3bcfe42d316, 0xfed1962f099036d08e68b931b7d964d4),
    (200433, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df04),
    (200433, 0x103e1a3c6a325111ae561ee9c3ee, 0x5f42fddd65fa2242590173bf12e7df05),
    (-29445, 0x1d3a4b3093f832bffb69622ff83b, 0xe12f6a7e1b4e26f17eb34450c635fa98),
    (-29441, 0x12446efe5c7b1fb7fd21dd5dfb25, 0x6cbda28ed110d856ef300ab27be1bc9f),
    (32873, 0x12fb6e374a805ed95ae0cc51b435, 0x6fe8c51f08f530f15cc090ed567cd97c),
    (32873, 0x12fb6e374a805ed95ae0cc51b435, 0x6fe8c51f08f530f15cc090ed567cd97d),
    (-184449, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184446, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (72821, 0x17cbddc28034c463a35ba4962807, 0x1a6215c687af17064c5051b82c5a9394),
    (72824, 0x1dbed5332041f57c8c328dbbb208, 0xe0fa9b38299adcc7df64662637713879),
    (4611, 0x19c7659d3e305f94d71fcbfd845c, 0x8614f3961a6817accf9bd084af92d977),
    (-200957, 0x164901c4e36b148760ac970e0398, 0x770a2aaeec505c51a93f08b1f57ef2c1),
    (44654, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1c),
    (44654, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1d),
    (54261, 0x19e92fe14989448ef7111fec12bc, 0x1c7ac90cea0e85c1c795d8088ccb0fc9),
    (54261, 0x19e92fe14989448ef7111fec12bc, 0x1c7ac90cea0e85c1c795d8088ccb0fca),
    (61465, 0x1695dac477829241e1cf6fc5c0c4, 0x423cb4d8339d3cbfa9a50e088e0dd35c),
    (61465, 0x1695dac477829241e1cf6fc5c0c4, 0x423cb4d8339d3cbfa9a50e088e0dd35d),
    (72367, 0x12dd1cc908a1d05c07102c8f4c9c, 0x671cebc33c0af19c5f5dfa3eb8a6069b),
    (-130358, 0x131da26adfd247b340e1a3b802cd, 0x83e19fc5a28421260ba2f9198f135b90),
    (-130355, 0x17e50b0597c6d9a0111a0ca60380, 0xe4da07b70b25296f8e8bb75ff2d83274),
    (-130352, 0x1dde4dc6fdb8900815608fcf8461, 0x1e1089a4cdee73cb722ea537ef8e3f11),
    (259271, 0x1c2e44b46e540f9a24a931bb25e5, 0x9f0e23e061a0f9ed30680d3f6396c25b),
    (28894, 0x12f9439295fa205e2f042045b0e1, 0x8e69d0c3b18f4c91d563aeb10c1400a1),
    (28894, 0x12f9439295fa205e2f042045b0e1, 0x8e69d0c3b18f4c91d563aeb10c1400a2),
    (-211518, 0x11def34a53f8722f39d9243a87bd, 0xe14bc9cd1b3abbe7befa9c84d673728e),
    (-211518, 0x11def34a53f8722f39d9243a87bd, 0xe14bc9cd1b3abbe7befa9c84d673728f),
    (132554, 0x1375e01f3751e12cd40963b2a8fb, 0xcbbbc6a3e444ba951bdbdcbb6a181aa5),
    (132554, 0x1375e01f3751e12cd40963b2a8fb, 0xcbbbc6a3e444ba951bdbdcbb6a181aa6),
    (-103510, 0x1ab275ff7f9dc8431dea3fe2cff7, 0x3fe77f4b88b07ce5b4db60419659c37e),
    (-202440, 0x1a1cb05178158110c99078ba0ecb, 0xa0de0e612aa394f044f7f5e6a0025d88),
    (-183865, 0x119c0bc75ca8a7749d4c35656c63, 0xd364df7cdf1f2c0c928b0bc21676246b),
    (30346, 0x1d151c0764edc512b46463ac4a78, 0xc80c7cccf0f33a7b595a1a45d6ab53ab),
    (30346, 0x1d151c0764edc512b46463ac4a78, 0xc80c7cccf0f33a7b595a1a45d6ab53ac),
    (-130302, 0x11395f5b1d2220dfd3b2b5b5cb3b, 0x857c1a4315b78de646adc5d9d6b7f536),
    (-130299, 0x1587b731e46aa917c89f63233e0a, 0x66db20d3db25715fd85937504c65f283),
    (-130299, 0x1587b731e46aa917c89f63233e0a, 0x66db20d3db25715fd85937504c65f284),
    (-184446, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee68),
    (-184446, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee69),
    (55432, 0x1bd4c6ed02cb8c12b9137a76c509, 0x4f05b4ed6b1b18741dbe217367e843a3),
    (-101718, 0x14b0722780a3094ca8a5c5feb4a1, 0x5cf1a6845c6f0f2011475b610be6c2f),
    (-184449, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda55),
    (-184449, 0x139ba44681226447ec10092f397d, 0x28c92dc91338fad8b21830473d6eda56),
    (63917, 0x13df08608af7cc00717f16137d13, 0xe2013673b9565af2000718a816a3d6cf),
    (51405, 0x1923613493f14617af38ae7b81f5, 0x493fb92b9c21e39314914ddde4598358),
    (51408, 0x1f6c3981b8ed979d9b06da1a6272, 0x9b8fa776832a5c77d9b5a1555d6fe42e),
    (54503, 0x148e54567816154e9f04b9cfaabf, 0x22372392cf9e86af21fad4a5801853f6),
    (54506, 0x19b1e96c161b9aa246c5e843956e, 0xeac4ec778386285aea7989cee01e68f3),
    (54506, 0x19b1e96c161b9aa246c5e843956e, 0xeac4ec778386285aea7989cee01e68f4),
    (258427, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (200433, 0x137db9154c3c61486acdbeb21e51, 0x3f1d30a3472c291c6ace8ae549e30b9f),
    (-150407, 0x105a82ec31aed8dc861c2ac49348, 0x4fc672149575a430d40241b988ff2834),
    (-150407, 0x105a82ec31aed8dc861c2ac49348, 0x4fc672149575a430d40241b988ff2835),
    (255496, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c32),
    (255496, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c33),
    (-145560, 0x1cae7b1cf9462ddc73c01b14261c, 0xf8d3e27b20fe8d539bee7800f004792d),
    (-145560, 0x1cae7b1cf9462ddc73c01b14261c, 0xf8d3e27b20fe8d539bee7800f004792e),
    (212387, 0x121b8fd30513817bf7c50e0a3249, 0x895f7e9e08007b04abfcc9e14ba0fcd),
    (-211917, 0x18147ee8eee807aace3c529bea4e, 0x3270e4d3b1ab6a6b6bbb4abbff7a5bcf),
    (-184446, 0x1a24db08ac2ddb0a901561944ca6, 0xe10c3d0c19a14e7642caeb09a73e7872),
    (-224832, 0x119123be89a5a50930a9af8e43f5, 0xa87336dcbf8916e7222b497f8cdbba1e),
    (-224832, 0x119123be89a5a50930a9af8e43f5, 0xa87336dcbf8916e7222b497f8cdbba1f),
    (-190245, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c14),
    (-190245, 0x14d910482d1db0d9e99e4d8cf47e, 0xe366d3fb5bb9d500d5cb399406ca4c15),
    (260663, 0x119007921a74c8c3b951c11285f2, 0xae6e0b8a259566b0f514c7147565345e),
    (260663, 0x119007921a74c8c3b951c11285f2, 0xae6e0b8a259566b0f514c7147565345f),
    (-105830, 0x16b850e9c70a74c46c7166aa846e, 0x481d885a0a71694d620b1dc9d926e3c2),
    (-105827, 0x1c66652438cd11f5878dc0552589, 0xda24ea708d0dc3a0ba8de53c4f709cb2),
    (-105827, 0x1c66652438cd11f5878dc0552589, 0xda24ea708d0dc3a0ba8de53c4f709cb3),
    (-124315, 0x145873e0e5c33fdbf825fddc922d, 0x905640d6a41729c06724ba9235dba1b9),
    (-258425, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (-142091, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26365),
    (-142091, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26366),
    (-81674, 0x1662c36c5d206b2b0f1af16db6b8, 0x70e7a19c372bc1a38f30c60a909d0f89),
    (-81674, 0x1662c36c5d206b2b0f1af16db6b8, 0x70e7a19c372bc1a38f30c60a909d0f8a),
    (-196202, 0x19eb56b3e0bcce21976a1a9fab98, 0x7f686d356886502349fd162bdadfc09e),
    (-196202, 0x19eb56b3e0bcce21976a1a9fab98, 0x7f686d356886502349fd162bdadfc09f),
    (-184452, 0x116de75b1d73e75c600e410d886f, 0x40b2d35d666b89a42c87475bc4d4504c),
    (-184449, 0x15c96131e4d0e1337811d150ea8b, 0x10df8834c0066c0d37a91932b609645f),
    (-47262, 0x1dcbea6844d9e647ca7a9bc9d0db, 0x638d0ef5e61bd9b755be5caa835c8eba),
    (-183865, 0x148b6313416f6e080cd8e8f653c9, 0xcbf5af67044f08b955a238626f89d527),
    (-183865, 0x148b6313416f6e080cd8e8f653c9, 0xcbf5af67044f08b955a238626f89d528),
    (44651, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1c),
    (44651, 0x129d834098bf76f9c87b17483ab8, 0x47eee4e020df73c2fb17cf02e7ff6a1d),
    (-85877, 0x1d07e126a094b13d6e6475c1c570, 0x8a81d008ef5d119470c928c476ad58c3),
    (80027, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eea9),
    (80027, 0x17dc2951bdbf99c1a866513afcbb, 0x8091929bfe9c5337ba13e8e8a7d1eeaa),
    (-171788, 0x11082e63e20b3f02556dd5b0d8af, 0xf278a65256476673fd078cad119f6ebd),
    (-116332, 0x11547a6db4055fd766ec87396f42, 0x1c3c4c95735db50c4dd5500f2884bd50),
    (-116332, 0x11547a6db4055fd766ec87396f42, 0x1c3c4c95735db50c4dd5500f2884bd51),
    (-32847, 0x181c4fee28eabcbb3ce46f720883, 0x4fbf8b7d96871602ced16e0a55b0b1c),
    (-32847, 0x181c4fee28eabcbb3ce46f720883, 0x4fbf8b7d96871602ced16e0a55b0b1d),
    (-184446, 0x1c5297f40fdc57f61c1729b5fdb4, 0xc9229777c66ebfaac85bd3f51fd9027b),
    (-184446, 0x1c5297f40fdc57f61c1729b5fdb4, 0xc9229777c66ebfaac85bd3f51fd9027c),
    (-47629, 0x1580aabbcf3556ce1c93dcf71d49, 0x87d1be6b9054acb5436a86d465e37664),
    (-47626, 0x1ae0d56ac302ac81a3b8d434e49b, 0xe9c62e067469d7e2944528897f5c53fd),
    (-110886, 0x10796bc387dfc431df4b63787a2a, 0xfbc327b609e18b16bd88c274ed105599),
    (189353, 0x1c1bbeccdc83bd8b6e6dc5308034, 0xdc0bd711426bbc7c4f336929367078e4),
    (189353, 0x1c1bbeccdc83bd8b6e6dc5308034, 0xdc0bd711426bbc7c4f336929367078e5),
    (-29444, 0x137c322062a5772aa79b96caa57d, 0x40ca46febcdec4a0ff222d8b2ecea710),
    (-29441, 0x185b3ea87b4ed4f551827c7d4edc, 0x90fcd8be6c1675c93eeab8edfa8250d4),
    (-29438, 0x1e720e529a228a32a5e31b9ca293, 0xb53c0eee071c133b8ea567297922e509),
    (32873, 0x194f3d9f0e007e7723d665c2459c, 0x95365c296146ebec7bab6be71dfbcca6),
    (32876, 0x1fa30d06d1809e14eccbff32d703, 0xba83f333b998a6e79a9646e0e57abfcf),
    (32876, 0x1fa30d06d1809e14eccbff32d703, 0xba83f333b998a6e79a9646e0e57abfd0),
    (64567, 0x144b90a6ac5b0ae291a1f05c5e92, 0x89b3b5390851c8389b8b033c52bbc372),
    (107816, 0x1b39cfad35ea79f92eaacd139d73, 0x18d88ac08ad1914bea3a4158dcc53389),
    (107816, 0x1b39cfad35ea79f92eaacd139d73, 0x18d88ac08ad1914bea3a4158dcc5338a),
    (179168, 0x14e9711f7bf2040b2cbc1d400323, 0x1298871313d1eaf267222b96c7e8a19f),
    (179168, 0x14e9711f7bf2040b2cbc1d400323, 0x1298871313d1eaf267222b96c7e8a1a0),
    (129724, 0x1e06fe329dbadf9ebfdb746072b7, 0xe452c69bd34fd46c10949bb935ffc05f),
    (129724, 0x1e06fe329dbadf9ebfdb746072b7, 0xe452c69bd34fd46c10949bb935ffc060),
    (-79621, 0x1681b4156f1a282099369d955f24, 0x72b614fc42714939967e88ebaa5962f8),
    (-79621, 0x1681b4156f1a282099369d955f24, 0x72b614fc42714939967e88ebaa5962f9),
    (127080, 0x136271e8fc54d3f3cab64f69f193, 0x202acb5ac5e4d8febf9cce7658190851),
    (127080, 0x136271e8fc54d3f3cab64f69f193, 0x202acb5ac5e4d8febf9cce7658190852),
    (-146317, 0x11bf88e41a6108e417fbd9a73c8d, 0x2c3c14a7ed9f14b9599fddb664b5bec7),
    (-166224, 0x143d4728aec7fc9efda4b4854458, 0xc0d638b59ee6332e0f109c23482b7525),
    (-251545, 0x1921cf501f7f8d71d085f0fb60c8, 0x1f7d34380837d32b58054bcb5452bbdc),
    (-251545, 0x1921cf501f7f8d71d085f0fb60c8, 0x1f7d34380837d32b58054bcb5452bbdd),
    (-32449, 0x1ca02ccb3526a6602fd140f7d173, 0x26fbbd9ce8fb7868335aa67e443330f9),
    (249769, 0x1fa195485ecdb3f2fbf2aea52573, 0x48d7dc769ce94f553985b33cca24f09b),
    (51412, 0x17912b214ab231b634452393c9d5, 0xf4abbd98e25fc559e34839000613eb22),
    (51412, 0x17912b214ab231b634452393c9d5, 0xf4abbd98e25fc559e34839000613eb23),
    (-184449, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee68),
    (-184449, 0x17f71e1d487f5e1f041399729b98, 0xf8f5e2a06cd3dd41bd3a021e2ea3ee69),
    (200433, 0x16bd57ee2e46717f27455e7a78b4, 0x1ef76369285e2ff67c9ba20b80de3839),
    (200433, 0x16bd57ee2e46717f27455e7a78b4, 0x1ef76369285e2ff67c9ba20b80de383a),
    (128953, 0x12cbdbb04c3d7a8fe0d6b7c52378, 0x6e40a73e4d9acac4f25d1dbcc24f1e3f),
    (128953, 0x12cbdbb04c3d7a8fe0d6b7c52378, 0x6e40a73e4d9acac4f25d1dbcc24f1e40),
    (-101721, 0x14b0722780a3094ca8a5c5feb4a1, 0x5cf1a6845c6f0f2011475b610be6c2f),
    (9131, 0x1e13309010c5812ecb6dda074123, 0x5ec388f4409398a407f8d876f5b7fc3c),
    (9135, 0x12cbfe5a0a7b70bd3f24a84488b6, 0x1b3a3598a85c3f6684fb874a5992fda5),
    (9135, 0x12cbfe5a0a7b70bd3f24a84488b6, 0x1b3a3598a85c3f6684fb874a5992fda6),
    (-81380, 0x1185192672d134f47c7cf01697ce, 0xc71782947ebd47d6a6a9cceb16665ffd),
    (-81380, 0x1185192672d134f47c7cf01697ce, 0xc71782947ebd47d6a6a9cceb16665ffe),
    (197278, 0x1127305daa3d060744be4f65fb67, 0x16adbbe397df5a350f0b5b1d242f5ac),
    (197278, 0x1127305daa3d060744be4f65fb67, 0x16adbbe397df5a350f0b5b1d242f5ad),
    (-184446, 0x1e8054df738ad4e1a818f1d7aec2, 0xb138f1e3733c30df4decbce098738c85),
    (5998, 0x14bfbf576a65fe01b30b2a899302, 0x2e7df27763e047c5d8ec33669bd29b8f),
    (5998, 0x14bfbf576a65fe01b30b2a899302, 0x2e7df27763e047c5d8ec33669bd29b90),
    (143954, 0x1f5e62fbed4ceb1597aebcb07813, 0xaf94b5013f0ee6cef29b3128f0c6b9fa),
    (215687, 0x1fc922e199b35ad875a3e8af1762, 0xe839b5f8692e2fd5a159c4ddf40062b5),
    (215687, 0x1fc922e199b35ad875a3e8af1762, 0xe839b5f8692e2fd5a159c4ddf40062b6),
    (185917, 0x118e58d775958bbea9e482dc0ffc, 0x92c03d5ba36134345c69a510977f9503),
    (1145, 0x133186c04cb1c0ae58dac91bac71, 0xe5a0b38c6fe1e400ae9f4703a8919806),
    (-183865, 0x177aba5f2636349b7c659c873b2f, 0xc4867f51297ee56618b96502c89d85e4),
    (-183862, 0x1d5968f6efc3c1c25b7f03a909fb, 0xb5a81f2573de9ebf9ee7be437ac4e75d),
    (85845, 0x10b7f613f92ea27c10454f61df69, 0x1163b7cbc8ca0daee8720e688319bc6),
    (85845, 0x10b7f613f92ea27c10454f61df69, 0x1163b7cbc8ca0daee8720e688319bc7),
    (211577, 0x198a463c5eceeb01d9054279ac25, 0xc106db5d1496209654074e4f5766765e),
    (211577, 0x198a463c5eceeb01d9054279ac25, 0xc106db5d1496209654074e4f5766765f),
    (32037, 0x15ff702e35aa25044e23ba0536fb, 0x149086f881d0948040940ddb7f46ca04),
    (32040, 0x1b7f4c39c314ae4561aca88684b9, 0xd9b4a8b6a244b9a050b911525f187c85),
    (134589, 0x157367c3e518b36d4df2b67dc4ac, 0xaf6a3885812d01eb97f8af8a18c6337),
    (134589, 0x157367c3e518b36d4df2b67dc4ac, 0xaf6a3885812d01eb97f8af8a18c6338),
    (30347, 0x13636804edf3d8b722ed97c831a5, 0xdab2fdddf5f77c523b9166d939c78d1d),
    (219889, 0x16c5e5428e2a0c268d0da015155e, 0x93db2880951c051fa1f5279970a49e01),
    (219889, 0x16c5e5428e2a0c268d0da015155e, 0x93db2880951c051fa1f5279970a49e02),
    (-62276, 0x1a422079ac89c342db1a3054d4c0, 0x9614a6872f0ae58710aeff8c86e8c0fa),
    (54745, 0x139535b9f5143c6c791d343875f4, 0xed7a7fff6ec70ef83b511a616e43d230),
    (54745, 0x139535b9f5143c6c791d343875f4, 0xed7a7fff6ec70ef83b511a616e43d231),
    (258424, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (40095, 0x130b13c8ff1f1f1189660557e2bd, 0xcdc15571e4902b75f64226cc8b92a76),
    (40098, 0x17cdd8bb3ee6e6d5ebbf86addb6c, 0x50131aace5db4365373d2b07fae77513),
    (40098, 0x17cdd8bb3ee6e6d5ebbf86addb6c, 0x50131aace5db4365373d2b07fae77514),
    (200430, 0x137db9154c3c61486acdbeb21e51, 0x3f1d30a3472c291c6ace8ae549e30b9f),
    (255493, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c32),
    (255493, 0x1dd3da86b23122eab09cecc90270, 0x6d22e616eec3ac5579c9b2ed82372c33),
    (212384, 0x121b8fd30513817bf7c50e0a3249, 0x895f7e9e08007b04abfcc9e14ba0fcd),
    (258434, 0x17de06c7002f22b1dc7026966c01, 0x32895f1801930b6e3583c97890880bd1),
    (254485, 0x1dd18c5b4593b57ed3fe4153f6bf, 0x5e6ff149bf35c51d971f2a691881da87),
    (254485, 0x1dd18c5b4593b57ed3fe4153f6bf, 0x5e6ff149bf35c51d971f2a691881da88),
    (-184449, 0x1a24db08ac2ddb0a901561944ca6, 0xe10c3d0c19a14e7642caeb09a73e7872),
    (-142307, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ec),
    (-142307, 0x1465fbb418d556f4e4e0617a87dd, 0xa5cd83cb0bba2c90b8a1e283207120ed),
    (-54280, 0x12d370587afe09e344f5c6f1e2d8, 0x12b018fcb1ca0f17d09952482dc68938),
    (-54280, 0x12d370587afe09e344f5c6f1e2d8, 0x12b018fcb1ca0f17d09952482dc68939),
    (-53919, 0x192fc707baa39c2ae2e9aa5540e4, 0x318bca18741c54659c291ae699460ca3),
    (-53919, 0x192fc707baa39c2ae2e9aa5540e4, 0x318bca18741c54659c291ae699460ca4),
    (-105833, 0x16b850e9c70a74c46c7166aa846e, 0x481d885a0a71694d620b1dc9d926e3c2),
    (-105830, 0x1c66652438cd11f5878dc0552589, 0xda24ea708d0dc3a0ba8de53c4f709cb2),
    (-105830, 0x1c66652438cd11f5878dc0552589, 0xda24ea708d0dc3a0ba8de53c4f709cb3),
    (230062, 0x10adc1e6f155eec6d2fcb638f34f, 0x19fdd8159c29132dcbe7658e99123c8f),
    (230062, 0x10adc1e6f155eec6d2fcb638f34f, 0x19fdd8159c29132dcbe7658e99123c90),
    (114453, 0x123446d5aff54a04475bc44bea1d, 0xcde93b023af32a7585db7023758e9806),
    (114453, 0x123446d5aff54a04475bc44bea1d, 0xcde93b023af32a7585db7023758e9807),
    (121113, 0x1c76eb798552faccfacaa4495cbb, 0xb21bfa06e5ac857ce9c1eac785f5092f),
    (121113, 0x1c76eb798552faccfacaa4495cbb, 0xb21bfa06e5ac857ce9c1eac785f50930),
    (-258428, 0x16abaafa898b0d8b0ac4519e6a9b, 0xcc120d076841e621c49cbbc38500edc7),
    (-142094, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26365),
    (-142094, 0x1c3df26e4db636d4dadb82c5705d, 0xf752d49ba4a1aa6a75fd53a2e2b26366),
    (91177, 0x11e7f29077c1b88e941543fa79f3, 0x74043ec8eecffbea5ad818c99279feb2),
    (91177, 0x11e7f29077c1b88e941543fa79f3, 0x74043ec8eecffbea5ad818c99279feb3),
    (239375, 0x135d84ff6dd0b81e49d34be9c54f, 0x3f4d577f371e5c786b46be0d4871ac33),
    (73332, 0x1e46caf127e6a7a9e8b344df6336, 0x4cdf58d36e22edb3707e328b79effbaa),
    (-81677, 0x1662c36c5d206b2b0f1af16db6b8, 0x70e7a19c372bc1a38f30c60a909d0f89),
    (-81677, 0x1662c36c5d206b2b0f1af16db6b8, 0x70e7a19c372bc1a38f30c60a909d0f8a),
];
