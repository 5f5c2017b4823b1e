pub const RSA_N: &str = "bf23f530bf9c41f53931df0e1aeecfba5b4319cc86dfde8f6cfcde82d2b29bcd620583728df9f6acbed029df8aebc3ba118fb5ad548e905cd3272ab5be40eee5491fc16a1599db349de60889fc0d1e13d3253b75d518f3db0d1b8d8dfaaac6394dcbfdcb9bc4247e7bb0c9de83ba743f47db172a05dfeb8b76c50eacf4ab57f7b121d545adeeab4f4b9e38b9cc8eed0def8d4a4034e4137f93fe6659537f7b564a33cf84ca3c17a04e24b4100b2a01532bed2de8ba0c07aa228735fd4a3a629bd235050930d987b48ea55c319510220d05153a9edb83a25bc419eb196a41698819cf981a2972b96f3c39a8a8b8799730f407976cd1ff1663cf1e13041aef8b0d";
pub const RSA_D: &str = "2ca5cd15cc844701ed90c12e2dcb5fd9838cda7f6477f1a86608713f74d104c4c6634c4f9b6b6a9bf25c749383834bee7040b5eadd88099fad3106707a96f756b6ac84c4ef73c778f47331c66d8a70dea7a118510f6c6b35dd4b74d6d7d941414c735c7ecd8d550af88094bef5dd3d5f34bd301d804ecc5a00edc9de4baea476cf25b6fa0e2dc7acc3698e5146eac375ba0586f1f1048f0116a5e42548cff00fa963dc0512f599a850c269673c60a9fbc3fafa01e6ab95a807bc67179ed3f201ec1ec39d1836aa6779a714ad648ff4cf51617be21604b144c1a34f03d6454aadc290155e0d0626ae7cb14df4af7fa4d4fc89d6516a8f87232388e3b003b6289f";
pub const RSA_P: &str = "ec8f29a2447848b588d6614d4e00b12ba3b880658764d666df76adee73460f69b998dc12c1062485a9d85be8033d553409b2207768ca0c67a02beabf8c09afe403cd3917bb4682e630a2f968a652919b0ee4c99e49d0f90f64036467b8e93a8453c7507ef3e6e4407a3e5f4e7be14dbf575668683e9abc9a0c399e4618868493";
pub const RSA_Q: &str = "ced9414b3f41cb6b02d0a465ad09280d0c56ceee1a0f9f54edf91cc262fbe8bb88dcbf8178ae7c32ceba75fa995492b224d5dae6750b6d2c540b4b9343ab856062d331cb9e5d7431a40b0f38c975ace2cdb2cc90ff26e34d5039b32a715e96dcb040ebb89157a118eda5ec3fb2cf8ccd0105eb8ffec7297d76003424d6d615df";
pub const RSA_DP: &str = "e3b5674140a17c73ea555a725c6c841edac92627152e76c7adc182e9ae62b9416f1b7a743f03d7b2266d130301e34f19f95f52ab3ede871454f51151f2cdfc570365cfd84d383196bd2893e62d7bfb9703be2d69c5ea77645e4479a8f230e7582b8107b63cb77beda8fe5325ac4f93546510d30dcd7d8ba0c9b5c8e9f67fbe2b";
pub const RSA_DQ: &str = "9113453d4e6f8a0952df1cfe86ff2e0d00c37dbcf7a04f62d4c96c8755bf52bafd41be3b4376357bb90c8424b017e60f75d05c0858bd1be4044a2bc66ca6c714141c0607c6d9caddea2d2b8eeb95521d7ca1d3e23a627ef7c1b5c658954cff4867821111d13681b1a734415f67bd3406b09a035e6a162b9e67fdba94bfed4547";
pub const RSA_QI: &str = "d827d17f02a14231377e2d4c3fb816b7b49045d66b03adfadc3ae8f2774b17f6f04ed6809b16130cb96eb2242d78fb203393e7960f0ec497f6adb6930b9739b7ddbdb658e95a083f02835b02c48f1ad40fae91d915f7c43428344e1accdfe6690d58b0bd6d5e9f8a3d7cd54d64af061e6aa36aa2247ac60c0b534945d0365b16";
pub const EC_D: &str = "d32163b28edf0c44d29af5c44a7d71c7c203c28438af81e8156bc279dce0c800";
pub const EC_POINT: [u8; 65] = [4, 108, 194, 21, 143, 78, 66, 237, 147, 129, 68, 233, 16, 186, 175, 244, 173, 98, 59, 69, 27, 181, 3, 152, 1, 229, 86, 122, 209, 148, 1, 159, 95, 249, 96, 86, 184, 188, 203, 32, 17, 31, 206, 2, 67, 254, 114, 176, 187, 247, 20, 168, 14, 155, 69, 172, 217, 146, 8, 108, 10, 135, 42, 255, 234];
pub const EC2_D: &str = "7319a763d1fed355fd6722ede12dea2759b79a0c2bbf3a728d7da7acee736fd1";
pub const EC2_POINT: [u8; 65] = [4, 76, 76, 162, 48, 16, 122, 24, 176, 185, 10, 88, 192, 97, 155, 119, 238, 129, 133, 193, 244, 101, 46, 182, 186, 31, 23, 189, 49, 140, 14, 149, 137, 52, 174, 249, 251, 39, 11, 120, 148, 179, 61, 233, 65, 187, 6, 67, 14, 214, 238, 218, 4, 92, 164, 145, 151, 17, 140, 151, 172, 161, 16, 178, 65];
pub const ED_D: &str = "55845b78a4db40da723f831fc39f21fab0e9f56fbbe059419d9b1949b2a5cddf";
pub const ED_Q: &str = "3de28a148a56c902bbc507524d6c8fbda2714dd1d28837dffdfc89ff26382f8e";
pub const ED25519: [u8; 5] = [0x06, 0x03, 0x2b, 0x65, 0x70];
pub const FFDHE2048: &str = "ffffffffffffffffadf85458a2bb4a9aafdc5620273d3cf1d8b9c583ce2d3695a9e13641146433fbcc939dce249b3ef97d2fe363630c75d8f681b202aec4617ad3df1ed5d5fd65612433f51f5f066ed0856365553ded1af3b557135e7f57c935984f0c70e0e68b77e2a689daf3efe8721df158a136ade73530acca4f483a797abc0ab182b324fb61d108a94bb2c8e3fbb96adab760d7f4681d4f42a3de394df4ae56ede76372bb190b07a7c8ee0a6d709e02fce1cdf7e2ecc03404cd28342f619172fe9ce98583ff8e4f1232eef28183c3fe3b1b4c6fad733bb5fcbc2ec22005c58ef1837d1683b2c6f34a26c1b2effa886b423861285c97ffffffffffffffff";
pub const DH_X: &str = "1234567890abcdef1122334455667788aabbccddeeff00112233445566778899";
pub const DH_Y: &str = "9e0b9b55d2aececdcecb0315681b3fc08ae864b406f8f6eb9a972d1f4c4f0b8e25d8e263b9e11a815cd6e95a1e86f210b7c5423db23e20c8b4f6564152a6597b613ef22c9bdd44d443482ec420605e48e98004a204aeaebbf8b4e9a8b265e96a87070be7cc72f4e4b419d0a0d94f92ca1703a494bf89368c67b021a38d1882466612f31cc6672ca12d18ea0359fdb19a1d5ab92f1dda3577c7a860e7871622f43c710256f99a539a53c5ca2c5cee1b765e3b680883df70bdb088bc6ace06e3c4eed612e8d9d733a3d2aebff039ae9b37c36102a47d6f0c2270ac6a6423b3bd78ff8c6a3c09159cc51d07fee4fb9f379afe7b3c1a33e2f307c37954f68d1bc2e9";
