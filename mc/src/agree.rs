// generated by scripts/genagree.py
pub const AGREE: &[(&str, &str, &str, &str)] = &[
    ("P256", "0000000000000000000000000000000000000000000000000000000000000001", "04949603eba51875d8620584bc19113d792f287bd857cd0b81b41f41186bb5480733ab0c40c71e12db2722542e840aa4a404d01fb7d12c17a8100c03fd3399b2aa", "949603eba51875d8620584bc19113d792f287bd857cd0b81b41f41186bb54807"),
    ("P256", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550", "04049c25b2772696ce6a87dbcefe6939ca8540e714d67875b1fb23d1b98b1ea21f71284f3c73b7be1cfa3c7570241770c32448f6eece1a04ac75c56ae41a0044ee", "049c25b2772696ce6a87dbcefe6939ca8540e714d67875b1fb23d1b98b1ea21f"),
    ("P256", "a151f1074fdc759d440caa62ffdda622e348c64ab1517109fc1edf5540d4f060", "047192c10a382277e939b9ffe0736dc1e3b954133b77494c8b32dd33f3903a39dae2c38790a01357b893bed3a30b810302216dd83256e30709fd410dff6fb4f565", "efaf15d41055747b2c7bfad209c4529aaecfe8d9d932182b0e711cf5d6c2f219"),
    ("P256", "0000000000000000000000000000000000000000000000000000000000000002", "046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", "7cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc47669978"),
    ("P256", "a6ac06a4d2cee92ff05db54fd1918e6181893c03d8a0dc217beded7096e287f9", "04516ff2498cc14bb1c6ba52da8734decbc8e30c2c8d9c26373c6e3abf784427194d99b62bf6db67bead43b79d90222bfa1e61c6e7e7ac4f784a78caa92572c9fc", "efaf15d41055747b2c7bfad209c4529aaecfe8d9d932182b0e711cf5d6c2f219"),
    ("P256", "d5547fee8b717f07702400729b1582d05c55338fb0a2b752eedc425dc57860a5", "0403573e87f7d44e5affc4a11e58c5ba9e4bff7dc8d2aa7b50f2deae4cc624fc568730d90c993d249c759b76e377dbc7ae56c2d28d1d9e43e0cbfd0c79760f0d30", "00c6a4c65d8e7f15667b6ed1e2245c583b4f270a719355abee6518b7e1d68431"),
    ("P256", "000000000000000000000000000000000000000000000000000000000000014f", "04b8f37e515f0d8417707027e774a468f6807f2743d87580f73406b71bd48a944d855ca6a874ef71dc6f1e44a8526b888928a52796279e1eb7e0684c13f79e7d57", "00c6a4c65d8e7f15667b6ed1e2245c583b4f270a719355abee6518b7e1d68431"),
    ("P384", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", "041eeb2e689cc7f50dcf396083ff5099df5ec18a98596138de813c7ba7b4739cdc29ae96804ded7732d492bea0cff9a4eaf59c8b07ff85c1afba82ff7017e2c895b6f7b8964ee39dc740e981176be9178f9cfdc38d2bd10378aebf0be50d4fc8d4", "1eeb2e689cc7f50dcf396083ff5099df5ec18a98596138de813c7ba7b4739cdc29ae96804ded7732d492bea0cff9a4ea"),
    ("P384", "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52972", "042215343947970678ada4c7da3ff9fb910c9dd83892316b7d08eb300741860a05322122334f0a10b3fc32e6a4423b1cb9218d1a076c72627168d7cdda8d0c6fffbd87d6c578ffc611cdcec579d71213eaa23a33ffd306d8992e88d4b335a39474", "2215343947970678ada4c7da3ff9fb910c9dd83892316b7d08eb300741860a05322122334f0a10b3fc32e6a4423b1cb9"),
    ("P384", "d2cde062d33ed2c1c18c2962b295b87a3702f447ee8e7d21bf21722f91fb346a84864f0aa78b536560f91faa61cb3097", "04da1af499648b7be17b25eaf105525b75ff78f9b51ba6473a447e622520f33902b54ec248581bea688f944f531df3f6342c23e7e9be472cf6d405836102dcfd882a4129efe76ae509bbd6e61f4ee89b5705b78fa370a0d60f2ab2b1e31db3291c", "e0b588d530c128994e5fa238066455ceecbfc9e8efab409b92ba15b03527e609a0e9f5ecdc0ce404f0531a0c2ba972cd"),
    ("P384", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000002", "04aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab73617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f", "08d999057ba3d2d969260045c55b97f089025959a6f434d651d207d19fb96e9e4fe0e86ebe0e64f85b96a9c75295df61"),
    ("P384", "1791f812614a0836117d269501e6109e819f85e6618140ac9e98771c2600fc026530065c8823bf186c62e598fef41d9f", "0468eb27d68e0aeebd716f17875138cbc45064a763a4b478a52cd7dbdffa3f77b5bd91c5488e5bbaad7a861f29bcec685ace57d2dc4b2a277989ee98442a2a9c6b6e5e0a8d099be726e248f21d04a58d73401f2912d63e681c6d3992729a2415fb", "e0b588d530c128994e5fa238066455ceecbfc9e8efab409b92ba15b03527e609a0e9f5ecdc0ce404f0531a0c2ba972cd"),
    ("P384", "579e88961ef974da61bf12d527a7c7feca3ce4e9086973b8c63d0a3be4eae0a04fa84b661d4a9b98f4c311e57384971e", "043a67a337e9f9801a467c5ab6d69a1f94757634a28a2d794c0abe75b32c89fc4182cfcdb920e29ee6228d345d53f529c0c87674b4822229d425aac1d9a5d9053d73853e145a21312cd3f31ba3fc9e60e068eea87d25b1d7a1d713facab8a030e3", "00bb9c27c05f1e4b5e5be213685f6717d22ea458046805d68756e9b7a872781d786e1bf0774fcad371b5ee9776d778a5"),
    ("P384", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000002c", "04ed1ff2a1eacebd44872136c9632ad632cff1ea12a64169e9fc2a7453c5a7912f876023204d599d20e33e03adeb06b3faf6a7133017050083adc8f9f5472fc1c4c61313081d9c24ae12659897be3aa9d8a8fc2fccf423139e759eb08d9baa32a0", "00bb9c27c05f1e4b5e5be213685f6717d22ea458046805d68756e9b7a872781d786e1bf0774fcad371b5ee9776d778a5"),
    ("P521", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", "0400211c5440eecbf775290a9e1cab7cffe35503118217ddfd80efbf7f9bf3efe3d234365bbb3ec42e2df5bf54843b34106ca5b829ef614b37fd87ac8dc921ae622a7400844d3d38a9e936103ff1bedc8239e4f976b15ae9b882b0c286f6d7d5a80998f1f33e456b5dae1b37266d1876562fab69c0d6ed9fbaf7da6041c9d4031e0319bc23", "00211c5440eecbf775290a9e1cab7cffe35503118217ddfd80efbf7f9bf3efe3d234365bbb3ec42e2df5bf54843b34106ca5b829ef614b37fd87ac8dc921ae622a74"),
    ("P521", "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386408", "0400fdb7971fdca648a369afd3c1aadcd9a7de877cc08e6e1218a0e8769d6364a9519bd12db04fe7954ca400db3dd14098b79838870d3906e91cb0083330937d5770fc00adc161b9506abae5a50a063889c4acaf3e55e910493b0750dab58a0e4b1a9f637b7d6ae65900377b45277a4930ea5bff962b6f525c5d74348f1dcb1b804273a89f", "00fdb7971fdca648a369afd3c1aadcd9a7de877cc08e6e1218a0e8769d6364a9519bd12db04fe7954ca400db3dd14098b79838870d3906e91cb0083330937d5770fc"),
    ("P521", "01544b43ef9dfe064bf64f01ca6284d620818f5983c433448b51bdc280a46f7639081b8d0210113c76d5138732173d6784c030f7b8b317a2546df5a16a9254cbbff6", "0400a539b133ad64a80f3537db21b196f903ca1c47326c44c79b3912eaef6bc03e2a6a7a5e62eb29ba9a3c6045a80497198833eeaa12b2000e6ee7a826d7cdf2606dba01fb84b2da770afa223b2b585d105da73ffa81fe7d0bc6783dd578f0a03341c53fc9b1117e49d0fc3d26e019a5ea78e51604006bcd2814de02d68da8d8148b9733ef", "00d37e4dc03ecd30087345806bcf307f8658274b7fb69b1bd7ea4a4ffd16fe8f5a88b47c9657e37dcbd556cfd9b69b1bf6a2b7c8c799be7c4f87008f71f604a836db"),
    ("P521", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000002", "0400c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650", "00433c219024277e7e682fcb288148c282747403279b1ccc06352c6e5505d769be97b3b204da6ef55507aa104a3a35c5af41cf2fa364d60fd967f43e3933ba6d783d"),
    ("P521", "0010cf246a017897d14431f366e2f27fa05e4161506501c0d49ddd2d37cbb9b4b20739bda09a2466026f1ef335f025c0b56e64fbc12d9076729a277b52235707dc6f", "0401511b30f0bbb6a62438c431530a3aaa814e05bea32d9a0691bb25c5335a79d8171f2417f1eca02b8a0a0b8bf58a6c72286b7e74f366c2c0594c2af52c2224c4ceb2011a37faebb401f145d5a33b674b58bd49800ad1bf23dd1fb66ad22d926320980494a3f3f2530bd522f95473d8a7f697fff2b1f27168230692c9de2dd736bba43d1f", "00d37e4dc03ecd30087345806bcf307f8658274b7fb69b1bd7ea4a4ffd16fe8f5a88b47c9657e37dcbd556cfd9b69b1bf6a2b7c8c799be7c4f87008f71f604a836db"),
    ("P521", "0163617118cd71f565633964a607e3800b1b2ce5aa30ecbae63b4947619d716428fdd01b0edc31a3163a11bfb562e17041b7878413ef4640cebea667d0da5a88f19b", "040088f684344954932ffba0afbbfe712e7af1b308e0a3adc1c80231b771f8001cd34e2cc7aebed813e8d242382e421d9371c103ced629abeff92abfa43fd8c4137c05016abb8c41009c85e47a837e17f5f3113ced1079167c3d46ded47a09710c709cce0cddb2db648ef926dfb6fff7e101e4a0710f0d358f2facffdb5d3031406cf2a4ad", "000009b048d1f19d24d026611ed5b193b1655dc13217d38054e0850556426cf53ccfda48b25c3fa825386ecd435baba52f735835619ee324237fa0f8b57d49e0b3ce"),
    ("P521", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000416", "0400c7fad173adf16c87a5a21ba742a5a956a9cb4a12972b7e4904a4d3ae80f0737fbdf52d16f5cb8b790946d602fc3634d77e882939ee36bccdbfbadf5afebb2602420016aaa1ef1d748d3f23c15cd42b8bc99945a2a57f29ee4a9ee8437cee02b38857fcf6b6dce5001d585125496c4686c4be2516e3a08ae10b1c1d396df9fb27a3f10d", "000009b048d1f19d24d026611ed5b193b1655dc13217d38054e0850556426cf53ccfda48b25c3fa825386ecd435baba52f735835619ee324237fa0f8b57d49e0b3ce"),
    ("X25519", "798bcb4de780a26c6375bedd553e4a04ea1d37609fabe0c992bcbf7452bde4aa", "f08f1530c2de0b508006d74d62124699dbeef3c88e693bb80a03dbd8877e723b", "90bfa04d127c0e6d7099b58587310118c3a820c5cdeb1e3ef1ce5506bb418061"),
    ("X25519", "60077625ff808ef167108d6e1bc24ad707786edfe528f1f0467e737fd53c3559", "4ce959c6dea09623ccaf714dfb5e527963a94717e1c1a9aa7a981ceaeeca6b0f", "90bfa04d127c0e6d7099b58587310118c3a820c5cdeb1e3ef1ce5506bb418061"),
    ("X25519", "61f0da1c4696ba91a57eb83910e0f84e1db6fed04d3ad4429f8f36e9c04b1913", "e527ca23959df33a1d5f25cb1653082a972ed0372f37cd87ea483608f46cc227", "3e4a1bb36802b8c902f5c7896746c924cf275b1dc1deaf65d9207d8fa3a5e230"),
    ("X25519", "19083df59d10a7c4de66c2c2ff8429e4ca938e7809079ab0fe20cae126847a36", "3afc5a0dbcafb0c743058b5da7ed872e3848e5fecfdb41b6771e945ac156a47c", "3e4a1bb36802b8c902f5c7896746c924cf275b1dc1deaf65d9207d8fa3a5e230"),
    ("X25519", "798bcb4de780a26c6375bedd553e4a04ea1d37609fabe0c992bcbf7452bde4aa", "edd76bb7432e0277f4e2b3b37ce75ed99669020e9cd99e024546f31b7f07383b", "003756a2986d57a7bdf9d2d62ef5d429dfccc21eddb2e681b6da773ea05ba008"),
    ("X448", "bafbc1d354f09a50845ff8c904a9ce4563b95277df19678865c52a423f3de85346ed711046196a3434919c6ee968bfad0cc58fb2a4a3237a", "3cd85d334e5d65ba56cc81e1c24ba92d925dace6a180ead37d59454c4e826bf677d1b08cdfa036852fc2f11c374e5eaccfdbf76350a2cec9", "a2ff0c2dfdd48bd05ac5474532dd54e4722d968efb70672d1479208c5f24dfdf2548555b8bedbbf234ac4d0cd64fd34b298856ee972325ea"),
    ("X448", "013b049570498860b892dfaa4b8b767464597eebb51676554fa95c5b60657c5f1e86448649507ad1bcc859efeed3f3cad5d23f448fe9f97c", "62e447bb2f8b27c5d94c4603e9036ba38dcf36caff57d8a000c07a69b6b1e26400147765e88e33ef582d77e5940f1d425627b83b98a3a438", "a2ff0c2dfdd48bd05ac5474532dd54e4722d968efb70672d1479208c5f24dfdf2548555b8bedbbf234ac4d0cd64fd34b298856ee972325ea"),
    ("X448", "a29e96a2d8defc9ce3ba784f0c51a0566e2554e6b759e63aa1e9546b5c3ec4574ce58dec431aac817c0a8438358a385a8bf51f6e66e5413c", "c28b33f0ef19fc2f03dde19a07e40bd1249a5a258384fb4d49f946136b188559061e9d9d42205493536858326635b4d6d9e85d8dc7f79192", "55b8fd1f6988e74f34d973782a62b8bcf9f56b8a79ad8b4066f91133633fb16d93429682b1855684c65ba65d049bf903febdb8f2f7507b46"),
    ("X448", "221c55a449f05b6bac14f28e271d1e657cb4168e4a755a901ac0fdd74193b3f2fe8b0ee6a136fcfa3c220b249a7b966c9501f78b16dae615", "1e992b79657a857102b76051faf70daf52ff0e1cc3f3aee13e2d863752cb5202b9c5d96778b3d82a3535926003d47daafa4e5aa987c11fbe", "55b8fd1f6988e74f34d973782a62b8bcf9f56b8a79ad8b4066f91133633fb16d93429682b1855684c65ba65d049bf903febdb8f2f7507b46"),
    ("X448", "bafbc1d354f09a50845ff8c904a9ce4563b95277df19678865c52a423f3de85346ed711046196a3434919c6ee968bfad0cc58fb2a4a3237a", "417ccb0d652df345152a29ff87fc99d995858358beebdd568df64d73386aac9803f557c2533facebf99a64988fc0db05a7ef3cffce7ef1cc", "00290417775c3324911de8551935c302fa42af9f6c99334946fff2633d47ecd4a3df5939533e462346852816fb2011cf8d2ab14a286141b7"),
    ("DH", "630694e08a394a2975da41d909c4c55ef3830434680b2f0835fe99f0524fdb89", "5e3d0ecf37a9487aa892914ea119f897e72112e4b769f63e33e4f5ccac9cdba363783e9c3abc96d297e4810ba8c4687c5d57e41fc078c9c8080d6f18290d7ad2c7546d11bcf138cf018ad6954e58f3228ae6905d425caefc011a39bda49050d27367418bdf5dd3c9c2425e4685679e2c7cda56268b8d3cdfa6c3a654440b8aaf5bd781d90f0a1831077fbb555fc68a700597200e8910f6e42ae525d0f6524b81d677610ba8660980fe519e4576ca5db8c8eab4cfbb589b1eac9211ed8b25387fa1af88955328ade0c1c09f075c4dad02fd886e503330e3f986a93bb3b92dce4ca7d206c35fcd6f7b6b0132129acf783a08d9215f045036f41e879a3bc200331a", "981ccda3a18b449a71ad7fa99773ce1b50d68c6db42244c1abe5c27adb3fece196079bae3663ff5b0049d1f881c446d1fe4065d6ab72d80aeffb6f24bd610549c76c2f560e71a933762e3fb9a4e15608c4becca0b0313f0043c6d8f122c1ac6f82246532bae9ff70004c6502915a612b071deeea6546d2bc03a8668419b0bec3fa69d5513cce518346c8aaddc59652249450a852be8d529b49d74859f32be90547f1627d48685d610d8674d65093a3156b480e2423abf718acb0dd3c9df395f75d1ddad5a32437db9a002bb701640745036d2955682b47d5d3488aadbcc856ef3fe08bf22019d50635db243a475499776e08e4925a06e4152a97d770010b6e99"),
    ("DH", "eef41e46f130a3e588b91134392a6bedd4ac1917cd098ea6400ffbfbc6cc539c", "41f0918e102f4eb2f515ebe1fb6f44186ac0d6741a03bc23ed30943929af0fc19f823668c15efb3bcef7ff6091c8da34f95f35179e0e30940716910df86a7b3163e6b339094689b3991da5a179cf03fdec4525c241470e1577e1b7ce1d8e6bc2de4243d1758a44cc9cb283216f5512b79980a79dbb4eb89e62cae464819a2850a38fdbc4e1d01e963ada650e9da6a7f14b675390f0cd3e209efc189661cb5aba0828640e5618c575f2d4b3be185bead0242ac61b118bc21b67f4692b1383190ed5a0fde862bf5f7bf095f74f249eeafa9eef76850601b781684b416cee9d38fe1f12413fdb00079098efdf5b509d0dd1fbadc5207042dcf317e09b728cb144fb", "981ccda3a18b449a71ad7fa99773ce1b50d68c6db42244c1abe5c27adb3fece196079bae3663ff5b0049d1f881c446d1fe4065d6ab72d80aeffb6f24bd610549c76c2f560e71a933762e3fb9a4e15608c4becca0b0313f0043c6d8f122c1ac6f82246532bae9ff70004c6502915a612b071deeea6546d2bc03a8668419b0bec3fa69d5513cce518346c8aaddc59652249450a852be8d529b49d74859f32be90547f1627d48685d610d8674d65093a3156b480e2423abf718acb0dd3c9df395f75d1ddad5a32437db9a002bb701640745036d2955682b47d5d3488aadbcc856ef3fe08bf22019d50635db243a475499776e08e4925a06e4152a97d770010b6e99"),
    ("DH", "f52d6e743d4a0f3257aa17d39f8bb398d1983a2cd61fd081db6b5253e6df5d13", "899bd53004989fbce46a501761fe60f41b92b4a9a44ea7d16c816ac64013c8490fb28418220464f6104fbff358bccf0a58100a6376856a5db6ec96cc59e3e7f20328804df96704170c0d0a17228f78df0139a7335cc9c596251113a4f546774b0182c49f7cabd955cbeb3bedd1178e149b3414f23c274f6e9f1ae77947f403c7f926a1ce5bc1a673a72e6bbd6e0fc10c3fa59337aec9acbbb83758b05d7b98ee5d104c94518b75e7b27510aaec4b2f0d452f7f16dce83303a6a8bf0fc9efe8927be3177ae6115e02b14ac4137c437df57a3197c1837dde4ca8f021e1975b90f439219344a975755d22bde25d3f372377de3e6e2623d01717d0011c0b623f7ed2", "80c733e35857deed06b3ee303fb7ae1559c81428b909ea778b44380dfa4eb537d1bf80c47a25889c0e15bbf5c8ac1aa307e055b23e29e177452c6c93c09d6b804526e8fe66b0759dfdf4c335dae5b39897e117aa8777b45407b63039f672a63566e19b053d6e9d6d1e9ca16a8215c226892c228645b07d8d22dd8df88bf56209335d57928a98a4bd924a747eb4fd82d21f45e4d075b1a6ad032495da98f54c9fefe034765040cebc62705b1273e381bc3488829f677573f1fdf0c1e614b1591c69e583f44d20e6fb8546867340503b9e5d80b78b7363d61e8a0cd863111ae454704a003043e878fc32cfa2c5c79eb03519ed7902989dbeaf8dcab781a5cb42af"),
    ("DH", "630694e08a394a2975da41d909c4c55ef3830434680b2f0835fe99f0524fdb89", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000020000000000000000", "001e8df64a7f613dddd744669caac2b25a17604b133de9f9f0c609ebba4c67498e55d22afb92c1e90ed5933505999f398b64e75d6f634b28c6b27d5ddf45b10e4f3caba240091faf1272f36b047c6b88e03da4f6605d70adb1b417652b056360afe90d01c30f0075c112a6efa2a46ce0258d03acde5559a0cd12384de47dbb74bcf66b4a5942917d9de7fdf095815803ae093b23a85ea897372b82c024cf1fb0a8e64301e67cf6942e230c2328ab71d9dcfaa03ceaaa6435999718b487eacfabe6d0675d55f0a4bed23bea8dac88a6db5b76888310aa180e12d7858dfd62b00176d4e361cbc8311f560353cf8332fb1100392243b4b175da590b04752863c39a"),
    ("DH", "630694e08a394a2975da41d909c4c55ef3830434680b2f0835fe99f0524fdb89", "6f4ff0ffda2d712942bde6570b0a2b8c895d37a5f5dc79d9defe39deffca7b976436b9d4d2d27077c58eb8dcbba52b61aca9f7bedf88d3c6a95d97a5b6a5f0c97f3dc94b79a09ced5521a9f8727c098dca2e4d942d4b1682977cf7cd327f717dc8db5d5a5476208f6b91af030ea4cc4dac4804ee8bcfe2d4f1b0b41e0859d8d3151645d5448541a4dfe36dd59d81217610dac15dbb0dc4e8ad589bd0a9c70ba5de9cdf5bf91cefad95e1b35abd7bf87129b111c3f9587e3fcfd6766f66c0e756307e3bca626b07474fbf37da597a4b574fbe5550ffdcb2e473b9d3307072ae7d49a074cfbfc5d90b6c9ecbb393eeea5c97354672f21bd988faab6c8af148a61f", "000022e3d30a0c934897548500af7a29638c68704316ddaee985e3d564eadeb51d4da0ca341dfe55058d7316e3820b767997fbe7ec4439186137bc1226112bddfa1eb81a9926c0a81738401b5439cdafde4d0a5a70b28133b57337af3abec2d2c4633e4306c5a6e5fe700d1f5721129b681a59ae4a87296d0e8a0a89a1f21961cbb16305ec9a9ae1b76e245dc22cdb98628e0e7357842450568ec08476a01d176487a267f4519c872857b1506bd0dfcb0eafef34e3fa5ee4db00bd23de4fa7f1cd0e5704a20f0dbb956db4fa863aee9097ff600475df0fe85d6775827630848e06a34e46ae926e3443d1d630fe487d204f84c40dc950242dfa2d56ee3697a2b1"),
];
