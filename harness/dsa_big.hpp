// DSA groups too large to search for at run time: p = 2 q j + 1
#ifndef DSA_BIG_HPP
#define DSA_BIG_HPP
namespace pk {
struct BigGroup { const char *p, *q; };
static const BigGroup big_groups[] = {
  {
    "96bae748635e9ff11bb18678792fbd2e061c5f346fafa56b039849221d500518800d216b31c2a13809afc0aa5c02f7ce4781034c90def1c1f5c3904027197c44"
    "50bee94c1ccac5cf113037db903a22d2bff61914b3ab0377d27e30472cf17a592269c9869c4382a4e57796b7a74827daf489324829a0c72fd71f85133d6e7431"
    "cc166b558f834a6d7e1fe28eeaa1fe8029cb2744633e0871607bece4d2ce302146fd58a324b5fac2f13efc73de620afae2646ea4ebe721d2310b0f90b172c86e"
    "f00c4fb09c344d7dd52d73e05754fee6eed8a22d168babb2a2379d87bfec3f2af0dc006228df0c5619917cf3347801a2055c17db5f13b9eb6c9b0b44b3366942"
    "721e7ea47c545f603fc99c2a52d01c3d59bfc0889dd09b14ce64cf6875d62a076f41e7012fe382dd1be5ae137f851fedfd6a17541eef98542f9937646a632df1"
    "3a3aaafaf45e3af8ff322b5e8dc8a88dbb4462e0c8cffe6af313d77797296f23cf643fe0c37a2c2afff61512218cc191bc20a7e384b67fdd81d5b04314b2f859",
    "91e5c66e3ba4159905a1ff278c19c5ab91b4a76e3761c8adc833b0506f3ec41b"},
  {
    "f8eca86cef7bbd2178687c0f25d6259f28434a50842b5d472019ce9f1249fe1948971b14829cea74b0d35d39120f5fc2dfb95d9371350a241a3852347e768792"
    "bbf14a6ab3bfac92eab6edd8999dc41120ee1bf48d2466763b0ab7728989921a1dcf645d5ee516a3ef461af7de71ff32f579365106f36dc20f766074ba31b374"
    "babbfc057eab6ded3c33187417bc025fc7635c7d5ed386607b3e8b8acce5737dcecbc8829ad102480379db5278f0792db8b30d684c00255d386b2f5b8f4fbc11"
    "3e44dce1eb79ea0d6c3d9fdaac81a6d3ea8d45d2e318c48d62dac4bb137116f2c246f0fe21a706e268cd49b67b1604fd339c056adc7f5901235dea9636afc10a"
    "302493e2bc87b28594a9e2985d6d71becb3f8d1b94e50a3ade3c49e4d7e0586a481c7580f1f2e74f80f11001571a4c2f8fa79bb229b019416304bb84f6d0d6e3"
    "f4fa74663415d41fc55901754dda1e327553c69242bdd0e5137d3ae4ad9aa01b8089d4d3433ef1c637afb714a1884d29f1aea4c73758d14c523abd94086ca4d5"
    "b27eb16849c8f950a0c2fe71f8a5ca9bbaea3d1a22db1f3f1feba8a9bba1138bc69dd61d9938d21b707f3a69a0b1c9b95c7543a17c2b82ee97f3760d7616542c"
    "21bfb40cb3a277bd4b66cd58fe4df24a30aa8c6c74cc80e596e845c6bad0a65710767d4ae9e2054d517c773e976afcb333cb45d4d48aa7ea34c882681f0a4508"
    "b63c7b1a74fe0d144b2bfe10968a7bf8ac1ad68412b17aa0e61fe24740af7eec75cf9f7d3d3af95ca9ab5af9da0decb5fdd312e29d67c46a8f6b80db4e4026de"
    "b9c4bf8c90d242d6ab3118932bc49627a5e3080bb148cf4df059c98292fa06d898c0b51bc1791a944cf103d6793f7f06b064d5de2d20d5587d8e1eae4eb0ddbc"
    "0adaabccaed3645a45ce7f8fbbd2fe89188d070e3d2445db10d4c0a0714e12ae6dcc8815ee682fa5ed2a8f09db7dc2ab676df858ab7a6b1089419312876afd33"
    "9077db03b5c9081e158b3ce3f5bb24c953b5c6eb8b1a59d0b0f89cc8639d193e751d1bfdcc79d80cdcd18165209cb7d0c14ed43d0f72a1d6d770b15186e880a9"
    "cda8b0e6ac965fb53602ecb5c4f4a12968263a5e243676730a7a1cc3dcccb02ddeca85fe0ce7f9b3b524176648e420fc04ed7c30a5428c93faee397d595c91f7"
    "d08e878b8189cdc6d19f796921337f1f556934ffbef3c3ff5754293afffa4283ebaf6efaba25283d3416e297d1b84c989c1d491315224ac7fd9a951855cc512c"
    "7e3bf7ad6d2c9106a8bcb9ff3e7b0d3b5dc0c48e9cf95c81db1803574331eae8ab9eaf21c92d0585ed1b51765953e380b7ac58fc41e60490707ce2d924b56396"
    "037a9686dae8a51410a44b8a8814a9ea7765ca7c26e148ad651de1e5d7504733f1b179c13997d5a696c654889568628fe5168b22b75b2898273133fb426a72fe"
    "8528450063338b4217627009c5d0411a1e6a7e7a8e9bb589d8d95b6e3b43b2b8641f3f19dd0ee8c82300e1c7b6f23e557ac99be32341a8f6c6e1ece60c8928ae"
    "cef3aa29d1eba4d90325e0ebf5f000f20533549d834780f93d1c2ffa340b2a3688f0f1896255535bb3b51c522a35417c93296ec9571f4032e62ca1903889d672"
    "6116b7b4d30f1f858e007703086def105fb024994c3ee6e00b51ad9273a57813f61939519d1c6a51444910c194555ae0daba14cbce7444237faaabc4ba0af59d"
    "b8af01c1727e2baebe95ddf62e407b10e1346a4868f6f7369f3ec5d6ff044ed51d0f",
    "d1c14c55ebb4ab01fae266c99af1b00485db078352b994878918f356f97e79c1"},
};
}
#endif
