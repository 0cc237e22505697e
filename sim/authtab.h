// generated once: password hashes for s_auth.cc
static const char *PW[] = {"secret", "pa:ss", "", "p", "x y&z", "longer-password-0123456789-0123456789-0123456789-0123456789-0123456789", "s\303\274\303\237", "secre"};
static const char *UN[] = {"alice", "bob", "alicex", "al"};
static const char *RE[] = {"realm", "realm2"};
static const char *HT[][4] = {
	{"$apr1$sa0lt$xEY.8eJ/6U3q2FzbjRvuo.", "{SHA}5en6G6MezRroT3XKqkdPOmY/BfQ=", "a0CTlgJSXXuaU", "$1$s0x$DQyRPK81z4bhDtn2wfw89/"},
	{"$apr1$sa1lt$4K2luEA.VvyRpIXignZAj1", "{SHA}XyRLaTIb/WCdo8CuWc58gPVHl68=", "a1/huxRFiXIw.", "$1$s1x$BH.XQO/UdT7thJTbULaga0"},
	{"$apr1$sa2lt$N6lmzR4A/ssaaFUz6car00", "{SHA}2jmj7l5rSw0yVb/vlWAYkK/YBwk=", "a2kHrUvQQWlmc", "$1$s2x$oZk6GRV4vrCAyteDPGWYY0"},
	{"$apr1$sa3lt$GYOEJ3Rxr6z.oFbcvbkwm.", "{SHA}UWuXg/ylF+7L0dBk2i0WUxCxl1k=", "a3YEj2muZ.GJA", "$1$s3x$QyXcKmXYfPtJvZ1i6MTBU0"},
	{"$apr1$sa4lt$YKpFsIrK4G416TL2QNtag.", "{SHA}JXnJH4b4yfC8GHRWak7+9R0baXA=", "a4BT8bpWkQKPM", "$1$s4x$mSNTlx2S7q123P9NMTDX71"},
	{"$apr1$sa5lt$uIVTCQ1vvkgaBUgG.pGY01", "{SHA}4PwwaAuEPrJlG+nJN9PngdWI0pY=", "a5LsJSl1gSdWk", "$1$s5x$TMPhrnR7AURRv/p/e44QY1"},
	{"$apr1$sa6lt$71.VSNJac2EmNh.cG6Pqy0", "{SHA}dydLh5vhUQuLE0jPLNXnARiBO6k=", "a6rx7MeEPCYY2", "$1$s6x$61j/uLPizypkMRln9V09.1"},
	{"$apr1$sa7lt$AYHMCucA/2Arov00LKqwm0", "{SHA}Aa576Ti6xRKTsgc2HyBOiuGXQoQ=", "a7o8ILoxh9xO.", "$1$s7x$B4P0wNU/Rwi14JjDad5O61"}};
// [user][realm][password]
static const char *HD[][2][8] = {{{"e16233c09b685e3dd5e17671513db3df", "50a374985faa472af580307d05c7f6c7", "1c88d93803e78c722b43a0f2ca35ff7f", "0ece6958d8595b2081fa4f533ee671ce", "f3073e3240716bd7a6555fe645066fa2", "e1723c72802151c098bf37451476e13d", "af6192eaf7070c1458610ca87a5d47c9", "f24441d282abd2a8c29fab7e65c8c005"}, {"82ec5bd0b1b2342be853892177ebf2d5", "71043bbeac802c1ba3dda45c55f9354f", "126af7aefd04337493d9f79e90e7ee55", "d26d1c2a416e42f0640bba21d4f94a37", "2495d99bae97986ff5fc6bfeb3e9bd3d", "c5a67157e474cd7408b94574e9fee43d", "8ab00e5740e2d77131b5af825aa72de0", "bf6a75b49196ea68e8039533d209cdaa"}},
	{{"908ff320725b0d3989b772c8bcf6b7e2", "316eb8d4278a10ab7e0a2179c6ee2319", "e13b9606a67495445a3dbc4b3051627e", "7ee016d55933db66f94f055c18a129a9", "0fa801fd96b1c1bf8a8a1773d92e9b2e", "b5a5cf1d6533d793a0f5f27488c0b582", "14e6df5ddc25faa609ca3259d769e775", "52df07e7473989fe56e67155c22c6796"}, {"634b4849e5caf7e79289edac0eaff6d5", "8cff4de5e606c790997efa10f0face26", "19bc640da8a72e2d061b828d138f377e", "665627e1fbcb667969f42fcd90e923ec", "3a714b6da9993c347301a18ac9d962bc", "7f6958ed1e410db015529dd3c67a6125", "81529324f3cd4f88f8a60b1848039d57", "c8d3555b952e6e633a6b1ce8effb9687"}},
	{{"cacd395cc33dbf193802a82623a200a1", "43c426b21fcd4e6f1b16f03240dc1ee7", "6b5a1dd5a54d31ac87bcccb84febee5f", "dbf6473764fb911a9c170a2b948f1d4f", "be4d559252c07dc439b115cceb845bdf", "97dc44ec6bdb94b8c4704819ed0ca90a", "f37a334fbd250c33387b3371f8f8b319", "583f737142bd04dc6ffcca925ae4c240"}, {"b74e76fb6ca4257a281c0fe7f02ace0b", "9552f241d32b2f4548fb097155b545a0", "f1c6d963825ca0ecd85e0a5f12d17701", "5b2f96bb42a373d55129c03b2783c477", "88dcf08d88f292a973ed4cfa41788c3e", "a4b587c21d8ffeeda9599138d8922bbf", "fcc5fb622c193fe3c9e229296106980a", "c62e0b40f2db13049fe16951ed1cfec1"}},
	{{"cedd802ee5a6a42d3ec9ae002332fdf9", "b92b9f3d535e9a6e8116ea609a1e5bbe", "5e74d772a075ba9a7067bb8c4937ce31", "e2e980a2f334d1555f84c7940e9ce64f", "fd8b910a3201ea266a2c27e1c4d217e1", "33e34743338e60f5866e43b5c753833c", "a1452b9e0deb0993d174ca74dd159d1f", "6d63d5b66431d297739be359135e0b09"}, {"e11da50eb16481d63992deca83dc5b36", "a0c792545d0025a198f9bda45ec0b784", "4ad038d4fe605e9e8fecdf68f56af604", "a2a079cb75507c6f9551bed340c7153a", "f42f0e04a76ba26aef7cc3c9e62b05d9", "25d57769142cc89cf8e5e890348b6299", "f46b1e67ec0f7258a7d6bcf49497fc24", "147f4e4d0e85ee3f9ae9edbc2a42a571"}}};
