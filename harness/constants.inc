// Written by tools/constants.py: CONSTANT(name, float, double, long double)
CONSTANT(e, 0xadf854p-22F, 0x15bf0a8b145769p-51, 0xadf85458a2bb4a9bp-62L)
CONSTANT(e_sqr, 0xec7326p-21F, 0x1d8e64b8d4ddaep-50, 0xec7325c6a6ed6e62p-61L)
CONSTANT(e_pow_pi, 0xb92023p-19F, 0x1724046eb0933ap-48, 0xb92023758499ccf6p-59L)
CONSTANT(pi, 0xc90fdbp-22F, 0x1921fb54442d18p-51, 0xc90fdaa22168c235p-62L)
CONSTANT(two_pi, 0xc90fdbp-21F, 0x1921fb54442d18p-50, 0xc90fdaa22168c235p-61L)
CONSTANT(two_over_pi, 0xa2f983p-24F, 0x145f306dc9c883p-53, 0xa2f9836e4e44152ap-64L)
CONSTANT(pi_over_two, 0xc90fdbp-23F, 0x1921fb54442d18p-52, 0xc90fdaa22168c235p-63L)
CONSTANT(pi_sqr, 0x9de9e6p-20F, 0x13bd3cc9be45dep-49, 0x9de9e64df22ef2d2p-60L)
CONSTANT(inv_pi, 0xa2f983p-25F, 0x145f306dc9c883p-54, 0xa2f9836e4e44152ap-65L)
CONSTANT(tau, 0xc90fdbp-21F, 0x1921fb54442d18p-50, 0xc90fdaa22168c235p-61L)
CONSTANT(log2_e, 0xb8aa3bp-23F, 0x171547652b82fep-52, 0xb8aa3b295c17f0bcp-63L)
CONSTANT(log10_e, 0xde5bd9p-25F, 0x1bcb7b1526e50ep-54, 0xde5bd8a937287195p-65L)
CONSTANT(ln_two, 0xb17218p-24F, 0x162e42fefa39efp-53, 0xb17217f7d1cf79acp-64L)
CONSTANT(ln_ten, 0x935d8ep-22F, 0x126bb1bbb55516p-51, 0x935d8dddaaa8ac17p-62L)
CONSTANT(sqrt_two, 0xb504f3p-23F, 0x16a09e667f3bcdp-52, 0xb504f333f9de6484p-63L)
CONSTANT(sqrt_three, 0xddb3d7p-23F, 0x1bb67ae8584caap-52, 0xddb3d742c265539ep-63L)
CONSTANT(sqrt_five, 0x8f1bbdp-22F, 0x11e3779b97f4a8p-51, 0x8f1bbcdcbfa53e0bp-62L)
CONSTANT(sqrt_e, 0xd3094cp-23F, 0x1a61298e1e069cp-52, 0xd3094c70f034de4cp-63L)
CONSTANT(sqrt_pi, 0xe2dfc5p-23F, 0x1c5bf891b4ef6bp-52, 0xe2dfc48da77b553dp-63L)
CONSTANT(sqrt_two_pi, 0xa06c99p-22F, 0x140d931ff62706p-51, 0xa06c98ffb1382cb3p-62L)
CONSTANT(sqrt_two_pi_e, 0x843f56p-21F, 0x1087eaba64708ap-50, 0x843f55d323845117p-61L)
CONSTANT(inv_sqrt_pi, 0x906ebbp-24F, 0x120dd750429b6dp-53, 0x906eba8214db688dp-64L)
CONSTANT(cbrt_two, 0xa14518p-23F, 0x1428a2f98d728bp-52, 0xa14517cc6b945711p-63L)
CONSTANT(inv_fibonacci, 0xd7085ep-22F, 0x1ae10bbc76824bp-51, 0xd7085de3b412547ap-62L)
CONSTANT(phi, 0xcf1bbdp-23F, 0x19e3779b97f4a8p-52, 0xcf1bbcdcbfa53e0bp-63L)
CONSTANT(catalan, 0xea7cb9p-24F, 0x1d4f9713e8135dp-53, 0xea7cb89f409ae845p-64L)
CONSTANT(euler, 0x93c468p-24F, 0x12788cfc6fb619p-53, 0x93c467e37db0c7a5p-64L)
CONSTANT(gauss, 0xd5aa1bp-24F, 0x1ab54359ab5344p-53, 0xd5aa1acd5a9a1f6bp-64L)
CONSTANT(plastic, 0xa9905cp-23F, 0x15320b74eca44bp-52, 0xa9905ba7652256d6p-63L)
CONSTANT(zeta_two, 0xd28d33p-23F, 0x1a51a6625307d3p-52, 0xd28d3312983e9918p-63L)
CONSTANT(zeta_three, 0x99dd00p-23F, 0x133ba004f00621p-52, 0x99dd0027803109c2p-63L)
CONSTANT(zeta_four, 0x8a8991p-23F, 0x1151322ac7d848p-52, 0x8a8991563ec241b6p-63L)
