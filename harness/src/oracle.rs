// Written by tools/gen_oracle.py from oracle/tables.
pub static SB: [[u16; 128]; 31] = [
    // ascii
    [0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD],
    // ibm_866
    [0x410,0x411,0x412,0x413,0x414,0x415,0x416,0x417,0x418,0x419,0x41A,0x41B,0x41C,0x41D,0x41E,0x41F,0x420,0x421,0x422,0x423,0x424,0x425,0x426,0x427,0x428,0x429,0x42A,0x42B,0x42C,0x42D,0x42E,0x42F,0x430,0x431,0x432,0x433,0x434,0x435,0x436,0x437,0x438,0x439,0x43A,0x43B,0x43C,0x43D,0x43E,0x43F,0x2591,0x2592,0x2593,0x2502,0x2524,0x2561,0x2562,0x2556,0x2555,0x2563,0x2551,0x2557,0x255D,0x255C,0x255B,0x2510,0x2514,0x2534,0x252C,0x251C,0x2500,0x253C,0x255E,0x255F,0x255A,0x2554,0x2569,0x2566,0x2560,0x2550,0x256C,0x2567,0x2568,0x2564,0x2565,0x2559,0x2558,0x2552,0x2553,0x256B,0x256A,0x2518,0x250C,0x2588,0x2584,0x258C,0x2590,0x2580,0x440,0x441,0x442,0x443,0x444,0x445,0x446,0x447,0x448,0x449,0x44A,0x44B,0x44C,0x44D,0x44E,0x44F,0x401,0x451,0x404,0x454,0x407,0x457,0x40E,0x45E,0xB0,0x2219,0xB7,0x221A,0x2116,0xA4,0x25A0,0xA0],
    // iso_8859_1
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF],
    // iso_8859_2
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x2D8,0x141,0xA4,0x13D,0x15A,0xA7,0xA8,0x160,0x15E,0x164,0x179,0xAD,0x17D,0x17B,0xB0,0x105,0x2DB,0x142,0xB4,0x13E,0x15B,0x2C7,0xB8,0x161,0x15F,0x165,0x17A,0x2DD,0x17E,0x17C,0x154,0xC1,0xC2,0x102,0xC4,0x139,0x106,0xC7,0x10C,0xC9,0x118,0xCB,0x11A,0xCD,0xCE,0x10E,0x110,0x143,0x147,0xD3,0xD4,0x150,0xD6,0xD7,0x158,0x16E,0xDA,0x170,0xDC,0xDD,0x162,0xDF,0x155,0xE1,0xE2,0x103,0xE4,0x13A,0x107,0xE7,0x10D,0xE9,0x119,0xEB,0x11B,0xED,0xEE,0x10F,0x111,0x144,0x148,0xF3,0xF4,0x151,0xF6,0xF7,0x159,0x16F,0xFA,0x171,0xFC,0xFD,0x163,0x2D9],
    // iso_8859_3
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x126,0x2D8,0xA3,0xA4,0xFFFD,0x124,0xA7,0xA8,0x130,0x15E,0x11E,0x134,0xAD,0xFFFD,0x17B,0xB0,0x127,0xB2,0xB3,0xB4,0xB5,0x125,0xB7,0xB8,0x131,0x15F,0x11F,0x135,0xBD,0xFFFD,0x17C,0xC0,0xC1,0xC2,0xFFFD,0xC4,0x10A,0x108,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xFFFD,0xD1,0xD2,0xD3,0xD4,0x120,0xD6,0xD7,0x11C,0xD9,0xDA,0xDB,0xDC,0x16C,0x15C,0xDF,0xE0,0xE1,0xE2,0xFFFD,0xE4,0x10B,0x109,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xFFFD,0xF1,0xF2,0xF3,0xF4,0x121,0xF6,0xF7,0x11D,0xF9,0xFA,0xFB,0xFC,0x16D,0x15D,0x2D9],
    // iso_8859_4
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x138,0x156,0xA4,0x128,0x13B,0xA7,0xA8,0x160,0x112,0x122,0x166,0xAD,0x17D,0xAF,0xB0,0x105,0x2DB,0x157,0xB4,0x129,0x13C,0x2C7,0xB8,0x161,0x113,0x123,0x167,0x14A,0x17E,0x14B,0x100,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0x12E,0x10C,0xC9,0x118,0xCB,0x116,0xCD,0xCE,0x12A,0x110,0x145,0x14C,0x136,0xD4,0xD5,0xD6,0xD7,0xD8,0x172,0xDA,0xDB,0xDC,0x168,0x16A,0xDF,0x101,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0x12F,0x10D,0xE9,0x119,0xEB,0x117,0xED,0xEE,0x12B,0x111,0x146,0x14D,0x137,0xF4,0xF5,0xF6,0xF7,0xF8,0x173,0xFA,0xFB,0xFC,0x169,0x16B,0x2D9],
    // iso_8859_5
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x401,0x402,0x403,0x404,0x405,0x406,0x407,0x408,0x409,0x40A,0x40B,0x40C,0xAD,0x40E,0x40F,0x410,0x411,0x412,0x413,0x414,0x415,0x416,0x417,0x418,0x419,0x41A,0x41B,0x41C,0x41D,0x41E,0x41F,0x420,0x421,0x422,0x423,0x424,0x425,0x426,0x427,0x428,0x429,0x42A,0x42B,0x42C,0x42D,0x42E,0x42F,0x430,0x431,0x432,0x433,0x434,0x435,0x436,0x437,0x438,0x439,0x43A,0x43B,0x43C,0x43D,0x43E,0x43F,0x440,0x441,0x442,0x443,0x444,0x445,0x446,0x447,0x448,0x449,0x44A,0x44B,0x44C,0x44D,0x44E,0x44F,0x2116,0x451,0x452,0x453,0x454,0x455,0x456,0x457,0x458,0x459,0x45A,0x45B,0x45C,0xA7,0x45E,0x45F],
    // iso_8859_6
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xFFFD,0xFFFD,0xFFFD,0xA4,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x60C,0xAD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x61B,0xFFFD,0xFFFD,0xFFFD,0x61F,0xFFFD,0x621,0x622,0x623,0x624,0x625,0x626,0x627,0x628,0x629,0x62A,0x62B,0x62C,0x62D,0x62E,0x62F,0x630,0x631,0x632,0x633,0x634,0x635,0x636,0x637,0x638,0x639,0x63A,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x640,0x641,0x642,0x643,0x644,0x645,0x646,0x647,0x648,0x649,0x64A,0x64B,0x64C,0x64D,0x64E,0x64F,0x650,0x651,0x652,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD],
    // iso_8859_7
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x2018,0x2019,0xA3,0x20AC,0x20AF,0xA6,0xA7,0xA8,0xA9,0x37A,0xAB,0xAC,0xAD,0xFFFD,0x2015,0xB0,0xB1,0xB2,0xB3,0x384,0x385,0x386,0xB7,0x388,0x389,0x38A,0xBB,0x38C,0xBD,0x38E,0x38F,0x390,0x391,0x392,0x393,0x394,0x395,0x396,0x397,0x398,0x399,0x39A,0x39B,0x39C,0x39D,0x39E,0x39F,0x3A0,0x3A1,0xFFFD,0x3A3,0x3A4,0x3A5,0x3A6,0x3A7,0x3A8,0x3A9,0x3AA,0x3AB,0x3AC,0x3AD,0x3AE,0x3AF,0x3B0,0x3B1,0x3B2,0x3B3,0x3B4,0x3B5,0x3B6,0x3B7,0x3B8,0x3B9,0x3BA,0x3BB,0x3BC,0x3BD,0x3BE,0x3BF,0x3C0,0x3C1,0x3C2,0x3C3,0x3C4,0x3C5,0x3C6,0x3C7,0x3C8,0x3C9,0x3CA,0x3CB,0x3CC,0x3CD,0x3CE,0xFFFD],
    // iso_8859_8
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xFFFD,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xD7,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xF7,0xBB,0xBC,0xBD,0xBE,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2017,0x5D0,0x5D1,0x5D2,0x5D3,0x5D4,0x5D5,0x5D6,0x5D7,0x5D8,0x5D9,0x5DA,0x5DB,0x5DC,0x5DD,0x5DE,0x5DF,0x5E0,0x5E1,0x5E2,0x5E3,0x5E4,0x5E5,0x5E6,0x5E7,0x5E8,0x5E9,0x5EA,0xFFFD,0xFFFD,0x200E,0x200F,0xFFFD],
    // iso_8859_9
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0x11E,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0x130,0x15E,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0x11F,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0x131,0x15F,0xFF],
    // iso_8859_10
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x112,0x122,0x12A,0x128,0x136,0xA7,0x13B,0x110,0x160,0x166,0x17D,0xAD,0x16A,0x14A,0xB0,0x105,0x113,0x123,0x12B,0x129,0x137,0xB7,0x13C,0x111,0x161,0x167,0x17E,0x2015,0x16B,0x14B,0x100,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0x12E,0x10C,0xC9,0x118,0xCB,0x116,0xCD,0xCE,0xCF,0xD0,0x145,0x14C,0xD3,0xD4,0xD5,0xD6,0x168,0xD8,0x172,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0x101,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0x12F,0x10D,0xE9,0x119,0xEB,0x117,0xED,0xEE,0xEF,0xF0,0x146,0x14D,0xF3,0xF4,0xF5,0xF6,0x169,0xF8,0x173,0xFA,0xFB,0xFC,0xFD,0xFE,0x138],
    // iso_8859_11
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xE01,0xE02,0xE03,0xE04,0xE05,0xE06,0xE07,0xE08,0xE09,0xE0A,0xE0B,0xE0C,0xE0D,0xE0E,0xE0F,0xE10,0xE11,0xE12,0xE13,0xE14,0xE15,0xE16,0xE17,0xE18,0xE19,0xE1A,0xE1B,0xE1C,0xE1D,0xE1E,0xE1F,0xE20,0xE21,0xE22,0xE23,0xE24,0xE25,0xE26,0xE27,0xE28,0xE29,0xE2A,0xE2B,0xE2C,0xE2D,0xE2E,0xE2F,0xE30,0xE31,0xE32,0xE33,0xE34,0xE35,0xE36,0xE37,0xE38,0xE39,0xE3A,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xE3F,0xE40,0xE41,0xE42,0xE43,0xE44,0xE45,0xE46,0xE47,0xE48,0xE49,0xE4A,0xE4B,0xE4C,0xE4D,0xE4E,0xE4F,0xE50,0xE51,0xE52,0xE53,0xE54,0xE55,0xE56,0xE57,0xE58,0xE59,0xE5A,0xE5B,0xFFFD,0xFFFD,0xFFFD,0xFFFD],
    // iso_8859_13
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x201D,0xA2,0xA3,0xA4,0x201E,0xA6,0xA7,0xD8,0xA9,0x156,0xAB,0xAC,0xAD,0xAE,0xC6,0xB0,0xB1,0xB2,0xB3,0x201C,0xB5,0xB6,0xB7,0xF8,0xB9,0x157,0xBB,0xBC,0xBD,0xBE,0xE6,0x104,0x12E,0x100,0x106,0xC4,0xC5,0x118,0x112,0x10C,0xC9,0x179,0x116,0x122,0x136,0x12A,0x13B,0x160,0x143,0x145,0xD3,0x14C,0xD5,0xD6,0xD7,0x172,0x141,0x15A,0x16A,0xDC,0x17B,0x17D,0xDF,0x105,0x12F,0x101,0x107,0xE4,0xE5,0x119,0x113,0x10D,0xE9,0x17A,0x117,0x123,0x137,0x12B,0x13C,0x161,0x144,0x146,0xF3,0x14D,0xF5,0xF6,0xF7,0x173,0x142,0x15B,0x16B,0xFC,0x17C,0x17E,0x2019],
    // iso_8859_14
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x1E02,0x1E03,0xA3,0x10A,0x10B,0x1E0A,0xA7,0x1E80,0xA9,0x1E82,0x1E0B,0x1EF2,0xAD,0xAE,0x178,0x1E1E,0x1E1F,0x120,0x121,0x1E40,0x1E41,0xB6,0x1E56,0x1E81,0x1E57,0x1E83,0x1E60,0x1EF3,0x1E84,0x1E85,0x1E61,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0x174,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0x1E6A,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0x176,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0x175,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0x1E6B,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0x177,0xFF],
    // iso_8859_15
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0xA1,0xA2,0xA3,0x20AC,0xA5,0x160,0xA7,0x161,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0x17D,0xB5,0xB6,0xB7,0x17E,0xB9,0xBA,0xBB,0x152,0x153,0x178,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF],
    // iso_8859_16
    [0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8A,0x8B,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9A,0x9B,0x9C,0x9D,0x9E,0x9F,0xA0,0x104,0x105,0x141,0x20AC,0x201E,0x160,0xA7,0x161,0xA9,0x218,0xAB,0x179,0xAD,0x17A,0x17B,0xB0,0xB1,0x10C,0x142,0x17D,0x201D,0xB6,0xB7,0x17E,0x10D,0x219,0xBB,0x152,0x153,0x178,0x17C,0xC0,0xC1,0xC2,0x102,0xC4,0x106,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0x110,0x143,0xD2,0xD3,0xD4,0x150,0xD6,0x15A,0x170,0xD9,0xDA,0xDB,0xDC,0x118,0x21A,0xDF,0xE0,0xE1,0xE2,0x103,0xE4,0x107,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0x111,0x144,0xF2,0xF3,0xF4,0x151,0xF6,0x15B,0x171,0xF9,0xFA,0xFB,0xFC,0x119,0x21B,0xFF],
    // koi8_r
    [0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,0x2591,0x2592,0x2593,0x2320,0x25A0,0x2219,0x221A,0x2248,0x2264,0x2265,0xA0,0x2321,0xB0,0xB2,0xB7,0xF7,0x2550,0x2551,0x2552,0x451,0x2553,0x2554,0x2555,0x2556,0x2557,0x2558,0x2559,0x255A,0x255B,0x255C,0x255D,0x255E,0x255F,0x2560,0x2561,0x401,0x2562,0x2563,0x2564,0x2565,0x2566,0x2567,0x2568,0x2569,0x256A,0x256B,0x256C,0xA9,0x44E,0x430,0x431,0x446,0x434,0x435,0x444,0x433,0x445,0x438,0x439,0x43A,0x43B,0x43C,0x43D,0x43E,0x43F,0x44F,0x440,0x441,0x442,0x443,0x436,0x432,0x44C,0x44B,0x437,0x448,0x44D,0x449,0x447,0x44A,0x42E,0x410,0x411,0x426,0x414,0x415,0x424,0x413,0x425,0x418,0x419,0x41A,0x41B,0x41C,0x41D,0x41E,0x41F,0x42F,0x420,0x421,0x422,0x423,0x416,0x412,0x42C,0x42B,0x417,0x428,0x42D,0x429,0x427,0x42A],
    // koi8_u
    [0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,0x2591,0x2592,0x2593,0x2320,0x25A0,0x2219,0x221A,0x2248,0x2264,0x2265,0xA0,0x2321,0xB0,0xB2,0xB7,0xF7,0x2550,0x2551,0x2552,0x451,0x454,0x2554,0x456,0x457,0x2557,0x2558,0x2559,0x255A,0x255B,0x491,0x255D,0x255E,0x255F,0x2560,0x2561,0x401,0x404,0x2563,0x406,0x407,0x2566,0x2567,0x2568,0x2569,0x256A,0x490,0x256C,0xA9,0x44E,0x430,0x431,0x446,0x434,0x435,0x444,0x433,0x445,0x438,0x439,0x43A,0x43B,0x43C,0x43D,0x43E,0x43F,0x44F,0x440,0x441,0x442,0x443,0x436,0x432,0x44C,0x44B,0x437,0x448,0x44D,0x449,0x447,0x44A,0x42E,0x410,0x411,0x426,0x414,0x415,0x424,0x413,0x425,0x418,0x419,0x41A,0x41B,0x41C,0x41D,0x41E,0x41F,0x42F,0x420,0x421,0x422,0x423,0x416,0x412,0x42C,0x42B,0x417,0x428,0x42D,0x429,0x427,0x42A],
    // mac_roman
    [0xC4,0xC5,0xC7,0xC9,0xD1,0xD6,0xDC,0xE1,0xE0,0xE2,0xE4,0xE3,0xE5,0xE7,0xE9,0xE8,0xEA,0xEB,0xED,0xEC,0xEE,0xEF,0xF1,0xF3,0xF2,0xF4,0xF6,0xF5,0xFA,0xF9,0xFB,0xFC,0x2020,0xB0,0xA2,0xA3,0xA7,0x2022,0xB6,0xDF,0xAE,0xA9,0x2122,0xB4,0xA8,0x2260,0xC6,0xD8,0x221E,0xB1,0x2264,0x2265,0xA5,0xB5,0x2202,0x2211,0x220F,0x3C0,0x222B,0xAA,0xBA,0x3A9,0xE6,0xF8,0xBF,0xA1,0xAC,0x221A,0x192,0x2248,0x2206,0xAB,0xBB,0x2026,0xA0,0xC0,0xC3,0xD5,0x152,0x153,0x2013,0x2014,0x201C,0x201D,0x2018,0x2019,0xF7,0x25CA,0xFF,0x178,0x2044,0x20AC,0x2039,0x203A,0xFB01,0xFB02,0x2021,0xB7,0x201A,0x201E,0x2030,0xC2,0xCA,0xC1,0xCB,0xC8,0xCD,0xCE,0xCF,0xCC,0xD3,0xD4,0xF8FF,0xD2,0xDA,0xDB,0xD9,0x131,0x2C6,0x2DC,0xAF,0x2D8,0x2D9,0x2DA,0xB8,0x2DD,0x2DB,0x2C7],
    // mac_cyrillic
    [0x410,0x411,0x412,0x413,0x414,0x415,0x416,0x417,0x418,0x419,0x41A,0x41B,0x41C,0x41D,0x41E,0x41F,0x420,0x421,0x422,0x423,0x424,0x425,0x426,0x427,0x428,0x429,0x42A,0x42B,0x42C,0x42D,0x42E,0x42F,0x2020,0xB0,0x490,0xA3,0xA7,0x2022,0xB6,0x406,0xAE,0xA9,0x2122,0x402,0x452,0x2260,0x403,0x453,0x221E,0xB1,0x2264,0x2265,0x456,0xB5,0x491,0x408,0x404,0x454,0x407,0x457,0x409,0x459,0x40A,0x45A,0x458,0x405,0xAC,0x221A,0x192,0x2248,0x2206,0xAB,0xBB,0x2026,0xA0,0x40B,0x45B,0x40C,0x45C,0x455,0x2013,0x2014,0x201C,0x201D,0x2018,0x2019,0xF7,0x201E,0x40E,0x45E,0x40F,0x45F,0x2116,0x401,0x451,0x44F,0x430,0x431,0x432,0x433,0x434,0x435,0x436,0x437,0x438,0x439,0x43A,0x43B,0x43C,0x43D,0x43E,0x43F,0x440,0x441,0x442,0x443,0x444,0x445,0x446,0x447,0x448,0x449,0x44A,0x44B,0x44C,0x44D,0x44E,0x20AC],
    // windows_874
    [0x20AC,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2026,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xA0,0xE01,0xE02,0xE03,0xE04,0xE05,0xE06,0xE07,0xE08,0xE09,0xE0A,0xE0B,0xE0C,0xE0D,0xE0E,0xE0F,0xE10,0xE11,0xE12,0xE13,0xE14,0xE15,0xE16,0xE17,0xE18,0xE19,0xE1A,0xE1B,0xE1C,0xE1D,0xE1E,0xE1F,0xE20,0xE21,0xE22,0xE23,0xE24,0xE25,0xE26,0xE27,0xE28,0xE29,0xE2A,0xE2B,0xE2C,0xE2D,0xE2E,0xE2F,0xE30,0xE31,0xE32,0xE33,0xE34,0xE35,0xE36,0xE37,0xE38,0xE39,0xE3A,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xE3F,0xE40,0xE41,0xE42,0xE43,0xE44,0xE45,0xE46,0xE47,0xE48,0xE49,0xE4A,0xE4B,0xE4C,0xE4D,0xE4E,0xE4F,0xE50,0xE51,0xE52,0xE53,0xE54,0xE55,0xE56,0xE57,0xE58,0xE59,0xE5A,0xE5B,0xFFFD,0xFFFD,0xFFFD,0xFFFD],
    // windows_1250
    [0x20AC,0xFFFD,0x201A,0xFFFD,0x201E,0x2026,0x2020,0x2021,0xFFFD,0x2030,0x160,0x2039,0x15A,0x164,0x17D,0x179,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0xFFFD,0x2122,0x161,0x203A,0x15B,0x165,0x17E,0x17A,0xA0,0x2C7,0x2D8,0x141,0xA4,0x104,0xA6,0xA7,0xA8,0xA9,0x15E,0xAB,0xAC,0xAD,0xAE,0x17B,0xB0,0xB1,0x2DB,0x142,0xB4,0xB5,0xB6,0xB7,0xB8,0x105,0x15F,0xBB,0x13D,0x2DD,0x13E,0x17C,0x154,0xC1,0xC2,0x102,0xC4,0x139,0x106,0xC7,0x10C,0xC9,0x118,0xCB,0x11A,0xCD,0xCE,0x10E,0x110,0x143,0x147,0xD3,0xD4,0x150,0xD6,0xD7,0x158,0x16E,0xDA,0x170,0xDC,0xDD,0x162,0xDF,0x155,0xE1,0xE2,0x103,0xE4,0x13A,0x107,0xE7,0x10D,0xE9,0x119,0xEB,0x11B,0xED,0xEE,0x10F,0x111,0x144,0x148,0xF3,0xF4,0x151,0xF6,0xF7,0x159,0x16F,0xFA,0x171,0xFC,0xFD,0x163,0x2D9],
    // windows_1251
    [0x402,0x403,0x201A,0x453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x409,0x2039,0x40A,0x40C,0x40B,0x40F,0x452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0xFFFD,0x2122,0x459,0x203A,0x45A,0x45C,0x45B,0x45F,0xA0,0x40E,0x45E,0x408,0xA4,0x490,0xA6,0xA7,0x401,0xA9,0x404,0xAB,0xAC,0xAD,0xAE,0x407,0xB0,0xB1,0x406,0x456,0x491,0xB5,0xB6,0xB7,0x451,0x2116,0x454,0xBB,0x458,0x405,0x455,0x457,0x410,0x411,0x412,0x413,0x414,0x415,0x416,0x417,0x418,0x419,0x41A,0x41B,0x41C,0x41D,0x41E,0x41F,0x420,0x421,0x422,0x423,0x424,0x425,0x426,0x427,0x428,0x429,0x42A,0x42B,0x42C,0x42D,0x42E,0x42F,0x430,0x431,0x432,0x433,0x434,0x435,0x436,0x437,0x438,0x439,0x43A,0x43B,0x43C,0x43D,0x43E,0x43F,0x440,0x441,0x442,0x443,0x444,0x445,0x446,0x447,0x448,0x449,0x44A,0x44B,0x44C,0x44D,0x44E,0x44F],
    // windows_1252
    [0x20AC,0xFFFD,0x201A,0x192,0x201E,0x2026,0x2020,0x2021,0x2C6,0x2030,0x160,0x2039,0x152,0xFFFD,0x17D,0xFFFD,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x2DC,0x2122,0x161,0x203A,0x153,0xFFFD,0x17E,0x178,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0xD0,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0xDD,0xDE,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0xFD,0xFE,0xFF],
    // windows_1253
    [0x20AC,0xFFFD,0x201A,0x192,0x201E,0x2026,0x2020,0x2021,0xFFFD,0x2030,0xFFFD,0x2039,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0xFFFD,0x2122,0xFFFD,0x203A,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xA0,0x385,0x386,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xFFFD,0xAB,0xAC,0xAD,0xAE,0x2015,0xB0,0xB1,0xB2,0xB3,0x384,0xB5,0xB6,0xB7,0x388,0x389,0x38A,0xBB,0x38C,0xBD,0x38E,0x38F,0x390,0x391,0x392,0x393,0x394,0x395,0x396,0x397,0x398,0x399,0x39A,0x39B,0x39C,0x39D,0x39E,0x39F,0x3A0,0x3A1,0xFFFD,0x3A3,0x3A4,0x3A5,0x3A6,0x3A7,0x3A8,0x3A9,0x3AA,0x3AB,0x3AC,0x3AD,0x3AE,0x3AF,0x3B0,0x3B1,0x3B2,0x3B3,0x3B4,0x3B5,0x3B6,0x3B7,0x3B8,0x3B9,0x3BA,0x3BB,0x3BC,0x3BD,0x3BE,0x3BF,0x3C0,0x3C1,0x3C2,0x3C3,0x3C4,0x3C5,0x3C6,0x3C7,0x3C8,0x3C9,0x3CA,0x3CB,0x3CC,0x3CD,0x3CE,0xFFFD],
    // windows_1254
    [0x20AC,0xFFFD,0x201A,0x192,0x201E,0x2026,0x2020,0x2021,0x2C6,0x2030,0x160,0x2039,0x152,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x2DC,0x2122,0x161,0x203A,0x153,0xFFFD,0xFFFD,0x178,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0xC3,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0xCC,0xCD,0xCE,0xCF,0x11E,0xD1,0xD2,0xD3,0xD4,0xD5,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0x130,0x15E,0xDF,0xE0,0xE1,0xE2,0xE3,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0xEC,0xED,0xEE,0xEF,0x11F,0xF1,0xF2,0xF3,0xF4,0xF5,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0x131,0x15F,0xFF],
    // windows_1255
    [0x20AC,0xFFFD,0x201A,0x192,0x201E,0x2026,0x2020,0x2021,0x2C6,0x2030,0xFFFD,0x2039,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x2DC,0x2122,0xFFFD,0x203A,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xA0,0xA1,0xA2,0xA3,0x20AA,0xA5,0xA6,0xA7,0xA8,0xA9,0xD7,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xF7,0xBB,0xBC,0xBD,0xBE,0xBF,0x5B0,0x5B1,0x5B2,0x5B3,0x5B4,0x5B5,0x5B6,0x5B7,0x5B8,0x5B9,0xFFFD,0x5BB,0x5BC,0x5BD,0x5BE,0x5BF,0x5C0,0x5C1,0x5C2,0x5C3,0x5F0,0x5F1,0x5F2,0x5F3,0x5F4,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x5D0,0x5D1,0x5D2,0x5D3,0x5D4,0x5D5,0x5D6,0x5D7,0x5D8,0x5D9,0x5DA,0x5DB,0x5DC,0x5DD,0x5DE,0x5DF,0x5E0,0x5E1,0x5E2,0x5E3,0x5E4,0x5E5,0x5E6,0x5E7,0x5E8,0x5E9,0x5EA,0xFFFD,0xFFFD,0x200E,0x200F,0xFFFD],
    // windows_1256
    [0x20AC,0x67E,0x201A,0x192,0x201E,0x2026,0x2020,0x2021,0x2C6,0x2030,0x679,0x2039,0x152,0x686,0x698,0x688,0x6AF,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x6A9,0x2122,0x691,0x203A,0x153,0x200C,0x200D,0x6BA,0xA0,0x60C,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0x6BE,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0x61B,0xBB,0xBC,0xBD,0xBE,0x61F,0x6C1,0x621,0x622,0x623,0x624,0x625,0x626,0x627,0x628,0x629,0x62A,0x62B,0x62C,0x62D,0x62E,0x62F,0x630,0x631,0x632,0x633,0x634,0x635,0x636,0xD7,0x637,0x638,0x639,0x63A,0x640,0x641,0x642,0x643,0xE0,0x644,0xE2,0x645,0x646,0x647,0x648,0xE7,0xE8,0xE9,0xEA,0xEB,0x649,0x64A,0xEE,0xEF,0x64B,0x64C,0x64D,0x64E,0xF4,0x64F,0x650,0xF7,0x651,0xF9,0x652,0xFB,0xFC,0x200E,0x200F,0x6D2],
    // windows_1257
    [0x20AC,0xFFFD,0x201A,0xFFFD,0x201E,0x2026,0x2020,0x2021,0xFFFD,0x2030,0xFFFD,0x2039,0xFFFD,0xA8,0x2C7,0xB8,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0xFFFD,0x2122,0xFFFD,0x203A,0xFFFD,0xAF,0x2DB,0xFFFD,0xA0,0xFFFD,0xA2,0xA3,0xA4,0xFFFD,0xA6,0xA7,0xD8,0xA9,0x156,0xAB,0xAC,0xAD,0xAE,0xC6,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xF8,0xB9,0x157,0xBB,0xBC,0xBD,0xBE,0xE6,0x104,0x12E,0x100,0x106,0xC4,0xC5,0x118,0x112,0x10C,0xC9,0x179,0x116,0x122,0x136,0x12A,0x13B,0x160,0x143,0x145,0xD3,0x14C,0xD5,0xD6,0xD7,0x172,0x141,0x15A,0x16A,0xDC,0x17B,0x17D,0xDF,0x105,0x12F,0x101,0x107,0xE4,0xE5,0x119,0x113,0x10D,0xE9,0x17A,0x117,0x123,0x137,0x12B,0x13C,0x161,0x144,0x146,0xF3,0x14D,0xF5,0xF6,0xF7,0x173,0x142,0x15B,0x16B,0xFC,0x17C,0x17E,0x2D9],
    // windows_1258
    [0x20AC,0xFFFD,0x201A,0x192,0x201E,0x2026,0x2020,0x2021,0x2C6,0x2030,0xFFFD,0x2039,0x152,0xFFFD,0xFFFD,0xFFFD,0xFFFD,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x2DC,0x2122,0xFFFD,0x203A,0x153,0xFFFD,0xFFFD,0x178,0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xA7,0xA8,0xA9,0xAA,0xAB,0xAC,0xAD,0xAE,0xAF,0xB0,0xB1,0xB2,0xB3,0xB4,0xB5,0xB6,0xB7,0xB8,0xB9,0xBA,0xBB,0xBC,0xBD,0xBE,0xBF,0xC0,0xC1,0xC2,0x102,0xC4,0xC5,0xC6,0xC7,0xC8,0xC9,0xCA,0xCB,0x300,0xCD,0xCE,0xCF,0x110,0xD1,0x309,0xD3,0xD4,0x1A0,0xD6,0xD7,0xD8,0xD9,0xDA,0xDB,0xDC,0x1AF,0x303,0xDF,0xE0,0xE1,0xE2,0x103,0xE4,0xE5,0xE6,0xE7,0xE8,0xE9,0xEA,0xEB,0x301,0xED,0xEE,0xEF,0x111,0xF1,0x323,0xF3,0xF4,0x1A1,0xF6,0xF7,0xF8,0xF9,0xFA,0xFB,0xFC,0x1B0,0x20AB,0xFF],
];
pub static BIG5_DEC: [u32; 19782] = [
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,17392,19506,
    17923,17830,17784,160359,19831,17843,162993,19682,163013,15253,18230,18244,19527,19520,148159,144919,
    160594,159371,159954,19543,172881,18255,17882,19589,162924,19719,19108,18081,158499,29221,154196,137827,
    146950,147297,26189,22267,0,32149,22813,166841,15860,38708,162799,23515,138590,23204,13861,171696,
    23249,23479,23804,26478,34195,170309,29793,29853,14453,138579,145054,155681,16108,153822,15093,31484,
    40855,147809,166157,143850,133770,143966,17162,33924,40854,37935,18736,34323,22678,38730,37400,31184,
    31282,26208,27177,34973,29772,31685,26498,31276,21071,36934,13542,29636,155065,29894,40903,22451,
    18735,21580,16689,145038,22552,31346,162661,35727,18094,159368,16769,155033,31662,140476,40904,140481,
    140489,140492,40905,34052,144827,16564,40906,17633,175615,25281,28782,40907,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,12736,12737,12738,12739,12740,
    131340,12741,131281,131277,12742,12743,131275,139240,12744,131274,12745,12746,12747,12748,131342,12749,
    12750,256,193,461,192,274,201,282,200,332,211,465,210,0,7870,0,
    7872,202,257,225,462,224,593,275,233,283,232,299,237,464,236,333,
    243,466,242,363,250,468,249,470,472,474,476,252,0,7871,0,7873,
    234,609,9178,9179,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,172969,135493,0,25866,0,0,20029,28381,
    40270,37343,0,0,161589,25745,20250,20264,20392,20822,20852,20892,20964,21153,21160,21307,
    21326,21457,21464,22242,22768,22788,22791,22834,22836,23398,23454,23455,23706,24198,24635,25993,
    26622,26628,26725,27982,28860,30005,32420,32428,32442,32455,32463,32479,32518,32567,33402,33487,
    33647,35270,35774,35810,36710,36711,36718,29713,31996,32205,26950,31433,21031,0,0,0,
    0,37260,30904,37214,32956,0,36107,33014,133607,0,0,32927,40647,19661,40393,40460,
    19518,171510,159758,40458,172339,13761,0,28314,33342,29977,0,18705,39532,39567,40857,31111,
    164972,138698,132560,142054,20004,20097,20096,20103,20159,20203,20279,13388,20413,15944,20483,20616,
    13437,13459,13477,20870,22789,20955,20988,20997,20105,21113,21136,21287,13767,21417,13649,21424,
    13651,21442,21539,13677,13682,13953,21651,21667,21684,21689,21712,21743,21784,21795,21800,13720,
    21823,13733,13759,21975,13765,163204,21797,0,134210,134421,151851,21904,142534,14828,131905,36422,
    150968,169189,16467,164030,30586,142392,14900,18389,164189,158194,151018,25821,134524,135092,134357,135412,
    25741,36478,134806,134155,135012,142505,164438,148691,0,134470,170573,164073,18420,151207,142530,39602,
    14951,169460,16365,13574,152263,169940,161992,142660,40302,38933,0,17369,155813,25780,21731,142668,
    142282,135287,14843,135279,157402,157462,162208,25834,151634,134211,36456,139681,166732,132913,0,18443,
    131497,16378,22643,142733,0,148936,132348,155799,134988,134550,21881,16571,17338,0,19124,141926,
    135325,33194,39157,134556,25465,14846,141173,36288,22177,25724,15939,0,173569,134665,142031,142537,
    0,135368,145858,14738,14854,164507,13688,155209,139463,22098,134961,142514,169760,13500,27709,151099,
    0,0,161140,142987,139784,173659,167117,134778,134196,157724,32659,135375,141315,141625,13819,152035,
    134796,135053,134826,16275,134960,134471,135503,134732,0,134827,134057,134472,135360,135485,16377,140950,
    25650,135085,144372,161337,142286,134526,134527,142417,142421,14872,134808,135367,134958,173618,158544,167122,
    167321,167114,38314,21708,33476,21945,0,171715,39974,39606,161630,142830,28992,33133,33004,23580,
    157042,33076,14231,21343,164029,37302,134906,134671,134775,134907,13789,151019,13833,134358,22191,141237,
    135369,134672,134776,135288,135496,164359,136277,134777,151120,142756,23124,135197,135198,135413,135414,22428,
    134673,161428,164557,135093,134779,151934,14083,135094,135552,152280,172733,149978,137274,147831,164476,22681,
    21096,13850,153405,31666,23400,18432,19244,40743,18919,39967,39821,154484,143677,22011,13810,22153,
    20008,22786,138177,194680,38737,131206,20059,20155,13630,23587,24401,24516,14586,25164,25909,27514,
    27701,27706,28780,29227,20012,29357,149737,32594,31035,31993,32595,156266,13505,0,156491,32770,
    32896,157202,158033,21341,34916,35265,161970,35744,36125,38021,38264,38271,38376,167439,38886,39029,
    39118,39134,39267,170000,40060,40479,40644,27503,63751,20023,131207,38429,25143,38050,0,20539,
    28158,171123,40870,15817,34959,147790,28791,23797,19232,152013,13657,154928,24866,166450,36775,37366,
    29073,26393,29626,144001,172295,15499,137600,19216,30948,29698,20910,165647,16393,27235,172730,16931,
    34319,133743,31274,170311,166634,38741,28749,21284,139390,37876,30425,166371,40871,30685,20131,20464,
    20668,20015,20247,40872,21556,32139,22674,22736,138678,24210,24217,24514,141074,25995,144377,26905,
    27203,146531,27903,0,29184,148741,29580,16091,150035,23317,29881,35715,154788,153237,31379,31724,
    31939,32364,33528,34199,40873,34960,40874,36537,40875,36815,34143,39392,37409,40876,167353,136255,
    16497,17058,23066,0,0,0,39016,26475,17014,22333,0,34262,149883,33471,160013,19585,
    159092,23931,158485,159678,40877,40878,23446,40879,26343,32347,28247,31178,15752,17603,143958,141206,
    17306,17718,0,23765,146202,35577,23672,15634,144721,23928,40882,29015,17752,147692,138787,19575,
    14712,13386,131492,158785,35532,20404,131641,22975,33132,38998,170234,24379,134047,0,139713,166253,
    16642,18107,168057,16135,40883,172469,16632,14294,18167,158790,16764,165554,160767,17773,14548,152730,
    17761,17691,19849,19579,19830,17898,16328,150287,13921,17630,17597,16877,23870,23880,23894,15868,
    14351,23972,23993,14368,14392,24130,24253,24357,24451,14600,14612,14655,14669,24791,24893,23781,
    14729,25015,25017,25039,14776,25132,25232,25317,25368,14840,22193,14851,25570,25595,25607,25690,
    14923,25792,23829,22049,40863,14999,25990,15037,26111,26195,15090,26258,15138,26390,15170,26532,
    26624,15192,26698,26756,15218,15217,15227,26889,26947,29276,26980,27039,27013,15292,27094,15325,
    27237,27252,27249,27266,15340,27289,15346,27307,27317,27348,27382,27521,27585,27626,27765,27818,
    15563,27906,27910,27942,28033,15599,28068,28081,28181,28184,28201,28294,166336,28347,28386,28378,
    40831,28392,28393,28452,28468,15686,147265,28545,28606,15722,15733,29111,23705,15754,28716,15761,
    28752,28756,28783,28799,28809,131877,17345,13809,134872,147159,22462,159443,28990,153568,13902,27042,
    166889,23412,31305,153825,169177,31333,31357,154028,31419,31408,31426,31427,29137,156813,16842,31450,
    31453,31466,16879,21682,154625,31499,31573,31529,152334,154878,31650,31599,33692,154548,158847,31696,
    33825,31634,31672,154912,15789,154725,33938,31738,31750,31797,154817,31812,31875,149634,31910,26237,
    148856,31945,31943,31974,31860,31987,31989,31950,32359,17693,159300,32093,159446,29837,32137,32171,
    28981,32179,32210,147543,155689,32228,15635,32245,137209,32229,164717,32285,155937,155994,32366,32402,
    17195,37996,32295,32576,32577,32583,31030,156368,39393,32663,156497,32675,136801,131176,17756,145254,
    17667,164666,32762,156809,32773,32776,32797,32808,32815,172167,158915,32827,32828,32865,141076,18825,
    157222,146915,157416,26405,32935,166472,33031,33050,22704,141046,27775,156824,151480,25831,136330,33304,
    137310,27219,150117,150165,17530,33321,133901,158290,146814,20473,136445,34018,33634,158474,149927,144688,
    137075,146936,33450,26907,194964,16859,34123,33488,33562,134678,137140,14017,143741,144730,33403,33506,
    33560,147083,159139,158469,158615,144846,15807,33565,21996,33669,17675,159141,33708,33729,33747,13438,
    159444,27223,34138,13462,159298,143087,33880,154596,33905,15827,17636,27303,33866,146613,31064,33960,
    158614,159351,159299,34014,33807,33681,17568,33939,34020,154769,16960,154816,17731,34100,23282,159385,
    17703,34163,17686,26559,34326,165413,165435,34241,159880,34306,136578,159949,194994,17770,34344,13896,
    137378,21495,160666,34430,34673,172280,34798,142375,34737,34778,34831,22113,34412,26710,17935,34885,
    34886,161248,146873,161252,34910,34972,18011,34996,34997,25537,35013,30583,161551,35207,35210,35238,
    35241,35239,35260,166437,35303,162084,162493,35484,30611,37374,35472,162393,31465,162618,147343,18195,
    162616,29052,35596,35615,152624,152933,35647,35660,35661,35497,150138,35728,35739,35503,136927,17941,
    34895,35995,163156,163215,195028,14117,163155,36054,163224,163261,36114,36099,137488,36059,28764,36113,
    150729,16080,36215,36265,163842,135188,149898,15228,164284,160012,31463,36525,36534,36547,37588,36633,
    36653,164709,164882,36773,37635,172703,133712,36787,18730,166366,165181,146875,24312,143970,36857,172052,
    165564,165121,140069,14720,159447,36919,165180,162494,36961,165228,165387,37032,165651,37060,165606,37038,
    37117,37223,15088,37289,37316,31916,166195,138889,37390,27807,37441,37474,153017,37561,166598,146587,
    166668,153051,134449,37676,37739,166625,166891,28815,23235,166626,166629,18789,37444,166892,166969,166911,
    37747,37979,36540,38277,38310,37926,38304,28662,17081,140922,165592,135804,146990,18911,27676,38523,
    38550,16748,38563,159445,25050,38582,30965,166624,38589,21452,18849,158904,131700,156688,168111,168165,
    150225,137493,144138,38705,34370,38710,18959,17725,17797,150249,28789,23361,38683,38748,168405,38743,
    23370,168427,38751,37925,20688,143543,143548,38793,38815,38833,38846,38848,38866,38880,152684,38894,
    29724,169011,38911,38901,168989,162170,19153,38964,38963,38987,39014,15118,160117,15697,132656,147804,
    153350,39114,39095,39112,39111,19199,159015,136915,21936,39137,39142,39148,37752,39225,150057,19314,
    170071,170245,39413,39436,39483,39440,39512,153381,14020,168113,170965,39648,39650,170757,39668,19470,
    39700,39725,165376,20532,39732,158120,14531,143485,39760,39744,171326,23109,137315,39822,148043,39938,
    39935,39948,171624,40404,171959,172434,172459,172257,172323,172511,40318,40323,172340,40462,26760,40388,
    139611,172435,172576,137531,172595,40249,172217,172724,40592,40597,40606,40610,19764,40618,40623,148324,
    40641,15200,14821,15645,20274,14270,166955,40706,40712,19350,37924,159138,40727,40726,40761,22175,
    22154,40773,39352,168075,38898,33919,40802,40809,31452,40846,29206,19390,149877,149947,29047,150008,
    148296,150097,29598,166874,137466,31135,166270,167478,37737,37875,166468,37612,37761,37835,166252,148665,
    29207,16107,30578,31299,28880,148595,148472,29054,137199,28835,137406,144793,16071,137349,152623,137208,
    14114,136955,137273,14049,137076,137425,155467,14115,136896,22363,150053,136190,135848,136134,136374,34051,
    145062,34051,33877,149908,160101,146993,152924,147195,159826,17652,145134,170397,159526,26617,14131,15381,
    15847,22636,137506,26640,16471,145215,147681,147595,147727,158753,21707,22174,157361,22162,135135,134056,
    134669,37830,166675,37788,20216,20779,14361,148534,20156,132197,131967,20299,20362,153169,23144,131499,
    132043,14745,131850,132116,13365,20265,131776,167603,131701,35546,131596,20120,20685,20749,20386,20227,
    150030,147082,20290,20526,20588,20609,20428,20453,20568,20732,20825,20827,20829,20830,28278,144789,
    147001,147135,28018,137348,147081,20904,20931,132576,17629,132259,132242,132241,36218,166556,132878,21081,
    21156,133235,21217,37742,18042,29068,148364,134176,149932,135396,27089,134685,29817,16094,29849,29716,
    29782,29592,19342,150204,147597,21456,13700,29199,147657,21940,131909,21709,134086,22301,37469,38644,
    37734,22493,22413,22399,13886,22731,23193,166470,136954,137071,136976,23084,22968,37519,23166,23247,
    23058,153926,137715,137313,148117,14069,27909,29763,23073,155267,23169,166871,132115,37856,29836,135939,
    28933,18802,37896,166395,37821,14240,23582,23710,24158,24136,137622,137596,146158,24269,23375,137475,
    137476,14081,137376,14045,136958,14035,33066,166471,138682,144498,166312,24332,24334,137511,137131,23147,
    137019,23364,34324,161277,34912,24702,141408,140843,24539,16056,140719,140734,168072,159603,25024,131134,
    131142,140827,24985,24984,24693,142491,142599,149204,168269,25713,149093,142186,14889,142114,144464,170218,
    142968,25399,173147,25782,25393,25553,149987,142695,25252,142497,25659,25963,26994,15348,143502,144045,
    149897,144043,21773,144096,137433,169023,26318,144009,143795,15072,16784,152964,166690,152975,136956,152923,
    152613,30958,143619,137258,143924,13412,143887,143746,148169,26254,159012,26219,19347,26160,161904,138731,
    26211,144082,144097,26142,153714,14545,145466,145340,15257,145314,144382,29904,15254,26511,149034,26806,
    26654,15300,27326,14435,145365,148615,27187,27218,27337,27397,137490,25873,26776,27212,15319,27258,
    27479,147392,146586,37792,37618,166890,166603,37513,163870,166364,37991,28069,28427,149996,28007,147327,
    15759,28164,147516,23101,28170,22599,27940,30786,28987,148250,148086,28913,29264,29319,29332,149391,
    149285,20857,150180,132587,29818,147192,144991,150090,149783,155617,16134,16049,150239,166947,147253,24743,
    16115,29900,29756,37767,29751,17567,159210,17745,30083,16227,150745,150790,16216,30037,30323,173510,
    15129,29800,166604,149931,149902,15099,15821,150094,16127,149957,149747,37370,22322,37698,166627,137316,
    20703,152097,152039,30584,143922,30478,30479,30587,149143,145281,14942,149744,29752,29851,16063,150202,
    150215,16584,150166,156078,37639,152961,30750,30861,30856,30930,29648,31065,161601,153315,16654,31131,
    33942,31141,27181,147194,31290,31220,16750,136934,16690,37429,31217,134476,149900,131737,146874,137070,
    13719,21867,13680,13994,131540,134157,31458,23129,141045,154287,154268,23053,131675,30960,23082,154566,
    31486,16889,31837,31853,16913,154547,155324,155302,31949,150009,137136,31886,31868,31918,27314,32220,
    32263,32211,32590,156257,155996,162632,32151,155266,17002,158581,133398,26582,131150,144847,22468,156690,
    156664,149858,32733,31527,133164,154345,154947,31500,155150,39398,34373,39523,27164,144447,14818,150007,
    157101,39455,157088,33920,160039,158929,17642,33079,17410,32966,33033,33090,157620,39107,158274,33378,
    33381,158289,33875,159143,34320,160283,23174,16767,137280,23339,137377,23268,137432,34464,195004,146831,
    34861,160802,23042,34926,20293,34951,35007,35046,35173,35149,153219,35156,161669,161668,166901,166873,
    166812,166393,16045,33955,18165,18127,14322,35389,35356,169032,24397,37419,148100,26068,28969,28868,
    137285,40301,35999,36073,163292,22938,30659,23024,17262,14036,36394,36519,150537,36656,36682,17140,
    27736,28603,140065,18587,28537,28299,137178,39913,14005,149807,37051,37015,21873,18694,37307,37892,
    166475,16482,166652,37927,166941,166971,34021,35371,38297,38311,38295,38294,167220,29765,16066,149759,
    150082,148458,16103,143909,38543,167655,167526,167525,16076,149997,150136,147438,29714,29803,16124,38721,
    168112,26695,18973,168083,153567,38749,37736,166281,166950,166703,156606,37562,23313,35689,18748,29689,
    147995,38811,38769,39224,134950,24001,166853,150194,38943,169178,37622,169431,37349,17600,166736,150119,
    166756,39132,166469,16128,37418,18725,33812,39227,39245,162566,15869,39323,19311,39338,39516,166757,
    153800,27279,39457,23294,39471,170225,19344,170312,39356,19389,19351,37757,22642,135938,22562,149944,
    136424,30788,141087,146872,26821,15741,37976,14631,24912,141185,141675,24839,40015,40019,40059,39989,
    39952,39807,39887,171565,39839,172533,172286,40225,19630,147716,40472,19632,40204,172468,172269,172275,
    170287,40357,33981,159250,159711,158594,34300,17715,159140,159364,159216,33824,34286,159232,145367,155748,
    31202,144796,144960,18733,149982,15714,37851,37566,37704,131775,30905,37495,37965,20452,13376,36964,
    152925,30781,30804,30902,30795,137047,143817,149825,13978,20338,28634,28633,28702,28702,21524,147893,
    22459,22771,22410,40214,22487,28980,13487,147884,29163,158784,151447,23336,137141,166473,24844,23246,
    23051,17084,148616,14124,19323,166396,37819,37816,137430,134941,33906,158912,136211,148218,142374,148417,
    22932,146871,157505,32168,155995,155812,149945,149899,166394,37605,29666,16105,29876,166755,137375,16097,
    150195,27352,29683,29691,16086,150078,150164,137177,150118,132007,136228,149989,29768,149782,28837,149878,
    37508,29670,37727,132350,37681,166606,166422,37766,166887,153045,18741,166530,29035,149827,134399,22180,
    132634,134123,134328,21762,31172,137210,32254,136898,150096,137298,17710,37889,14090,166592,149933,22960,
    137407,137347,160900,23201,14050,146779,14000,37471,23161,166529,137314,37748,15565,133812,19094,14730,
    20724,15721,15692,136092,29045,17147,164376,28175,168164,17643,27991,163407,28775,27823,15574,147437,
    146989,28162,28428,15727,132085,30033,14012,13512,18048,16090,18545,22980,37486,18750,36673,166940,
    158656,22546,22472,14038,136274,28926,148322,150129,143331,135856,140221,26809,26983,136088,144613,162804,
    145119,166531,145366,144378,150687,27162,145069,158903,33854,17631,17614,159014,159057,158850,159710,28439,
    160009,33597,137018,33773,158848,159827,137179,22921,23170,137139,23137,23153,137477,147964,14125,23023,
    137020,14023,29070,37776,26266,148133,23150,23083,148115,27179,147193,161590,148571,148170,28957,148057,
    166369,20400,159016,23746,148686,163405,148413,27148,148054,135940,28838,28979,148457,15781,27871,194597,
    150095,32357,23019,23855,15859,24412,150109,137183,32164,33830,21637,146170,144128,131604,22398,133333,
    132633,16357,139166,172726,28675,168283,23920,29583,31955,166489,168992,20424,32743,29389,29456,162548,
    29496,29497,153334,29505,29512,16041,162584,36972,29173,149746,29665,33270,16074,30476,16081,27810,
    22269,29721,29726,29727,16098,16112,16116,16122,29907,16142,16211,30018,30061,30066,30093,16252,
    30152,30172,16320,30285,16343,30324,16348,30330,151388,29064,22051,35200,22633,16413,30531,16441,
    26465,16453,13787,30616,16490,16495,23646,30654,30667,22770,30744,28857,30748,16552,30777,30791,
    30801,30822,33864,152885,31027,26627,31026,16643,16649,31121,31129,36795,31238,36796,16743,31377,
    16818,31420,33401,16836,31439,31451,16847,20001,31586,31596,31611,31762,31771,16992,17018,31867,
    31900,17036,31928,17044,31981,36755,28864,134351,32207,32212,32208,32253,32686,32692,29343,17303,
    32800,32805,31545,32814,32817,32852,15820,22452,28832,32951,33001,17389,33036,29482,33038,33042,
    30048,33044,17409,15161,33110,33113,33114,17427,22586,33148,33156,17445,33171,17453,33189,22511,
    33217,33252,33364,17551,33446,33398,33482,33496,33535,17584,33623,38505,27018,33797,28917,33892,
    24803,33928,17668,33982,34017,34040,34064,34104,34130,17723,34159,34160,34272,17783,34418,34450,
    34482,34543,38469,34699,17926,17943,34990,35071,35108,35143,35217,162151,35369,35384,35476,35508,
    35921,36052,36082,36124,18328,22623,36291,18413,20206,36410,21976,22356,36465,22005,36528,18487,
    36558,36578,36580,36589,36594,36791,36801,36810,36812,36915,39364,18605,39136,37395,18718,37416,
    37464,37483,37553,37550,37567,37603,37611,37619,37620,37629,37699,37764,37805,18757,18769,40639,
    37911,21249,37917,37933,37950,18794,37972,38009,38189,38306,18855,38388,38451,18917,26528,18980,
    38720,18997,38834,38850,22100,19172,24808,39097,19225,39153,22596,39182,39193,20916,39196,39223,
    39234,39261,39266,19312,39365,19357,39484,39695,31363,39785,39809,39901,39921,39924,19565,39968,
    14191,138178,40265,39994,40702,22096,40339,40381,40384,40444,38134,36790,40571,40620,40625,40637,
    40646,38108,40674,40689,40696,31432,40772,131220,131767,132000,26906,38083,22956,132311,22592,38081,
    14265,132565,132629,132726,136890,22359,29043,133826,133837,134079,21610,194619,134091,21662,134139,134203,
    134227,134245,134268,24807,134285,22138,134325,134365,134381,134511,134578,134600,26965,39983,34725,134660,
    134670,134871,135056,134957,134771,23584,135100,24075,135260,135247,135286,26398,135291,135304,135318,13895,
    135359,135379,135471,135483,21348,33965,135907,136053,135990,35713,136567,136729,137155,137159,20088,28859,
    137261,137578,137773,137797,138282,138352,138412,138952,25283,138965,139029,29080,26709,139333,27113,14024,
    139900,140247,140282,141098,141425,141647,33533,141671,141715,142037,35237,142056,36768,142094,38840,142143,
    38983,39613,142412,0,142472,142519,154600,142600,142610,142775,142741,142914,143220,143308,143411,143462,
    144159,144350,24497,26184,26303,162425,144743,144883,29185,149946,30679,144922,145174,32391,131910,22709,
    26382,26904,146087,161367,155618,146961,147129,161278,139418,18640,19128,147737,166554,148206,148237,147515,
    148276,148374,150085,132554,20946,132625,22943,138920,15294,146687,148484,148694,22408,149108,14747,149295,
    165352,170441,14178,139715,35678,166734,39382,149522,149755,150037,29193,150208,134264,22885,151205,151430,
    132985,36570,151596,21135,22335,29041,152217,152601,147274,150183,21948,152646,152686,158546,37332,13427,
    152895,161330,152926,18200,152930,152934,153543,149823,153693,20582,13563,144332,24798,153859,18300,166216,
    154286,154505,154630,138640,22433,29009,28598,155906,162834,36950,156082,151450,35682,156674,156746,23899,
    158711,36662,156804,137500,35562,150006,156808,147439,156946,19392,157119,157365,141083,37989,153569,24981,
    23079,194765,20411,22201,148769,157436,20074,149812,38486,28047,158909,13848,35191,157593,157806,156689,
    157790,29151,157895,31554,168128,133649,157990,37124,158009,31301,40432,158202,39462,158253,13919,156777,
    131105,31107,158260,158555,23852,144665,33743,158621,18128,158884,30011,34917,159150,22710,14108,140685,
    159819,160205,15444,160384,160389,37505,139642,160395,37680,160486,149968,27705,38047,160848,134904,34855,
    35061,141606,164979,137137,28344,150058,137248,14756,14009,23568,31203,17727,26294,171181,170148,35139,
    161740,161880,22230,16607,136714,14753,145199,164072,136133,29101,33638,162269,168360,23143,19639,159919,
    166315,162301,162314,162571,163174,147834,31555,31102,163849,28597,172767,27139,164632,21410,159239,37823,
    26678,38749,164207,163875,158133,136173,143919,163912,23941,166960,163971,22293,38947,166217,23979,149896,
    26046,27093,21458,150181,147329,15377,26422,163984,164084,164142,139169,164175,164233,164271,164378,164614,
    164655,164746,13770,164968,165546,18682,25574,166230,30728,37461,166328,17394,166375,17375,166376,166726,
    166868,23032,166921,36619,167877,168172,31569,168208,168252,15863,168286,150218,36816,29327,22155,169191,
    169449,169392,169400,169778,170193,170313,170346,170435,170536,170766,171354,171419,32415,171768,171811,19620,
    38215,172691,29090,172799,19857,36882,173515,19868,134300,36798,21953,36794,140464,36793,150163,17673,
    32383,28502,27313,20202,13540,166700,161949,14138,36480,137205,163876,166764,166809,162366,157359,15851,
    161365,146615,153141,153942,20122,155265,156248,22207,134765,36366,23405,147080,150686,25566,25296,137206,
    137339,25904,22061,154698,21530,152337,15814,171416,19581,22050,22046,32585,155352,22901,146752,34672,
    19996,135146,134473,145082,33047,40286,36120,30267,40005,30286,30649,37701,21554,33096,33527,22053,
    33074,33816,32957,21994,31074,22083,21526,134813,13774,22021,22001,26353,164578,13869,30004,22000,
    21946,21655,21874,134209,134294,24272,151880,134774,142434,134818,40619,32090,21982,135285,25245,38765,
    21652,36045,29174,37238,25596,25529,25598,21865,142147,40050,143027,20890,13535,134567,20903,21581,
    21790,21779,30310,36397,157834,30129,32950,34820,34694,35015,33206,33820,135361,17644,29444,149254,
    23440,33547,157843,22139,141044,163119,147875,163187,159440,160438,37232,135641,37384,146684,173737,134828,
    134905,29286,138402,18254,151490,163833,135147,16634,40029,25887,142752,18675,149472,171388,135148,134666,
    24674,161187,135149,0,155720,135559,29091,32398,40272,19994,19972,13687,23309,27826,21351,13996,
    14812,21373,13989,149016,22682,150382,33325,21579,22442,154261,133497,0,14930,140389,29556,171692,
    19721,39917,146686,171824,19547,151465,169374,171998,33884,146870,160434,157619,145184,25390,32037,147191,
    146988,14890,36872,21196,15988,13946,17897,132238,30272,23280,134838,30842,163630,22695,16575,22140,
    39819,23924,30292,173108,40581,19681,30201,14331,24857,143578,148466,0,22109,135849,22439,149859,
    171526,21044,159918,13741,27722,40316,31830,39737,22494,137068,23635,25811,169168,156469,160100,34477,
    134440,159010,150242,134513,0,20990,139023,23950,38659,138705,40577,36940,31519,39682,23761,31651,
    25192,25397,39679,31695,39722,31870,39726,31810,31878,39957,31740,39689,40727,39963,149822,40794,
    21875,23491,20477,40600,20466,21088,15878,21201,22375,20566,22967,24082,38856,40363,36700,21609,
    38836,39232,38842,21292,24880,26924,21466,39946,40194,19515,38465,27008,20646,30022,137069,39386,
    21107,0,37209,38529,37212,0,37201,167575,25471,159011,27338,22033,37262,30074,25221,132092,
    29519,31856,154657,146685,0,149785,30422,39837,20010,134356,33726,34882,0,23626,27072,20717,
    22394,21023,24053,20174,27697,131570,20281,21660,21722,21146,36226,13822,24332,13811,0,27474,
    37244,40869,39831,38958,39092,39610,40616,40580,29050,31508,0,27642,34840,32632,0,22048,
    173642,36471,40787,0,36308,36431,40476,36353,25218,164733,36392,36469,31443,150135,31294,30936,
    27882,35431,30215,166490,40742,27854,34774,30147,172722,30803,194624,36108,29410,29553,35629,29442,
    29937,36075,150203,34351,24506,34976,17591,0,137275,159237,0,35454,140571,0,24829,30311,
    39639,40260,37742,39823,34805,0,34831,36087,29484,38689,39856,13782,29362,19463,31825,39242,
    155993,24921,19460,40598,24957,0,22367,24943,25254,25145,25294,14940,25058,21418,144373,25444,
    26626,13778,23895,166850,36826,167481,0,20697,138566,30982,21298,38456,134971,16485,0,30718,
    0,31938,155418,31962,31277,32870,32867,32077,29957,29938,35220,33306,26380,32866,160902,32859,
    29936,33027,30500,35209,157644,30035,159441,34729,34766,33224,34700,35401,36013,35651,30507,29944,
    34010,13877,27058,36262,0,35241,29800,28089,34753,147473,29927,15835,29046,24740,24988,15569,
    29026,24695,0,32625,166701,29264,24809,19326,21024,15384,146631,155351,161366,152881,137540,135934,
    170243,159196,159917,23745,156077,166415,145015,131310,157766,151310,17762,23327,156492,40784,40614,156267,
    12288,65292,12289,12290,65294,8231,65307,65306,65311,65281,65072,8230,8229,65104,65105,65106,
    183,65108,65109,65110,65111,65372,8211,65073,8212,65075,9588,65076,65103,65288,65289,65077,
    65078,65371,65373,65079,65080,12308,12309,65081,65082,12304,12305,65083,65084,12298,12299,65085,
    65086,12296,12297,65087,65088,12300,12301,65089,65090,12302,12303,65091,65092,65113,65114,65115,
    65116,65117,65118,8216,8217,8220,8221,12317,12318,8245,8242,65283,65286,65290,8251,167,
    12291,9675,9679,9651,9650,9678,9734,9733,9671,9670,9633,9632,9661,9660,12963,8453,
    175,65507,65343,717,65097,65098,65101,65102,65099,65100,65119,65120,65121,65291,65293,215,
    247,177,8730,65308,65310,65309,8806,8807,8800,8734,8786,8801,65122,65123,65124,65125,
    65126,65374,8745,8746,8869,8736,8735,8895,13266,13265,8747,8750,8757,8756,9792,9794,
    8853,8857,8593,8595,8592,8594,8598,8599,8601,8600,8741,8739,65295,65340,8725,65128,
    65284,65509,12306,65504,65505,65285,65312,8451,8457,65129,65130,65131,13269,13212,13213,13214,
    13262,13217,13198,13199,13252,176,20825,20827,20830,20829,20833,20835,21991,29929,31950,9601,
    9602,9603,9604,9605,9606,9607,9608,9615,9614,9613,9612,9611,9610,9609,9532,9524,
    9516,9508,9500,9620,9472,9474,9621,9484,9488,9492,9496,9581,9582,9584,9583,9552,
    9566,9578,9569,9698,9699,9701,9700,9585,9586,9587,65296,65297,65298,65299,65300,65301,
    65302,65303,65304,65305,8544,8545,8546,8547,8548,8549,8550,8551,8552,8553,12321,12322,
    12323,12324,12325,12326,12327,12328,12329,21313,21316,21317,65313,65314,65315,65316,65317,65318,
    65319,65320,65321,65322,65323,65324,65325,65326,65327,65328,65329,65330,65331,65332,65333,65334,
    65335,65336,65337,65338,65345,65346,65347,65348,65349,65350,65351,65352,65353,65354,65355,65356,
    65357,65358,65359,65360,65361,65362,65363,65364,65365,65366,65367,65368,65369,65370,913,914,
    915,916,917,918,919,920,921,922,923,924,925,926,927,928,929,931,
    932,933,934,935,936,937,945,946,947,948,949,950,951,952,953,954,
    955,956,957,958,959,960,961,963,964,965,966,967,968,969,12549,12550,
    12551,12552,12553,12554,12555,12556,12557,12558,12559,12560,12561,12562,12563,12564,12565,12566,
    12567,12568,12569,12570,12571,12572,12573,12574,12575,12576,12577,12578,12579,12580,12581,12582,
    12583,12584,12585,729,713,714,711,715,9216,9217,9218,9219,9220,9221,9222,9223,
    9224,9225,9226,9227,9228,9229,9230,9231,9232,9233,9234,9235,9236,9237,9238,9239,
    9240,9241,9242,9243,9244,9245,9246,9247,9249,8364,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,19968,20057,19969,19971,20035,20061,20102,20108,20154,
    20799,20837,20843,20960,20992,20993,21147,21269,21313,21340,21448,19977,19979,19976,19978,20011,
    20024,20961,20037,20040,20063,20062,20110,20129,20800,20995,21242,21315,21449,21475,22303,22763,
    22805,22823,22899,23376,23377,23379,23544,23567,23586,23608,23665,24029,24037,24049,24050,24051,
    24062,24178,24318,24331,24339,25165,19985,19984,19981,20013,20016,20025,20043,23609,20104,20113,
    20117,20114,20116,20130,20161,20160,20163,20166,20167,20173,20170,20171,20164,20803,20801,20839,
    20845,20846,20844,20887,20982,20998,20999,21000,21243,21246,21247,21270,21305,21320,21319,21317,
    21342,21380,21451,21450,21453,22764,22825,22827,22826,22829,23380,23569,23588,23610,23663,24052,
    24187,24319,24340,24341,24515,25096,25142,25163,25166,25903,25991,26007,26020,26041,26085,26352,
    26376,26408,27424,27490,27513,27595,27604,27611,27663,27700,28779,29226,29238,29243,29255,29273,
    29275,29356,29579,19993,19990,19989,19988,19992,20027,20045,20047,20046,20197,20184,20180,20181,
    20182,20183,20195,20196,20185,20190,20805,20804,20873,20874,20908,20985,20986,20984,21002,21152,
    21151,21253,21254,21271,21277,20191,21322,21321,21345,21344,21359,21358,21435,21487,21476,21491,
    21484,21486,21481,21480,21500,21496,21493,21483,21478,21482,21490,21489,21488,21477,21485,21499,
    22235,22234,22806,22830,22833,22900,22902,23381,23427,23612,24040,24039,24038,24066,24067,24179,
    24188,24321,24344,24343,24517,25098,25171,25172,25170,25169,26021,26086,26414,26412,26410,26411,
    26413,27491,27597,27665,27664,27704,27713,27712,27710,29359,29572,29577,29916,29926,29976,29983,
    29992,29993,30000,30001,30002,30003,30091,30333,30382,30399,30446,30683,30690,30707,31034,31166,
    31348,31435,19998,19999,20050,20051,20073,20121,20132,20134,20133,20223,20233,20249,20234,20245,
    20237,20240,20241,20239,20210,20214,20219,20208,20211,20221,20225,20235,20809,20807,20806,20808,
    20840,20849,20877,20912,21015,21009,21010,21006,21014,21155,21256,21281,21280,21360,21361,21513,
    21519,21516,21514,21520,21505,21515,21508,21521,21517,21512,21507,21518,21510,21522,22240,22238,
    22237,22323,22320,22312,22317,22316,22319,22313,22809,22810,22839,22840,22916,22904,22915,22909,
    22905,22914,22913,23383,23384,23431,23432,23429,23433,23546,23574,23673,24030,24070,24182,24180,
    24335,24347,24537,24534,25102,25100,25101,25104,25187,25179,25176,25910,26089,26088,26092,26093,
    26354,26355,26377,26429,26420,26417,26421,27425,27492,27515,27670,27741,27735,27737,27743,27744,
    27728,27733,27745,27739,27725,27726,28784,29279,29277,30334,31481,31859,31992,32566,32650,32701,
    32769,32771,32780,32786,32819,32895,32905,32907,32908,33251,33258,33267,33276,33292,33307,33311,
    33390,33394,33406,34411,34880,34892,34915,35199,38433,20018,20136,20301,20303,20295,20311,20318,
    20276,20315,20309,20272,20304,20305,20285,20282,20280,20291,20308,20284,20294,20323,20316,20320,
    20271,20302,20278,20313,20317,20296,20314,20812,20811,20813,20853,20918,20919,21029,21028,21033,
    21034,21032,21163,21161,21162,21164,21283,21363,21365,21533,21549,21534,21566,21542,21582,21543,
    21574,21571,21555,21576,21570,21531,21545,21578,21561,21563,21560,21550,21557,21558,21536,21564,
    21568,21553,21547,21535,21548,22250,22256,22244,22251,22346,22353,22336,22349,22343,22350,22334,
    22352,22351,22331,22767,22846,22941,22930,22952,22942,22947,22937,22934,22925,22948,22931,22922,
    22949,23389,23388,23386,23387,23436,23435,23439,23596,23616,23617,23615,23614,23696,23697,23700,
    23692,24043,24076,24207,24199,24202,24311,24324,24351,24420,24418,24439,24441,24536,24524,24535,
    24525,24561,24555,24568,24554,25106,25105,25220,25239,25238,25216,25206,25225,25197,25226,25212,
    25214,25209,25203,25234,25199,25240,25198,25237,25235,25233,25222,25913,25915,25912,26097,26356,
    26463,26446,26447,26448,26449,26460,26454,26462,26441,26438,26464,26451,26455,27493,27599,27714,
    27742,27801,27777,27784,27785,27781,27803,27754,27770,27792,27760,27788,27752,27798,27794,27773,
    27779,27762,27774,27764,27782,27766,27789,27796,27800,27778,28790,28796,28797,28792,29282,29281,
    29280,29380,29378,29590,29996,29995,30007,30008,30338,30447,30691,31169,31168,31167,31350,31995,
    32597,32918,32915,32925,32920,32923,32922,32946,33391,33426,33419,33421,35211,35282,35328,35895,
    35910,35925,35997,36196,36208,36275,36523,36554,36763,36784,36802,36806,36805,36804,24033,37009,
    37026,37034,37030,37027,37193,37318,37324,38450,38446,38449,38442,38444,20006,20054,20083,20107,
    20123,20126,20139,20140,20335,20381,20365,20339,20351,20332,20379,20363,20358,20355,20336,20341,
    20360,20329,20347,20374,20350,20367,20369,20346,20820,20818,20821,20841,20855,20854,20856,20925,
    20989,21051,21048,21047,21050,21040,21038,21046,21057,21182,21179,21330,21332,21331,21329,21350,
    21367,21368,21369,21462,21460,21463,21619,21621,21654,21624,21653,21632,21627,21623,21636,21650,
    21638,21628,21648,21617,21622,21644,21658,21602,21608,21643,21629,21646,22266,22403,22391,22378,
    22377,22369,22374,22372,22396,22812,22857,22855,22856,22852,22868,22974,22971,22996,22969,22958,
    22993,22982,22992,22989,22987,22995,22986,22959,22963,22994,22981,23391,23396,23395,23447,23450,
    23448,23452,23449,23451,23578,23624,23621,23622,23735,23713,23736,23721,23723,23729,23731,24088,
    24090,24086,24085,24091,24081,24184,24218,24215,24220,24213,24214,24310,24358,24359,24361,24448,
    24449,24447,24444,24541,24544,24573,24565,24575,24591,24596,24623,24629,24598,24618,24597,24609,
    24615,24617,24619,24603,25110,25109,25151,25150,25152,25215,25289,25292,25284,25279,25282,25273,
    25298,25307,25259,25299,25300,25291,25288,25256,25277,25276,25296,25305,25287,25293,25269,25306,
    25265,25304,25302,25303,25286,25260,25294,25918,26023,26044,26106,26132,26131,26124,26118,26114,
    26126,26112,26127,26133,26122,26119,26381,26379,26477,26507,26517,26481,26524,26483,26487,26503,
    26525,26519,26479,26480,26495,26505,26494,26512,26485,26522,26515,26492,26474,26482,27427,27494,
    27495,27519,27667,27675,27875,27880,27891,27825,27852,27877,27827,27837,27838,27836,27874,27819,
    27861,27859,27832,27844,27833,27841,27822,27863,27845,27889,27839,27835,27873,27867,27850,27820,
    27887,27868,27862,27872,28821,28814,28818,28810,28825,29228,29229,29240,29256,29287,29289,29376,
    29390,29401,29399,29392,29609,29608,29599,29611,29605,30013,30109,30105,30106,30340,30402,30450,
    30452,30693,30717,31038,31040,31041,31177,31176,31354,31353,31482,31998,32596,32652,32651,32773,
    32954,32933,32930,32945,32929,32939,32937,32948,32938,32943,33253,33278,33293,33459,33437,33433,
    33453,33469,33439,33465,33457,33452,33445,33455,33464,33443,33456,33470,33463,34382,34417,21021,
    34920,36555,36814,36820,36817,37045,37048,37041,37046,37319,37329,38263,38272,38428,38464,38463,
    38459,38468,38466,38585,38632,38738,38750,20127,20141,20142,20449,20405,20399,20415,20448,20433,
    20431,20445,20419,20406,20440,20447,20426,20439,20398,20432,20420,20418,20442,20430,20446,20407,
    20823,20882,20881,20896,21070,21059,21066,21069,21068,21067,21063,21191,21193,21187,21185,21261,
    21335,21371,21402,21467,21676,21696,21672,21710,21705,21688,21670,21683,21703,21698,21693,21674,
    21697,21700,21704,21679,21675,21681,21691,21673,21671,21695,22271,22402,22411,22432,22435,22434,
    22478,22446,22419,22869,22865,22863,22862,22864,23004,23000,23039,23011,23016,23043,23013,23018,
    23002,23014,23041,23035,23401,23459,23462,23460,23458,23461,23553,23630,23631,23629,23627,23769,
    23762,24055,24093,24101,24095,24189,24224,24230,24314,24328,24365,24421,24456,24453,24458,24459,
    24455,24460,24457,24594,24605,24608,24613,24590,24616,24653,24688,24680,24674,24646,24643,24684,
    24683,24682,24676,25153,25308,25366,25353,25340,25325,25345,25326,25341,25351,25329,25335,25327,
    25324,25342,25332,25361,25346,25919,25925,26027,26045,26082,26149,26157,26144,26151,26159,26143,
    26152,26161,26148,26359,26623,26579,26609,26580,26576,26604,26550,26543,26613,26601,26607,26564,
    26577,26548,26586,26597,26552,26575,26590,26611,26544,26585,26594,26589,26578,27498,27523,27526,
    27573,27602,27607,27679,27849,27915,27954,27946,27969,27941,27916,27953,27934,27927,27963,27965,
    27966,27958,27931,27893,27961,27943,27960,27945,27950,27957,27918,27947,28843,28858,28851,28844,
    28847,28845,28856,28846,28836,29232,29298,29295,29300,29417,29408,29409,29623,29642,29627,29618,
    29645,29632,29619,29978,29997,30031,30028,30030,30027,30123,30116,30117,30114,30115,30328,30342,
    30343,30344,30408,30406,30403,30405,30465,30457,30456,30473,30475,30462,30460,30471,30684,30722,
    30740,30732,30733,31046,31049,31048,31047,31161,31162,31185,31186,31179,31359,31361,31487,31485,
    31869,32002,32005,32000,32009,32007,32004,32006,32568,32654,32703,32772,32784,32781,32785,32822,
    32982,32997,32986,32963,32964,32972,32993,32987,32974,32990,32996,32989,33268,33314,33511,33539,
    33541,33507,33499,33510,33540,33509,33538,33545,33490,33495,33521,33537,33500,33492,33489,33502,
    33491,33503,33519,33542,34384,34425,34427,34426,34893,34923,35201,35284,35336,35330,35331,35998,
    36000,36212,36211,36276,36557,36556,36848,36838,36834,36842,36837,36845,36843,36836,36840,37066,
    37070,37057,37059,37195,37194,37325,38274,38480,38475,38476,38477,38754,38761,38859,38893,38899,
    38913,39080,39131,39135,39318,39321,20056,20147,20492,20493,20515,20463,20518,20517,20472,20521,
    20502,20486,20540,20511,20506,20498,20497,20474,20480,20500,20520,20465,20513,20491,20505,20504,
    20467,20462,20525,20522,20478,20523,20489,20860,20900,20901,20898,20941,20940,20934,20939,21078,
    21084,21076,21083,21085,21290,21375,21407,21405,21471,21736,21776,21761,21815,21756,21733,21746,
    21766,21754,21780,21737,21741,21729,21769,21742,21738,21734,21799,21767,21757,21775,22275,22276,
    22466,22484,22475,22467,22537,22799,22871,22872,22874,23057,23064,23068,23071,23067,23059,23020,
    23072,23075,23081,23077,23052,23049,23403,23640,23472,23475,23478,23476,23470,23477,23481,23480,
    23556,23633,23637,23632,23789,23805,23803,23786,23784,23792,23798,23809,23796,24046,24109,24107,
    24235,24237,24231,24369,24466,24465,24464,24665,24675,24677,24656,24661,24685,24681,24687,24708,
    24735,24730,24717,24724,24716,24709,24726,25159,25331,25352,25343,25422,25406,25391,25429,25410,
    25414,25423,25417,25402,25424,25405,25386,25387,25384,25421,25420,25928,25929,26009,26049,26053,
    26178,26185,26191,26179,26194,26188,26181,26177,26360,26388,26389,26391,26657,26680,26696,26694,
    26707,26681,26690,26708,26665,26803,26647,26700,26705,26685,26612,26704,26688,26684,26691,26666,
    26693,26643,26648,26689,27530,27529,27575,27683,27687,27688,27686,27684,27888,28010,28053,28040,
    28039,28006,28024,28023,27993,28051,28012,28041,28014,27994,28020,28009,28044,28042,28025,28037,
    28005,28052,28874,28888,28900,28889,28872,28879,29241,29305,29436,29433,29437,29432,29431,29574,
    29677,29705,29678,29664,29674,29662,30036,30045,30044,30042,30041,30142,30149,30151,30130,30131,
    30141,30140,30137,30146,30136,30347,30384,30410,30413,30414,30505,30495,30496,30504,30697,30768,
    30759,30776,30749,30772,30775,30757,30765,30752,30751,30770,31061,31056,31072,31071,31062,31070,
    31069,31063,31066,31204,31203,31207,31199,31206,31209,31192,31364,31368,31449,31494,31505,31881,
    32033,32023,32011,32010,32032,32034,32020,32016,32021,32026,32028,32013,32025,32027,32570,32607,
    32660,32709,32705,32774,32792,32789,32793,32791,32829,32831,33009,33026,33008,33029,33005,33012,
    33030,33016,33011,33032,33021,33034,33020,33007,33261,33260,33280,33296,33322,33323,33320,33324,
    33467,33579,33618,33620,33610,33592,33616,33609,33589,33588,33615,33586,33593,33590,33559,33600,
    33585,33576,33603,34388,34442,34474,34451,34468,34473,34444,34467,34460,34928,34935,34945,34946,
    34941,34937,35352,35344,35342,35340,35349,35338,35351,35347,35350,35343,35345,35912,35962,35961,
    36001,36002,36215,36524,36562,36564,36559,36785,36865,36870,36855,36864,36858,36852,36867,36861,
    36869,36856,37013,37089,37085,37090,37202,37197,37196,37336,37341,37335,37340,37337,38275,38498,
    38499,38497,38491,38493,38500,38488,38494,38587,39138,39340,39592,39640,39717,39730,39740,20094,
    20602,20605,20572,20551,20547,20556,20570,20553,20581,20598,20558,20565,20597,20596,20599,20559,
    20495,20591,20589,20828,20885,20976,21098,21103,21202,21209,21208,21205,21264,21263,21273,21311,
    21312,21310,21443,26364,21830,21866,21862,21828,21854,21857,21827,21834,21809,21846,21839,21845,
    21807,21860,21816,21806,21852,21804,21859,21811,21825,21847,22280,22283,22281,22495,22533,22538,
    22534,22496,22500,22522,22530,22581,22519,22521,22816,22882,23094,23105,23113,23142,23146,23104,
    23100,23138,23130,23110,23114,23408,23495,23493,23492,23490,23487,23494,23561,23560,23559,23648,
    23644,23645,23815,23814,23822,23835,23830,23842,23825,23849,23828,23833,23844,23847,23831,24034,
    24120,24118,24115,24119,24247,24248,24246,24245,24254,24373,24375,24407,24428,24425,24427,24471,
    24473,24478,24472,24481,24480,24476,24703,24739,24713,24736,24744,24779,24756,24806,24765,24773,
    24763,24757,24796,24764,24792,24789,24774,24799,24760,24794,24775,25114,25115,25160,25504,25511,
    25458,25494,25506,25509,25463,25447,25496,25514,25457,25513,25481,25475,25499,25451,25512,25476,
    25480,25497,25505,25516,25490,25487,25472,25467,25449,25448,25466,25949,25942,25937,25945,25943,
    21855,25935,25944,25941,25940,26012,26011,26028,26063,26059,26060,26062,26205,26202,26212,26216,
    26214,26206,26361,21207,26395,26753,26799,26786,26771,26805,26751,26742,26801,26791,26775,26800,
    26755,26820,26797,26758,26757,26772,26781,26792,26783,26785,26754,27442,27578,27627,27628,27691,
    28046,28092,28147,28121,28082,28129,28108,28132,28155,28154,28165,28103,28107,28079,28113,28078,
    28126,28153,28088,28151,28149,28101,28114,28186,28085,28122,28139,28120,28138,28145,28142,28136,
    28102,28100,28074,28140,28095,28134,28921,28937,28938,28925,28911,29245,29309,29313,29468,29467,
    29462,29459,29465,29575,29701,29706,29699,29702,29694,29709,29920,29942,29943,29980,29986,30053,
    30054,30050,30064,30095,30164,30165,30133,30154,30157,30350,30420,30418,30427,30519,30526,30524,
    30518,30520,30522,30827,30787,30798,31077,31080,31085,31227,31378,31381,31520,31528,31515,31532,
    31526,31513,31518,31534,31890,31895,31893,32070,32067,32113,32046,32057,32060,32064,32048,32051,
    32068,32047,32066,32050,32049,32573,32670,32666,32716,32718,32722,32796,32842,32838,33071,33046,
    33059,33067,33065,33072,33060,33282,33333,33335,33334,33337,33678,33694,33688,33656,33698,33686,
    33725,33707,33682,33674,33683,33673,33696,33655,33659,33660,33670,33703,34389,24426,34503,34496,
    34486,34500,34485,34502,34507,34481,34479,34505,34899,34974,34952,34987,34962,34966,34957,34955,
    35219,35215,35370,35357,35363,35365,35377,35373,35359,35355,35362,35913,35930,36009,36012,36011,
    36008,36010,36007,36199,36198,36286,36282,36571,36575,36889,36877,36890,36887,36899,36895,36893,
    36880,36885,36894,36896,36879,36898,36886,36891,36884,37096,37101,37117,37207,37326,37365,37350,
    37347,37351,37357,37353,38281,38506,38517,38515,38520,38512,38516,38518,38519,38508,38592,38634,
    38633,31456,31455,38914,38915,39770,40165,40565,40575,40613,40635,20642,20621,20613,20633,20625,
    20608,20630,20632,20634,26368,20977,21106,21108,21109,21097,21214,21213,21211,21338,21413,21883,
    21888,21927,21884,21898,21917,21912,21890,21916,21930,21908,21895,21899,21891,21939,21934,21919,
    21822,21938,21914,21947,21932,21937,21886,21897,21931,21913,22285,22575,22570,22580,22564,22576,
    22577,22561,22557,22560,22777,22778,22880,23159,23194,23167,23186,23195,23207,23411,23409,23506,
    23500,23507,23504,23562,23563,23601,23884,23888,23860,23879,24061,24133,24125,24128,24131,24190,
    24266,24257,24258,24260,24380,24429,24489,24490,24488,24785,24801,24754,24758,24800,24860,24867,
    24826,24853,24816,24827,24820,24936,24817,24846,24822,24841,24832,24850,25119,25161,25507,25484,
    25551,25536,25577,25545,25542,25549,25554,25571,25552,25569,25558,25581,25582,25462,25588,25578,
    25563,25682,25562,25593,25950,25958,25954,25955,26001,26000,26031,26222,26224,26228,26230,26223,
    26257,26234,26238,26231,26366,26367,26399,26397,26874,26837,26848,26840,26839,26885,26847,26869,
    26862,26855,26873,26834,26866,26851,26827,26829,26893,26898,26894,26825,26842,26990,26875,27454,
    27450,27453,27544,27542,27580,27631,27694,27695,27692,28207,28216,28244,28193,28210,28263,28234,
    28192,28197,28195,28187,28251,28248,28196,28246,28270,28205,28198,28271,28212,28237,28218,28204,
    28227,28189,28222,28363,28297,28185,28238,28259,28228,28274,28265,28255,28953,28954,28966,28976,
    28961,28982,29038,28956,29260,29316,29312,29494,29477,29492,29481,29754,29738,29747,29730,29733,
    29749,29750,29748,29743,29723,29734,29736,29989,29990,30059,30058,30178,30171,30179,30169,30168,
    30174,30176,30331,30332,30358,30355,30388,30428,30543,30701,30813,30828,30831,31245,31240,31243,
    31237,31232,31384,31383,31382,31461,31459,31561,31574,31558,31568,31570,31572,31565,31563,31567,
    31569,31903,31909,32094,32080,32104,32085,32043,32110,32114,32097,32102,32098,32112,32115,21892,
    32724,32725,32779,32850,32901,33109,33108,33099,33105,33102,33081,33094,33086,33100,33107,33140,
    33298,33308,33769,33795,33784,33805,33760,33733,33803,33729,33775,33777,33780,33879,33802,33776,
    33804,33740,33789,33778,33738,33848,33806,33796,33756,33799,33748,33759,34395,34527,34521,34541,
    34516,34523,34532,34512,34526,34903,35009,35010,34993,35203,35222,35387,35424,35413,35422,35388,
    35393,35412,35419,35408,35398,35380,35386,35382,35414,35937,35970,36015,36028,36019,36029,36033,
    36027,36032,36020,36023,36022,36031,36024,36234,36229,36225,36302,36317,36299,36314,36305,36300,
    36315,36294,36603,36600,36604,36764,36910,36917,36913,36920,36914,36918,37122,37109,37129,37118,
    37219,37221,37327,37396,37397,37411,37385,37406,37389,37392,37383,37393,38292,38287,38283,38289,
    38291,38290,38286,38538,38542,38539,38525,38533,38534,38541,38514,38532,38593,38597,38596,38598,
    38599,38639,38642,38860,38917,38918,38920,39143,39146,39151,39145,39154,39149,39342,39341,40643,
    40653,40657,20098,20653,20661,20658,20659,20677,20670,20652,20663,20667,20655,20679,21119,21111,
    21117,21215,21222,21220,21218,21219,21295,21983,21992,21971,21990,21966,21980,21959,21969,21987,
    21988,21999,21978,21985,21957,21958,21989,21961,22290,22291,22622,22609,22616,22615,22618,22612,
    22635,22604,22637,22602,22626,22610,22603,22887,23233,23241,23244,23230,23229,23228,23219,23234,
    23218,23913,23919,24140,24185,24265,24264,24338,24409,24492,24494,24858,24847,24904,24863,24819,
    24859,24825,24833,24840,24910,24908,24900,24909,24894,24884,24871,24845,24838,24887,25121,25122,
    25619,25662,25630,25642,25645,25661,25644,25615,25628,25620,25613,25654,25622,25623,25606,25964,
    26015,26032,26263,26249,26247,26248,26262,26244,26264,26253,26371,27028,26989,26970,26999,26976,
    26964,26997,26928,27010,26954,26984,26987,26974,26963,27001,27014,26973,26979,26971,27463,27506,
    27584,27583,27603,27645,28322,28335,28371,28342,28354,28304,28317,28359,28357,28325,28312,28348,
    28346,28331,28369,28310,28316,28356,28372,28330,28327,28340,29006,29017,29033,29028,29001,29031,
    29020,29036,29030,29004,29029,29022,28998,29032,29014,29242,29266,29495,29509,29503,29502,29807,
    29786,29781,29791,29790,29761,29759,29785,29787,29788,30070,30072,30208,30192,30209,30194,30193,
    30202,30207,30196,30195,30430,30431,30555,30571,30566,30558,30563,30585,30570,30572,30556,30565,
    30568,30562,30702,30862,30896,30871,30872,30860,30857,30844,30865,30867,30847,31098,31103,31105,
    33836,31165,31260,31258,31264,31252,31263,31262,31391,31392,31607,31680,31584,31598,31591,31921,
    31923,31925,32147,32121,32145,32129,32143,32091,32622,32617,32618,32626,32681,32680,32676,32854,
    32856,32902,32900,33137,33136,33144,33125,33134,33139,33131,33145,33146,33126,33285,33351,33922,
    33911,33853,33841,33909,33894,33899,33865,33900,33883,33852,33845,33889,33891,33897,33901,33862,
    34398,34396,34399,34553,34579,34568,34567,34560,34558,34555,34562,34563,34566,34570,34905,35039,
    35028,35033,35036,35032,35037,35041,35018,35029,35026,35228,35299,35435,35442,35443,35430,35433,
    35440,35463,35452,35427,35488,35441,35461,35437,35426,35438,35436,35449,35451,35390,35432,35938,
    35978,35977,36042,36039,36040,36036,36018,36035,36034,36037,36321,36319,36328,36335,36339,36346,
    36330,36324,36326,36530,36611,36617,36606,36618,36767,36786,36939,36938,36947,36930,36948,36924,
    36949,36944,36935,36943,36942,36941,36945,36926,36929,37138,37143,37228,37226,37225,37321,37431,
    37463,37432,37437,37440,37438,37467,37451,37476,37457,37428,37449,37453,37445,37433,37439,37466,
    38296,38552,38548,38549,38605,38603,38601,38602,38647,38651,38649,38646,38742,38772,38774,38928,
    38929,38931,38922,38930,38924,39164,39156,39165,39166,39347,39345,39348,39649,40169,40578,40718,
    40723,40736,20711,20718,20709,20694,20717,20698,20693,20687,20689,20721,20686,20713,20834,20979,
    21123,21122,21297,21421,22014,22016,22043,22039,22013,22036,22022,22025,22029,22030,22007,22038,
    22047,22024,22032,22006,22296,22294,22645,22654,22659,22675,22666,22649,22661,22653,22781,22821,
    22818,22820,22890,22889,23265,23270,23273,23255,23254,23256,23267,23413,23518,23527,23521,23525,
    23526,23528,23522,23524,23519,23565,23650,23940,23943,24155,24163,24149,24151,24148,24275,24278,
    24330,24390,24432,24505,24903,24895,24907,24951,24930,24931,24927,24922,24920,24949,25130,25735,
    25688,25684,25764,25720,25695,25722,25681,25703,25652,25709,25723,25970,26017,26071,26070,26274,
    26280,26269,27036,27048,27029,27073,27054,27091,27083,27035,27063,27067,27051,27060,27088,27085,
    27053,27084,27046,27075,27043,27465,27468,27699,28467,28436,28414,28435,28404,28457,28478,28448,
    28460,28431,28418,28450,28415,28399,28422,28465,28472,28466,28451,28437,28459,28463,28552,28458,
    28396,28417,28402,28364,28407,29076,29081,29053,29066,29060,29074,29246,29330,29334,29508,29520,
    29796,29795,29802,29808,29805,29956,30097,30247,30221,30219,30217,30227,30433,30435,30596,30589,
    30591,30561,30913,30879,30887,30899,30889,30883,31118,31119,31117,31278,31281,31402,31401,31469,
    31471,31649,31637,31627,31605,31639,31645,31636,31631,31672,31623,31620,31929,31933,31934,32187,
    32176,32156,32189,32190,32160,32202,32180,32178,32177,32186,32162,32191,32181,32184,32173,32210,
    32199,32172,32624,32736,32737,32735,32862,32858,32903,33104,33152,33167,33160,33162,33151,33154,
    33255,33274,33287,33300,33310,33355,33993,33983,33990,33988,33945,33950,33970,33948,33995,33976,
    33984,34003,33936,33980,34001,33994,34623,34588,34619,34594,34597,34612,34584,34645,34615,34601,
    35059,35074,35060,35065,35064,35069,35048,35098,35055,35494,35468,35486,35491,35469,35489,35475,
    35492,35498,35493,35496,35480,35473,35482,35495,35946,35981,35980,36051,36049,36050,36203,36249,
    36245,36348,36628,36626,36629,36627,36771,36960,36952,36956,36963,36953,36958,36962,36957,36955,
    37145,37144,37150,37237,37240,37239,37236,37496,37504,37509,37528,37526,37499,37523,37532,37544,
    37500,37521,38305,38312,38313,38307,38309,38308,38553,38556,38555,38604,38610,38656,38780,38789,
    38902,38935,38936,39087,39089,39171,39173,39180,39177,39361,39599,39600,39654,39745,39746,40180,
    40182,40179,40636,40763,40778,20740,20736,20731,20725,20729,20738,20744,20745,20741,20956,21127,
    21128,21129,21133,21130,21232,21426,22062,22075,22073,22066,22079,22068,22057,22099,22094,22103,
    22132,22070,22063,22064,22656,22687,22686,22707,22684,22702,22697,22694,22893,23305,23291,23307,
    23285,23308,23304,23534,23532,23529,23531,23652,23653,23965,23956,24162,24159,24161,24290,24282,
    24287,24285,24291,24288,24392,24433,24503,24501,24950,24935,24942,24925,24917,24962,24956,24944,
    24939,24958,24999,24976,25003,24974,25004,24986,24996,24980,25006,25134,25705,25711,25721,25758,
    25778,25736,25744,25776,25765,25747,25749,25769,25746,25774,25773,25771,25754,25772,25753,25762,
    25779,25973,25975,25976,26286,26283,26292,26289,27171,27167,27112,27137,27166,27161,27133,27169,
    27155,27146,27123,27138,27141,27117,27153,27472,27470,27556,27589,27590,28479,28540,28548,28497,
    28518,28500,28550,28525,28507,28536,28526,28558,28538,28528,28516,28567,28504,28373,28527,28512,
    28511,29087,29100,29105,29096,29270,29339,29518,29527,29801,29835,29827,29822,29824,30079,30240,
    30249,30239,30244,30246,30241,30242,30362,30394,30436,30606,30599,30604,30609,30603,30923,30917,
    30906,30922,30910,30933,30908,30928,31295,31292,31296,31293,31287,31291,31407,31406,31661,31665,
    31684,31668,31686,31687,31681,31648,31692,31946,32224,32244,32239,32251,32216,32236,32221,32232,
    32227,32218,32222,32233,32158,32217,32242,32249,32629,32631,32687,32745,32806,33179,33180,33181,
    33184,33178,33176,34071,34109,34074,34030,34092,34093,34067,34065,34083,34081,34068,34028,34085,
    34047,34054,34690,34676,34678,34656,34662,34680,34664,34649,34647,34636,34643,34907,34909,35088,
    35079,35090,35091,35093,35082,35516,35538,35527,35524,35477,35531,35576,35506,35529,35522,35519,
    35504,35542,35533,35510,35513,35547,35916,35918,35948,36064,36062,36070,36068,36076,36077,36066,
    36067,36060,36074,36065,36205,36255,36259,36395,36368,36381,36386,36367,36393,36383,36385,36382,
    36538,36637,36635,36639,36649,36646,36650,36636,36638,36645,36969,36974,36968,36973,36983,37168,
    37165,37159,37169,37255,37257,37259,37251,37573,37563,37559,37610,37548,37604,37569,37555,37564,
    37586,37575,37616,37554,38317,38321,38660,38662,38663,38665,38752,38797,38795,38799,38945,38955,
    38940,39091,39178,39187,39186,39192,39389,39376,39391,39387,39377,39381,39378,39385,39607,39662,
    39663,39719,39749,39748,39799,39791,40198,40201,40195,40617,40638,40654,22696,40786,20754,20760,
    20756,20752,20757,20864,20906,20957,21137,21139,21235,22105,22123,22137,22121,22116,22136,22122,
    22120,22117,22129,22127,22124,22114,22134,22721,22718,22727,22725,22894,23325,23348,23416,23536,
    23566,24394,25010,24977,25001,24970,25037,25014,25022,25034,25032,25136,25797,25793,25803,25787,
    25788,25818,25796,25799,25794,25805,25791,25810,25812,25790,25972,26310,26313,26297,26308,26311,
    26296,27197,27192,27194,27225,27243,27224,27193,27204,27234,27233,27211,27207,27189,27231,27208,
    27481,27511,27653,28610,28593,28577,28611,28580,28609,28583,28595,28608,28601,28598,28582,28576,
    28596,29118,29129,29136,29138,29128,29141,29113,29134,29145,29148,29123,29124,29544,29852,29859,
    29848,29855,29854,29922,29964,29965,30260,30264,30266,30439,30437,30624,30622,30623,30629,30952,
    30938,30956,30951,31142,31309,31310,31302,31308,31307,31418,31705,31761,31689,31716,31707,31713,
    31721,31718,31957,31958,32266,32273,32264,32283,32291,32286,32285,32265,32272,32633,32690,32752,
    32753,32750,32808,33203,33193,33192,33275,33288,33368,33369,34122,34137,34120,34152,34153,34115,
    34121,34157,34154,34142,34691,34719,34718,34722,34701,34913,35114,35122,35109,35115,35105,35242,
    35238,35558,35578,35563,35569,35584,35548,35559,35566,35582,35585,35586,35575,35565,35571,35574,
    35580,35947,35949,35987,36084,36420,36401,36404,36418,36409,36405,36667,36655,36664,36659,36776,
    36774,36981,36980,36984,36978,36988,36986,37172,37266,37664,37686,37624,37683,37679,37666,37628,
    37675,37636,37658,37648,37670,37665,37653,37678,37657,38331,38567,38568,38570,38613,38670,38673,
    38678,38669,38675,38671,38747,38748,38758,38808,38960,38968,38971,38967,38957,38969,38948,39184,
    39208,39198,39195,39201,39194,39405,39394,39409,39608,39612,39675,39661,39720,39825,40213,40227,
    40230,40232,40210,40219,40664,40660,40845,40860,20778,20767,20769,20786,21237,22158,22144,22160,
    22149,22151,22159,22741,22739,22737,22734,23344,23338,23332,23418,23607,23656,23996,23994,23997,
    23992,24171,24396,24509,25033,25026,25031,25062,25035,25138,25140,25806,25802,25816,25824,25840,
    25830,25836,25841,25826,25837,25986,25987,26329,26326,27264,27284,27268,27298,27292,27355,27299,
    27262,27287,27280,27296,27484,27566,27610,27656,28632,28657,28639,28640,28635,28644,28651,28655,
    28544,28652,28641,28649,28629,28654,28656,29159,29151,29166,29158,29157,29165,29164,29172,29152,
    29237,29254,29552,29554,29865,29872,29862,29864,30278,30274,30284,30442,30643,30634,30640,30636,
    30631,30637,30703,30967,30970,30964,30959,30977,31143,31146,31319,31423,31751,31757,31742,31735,
    31756,31712,31968,31964,31966,31970,31967,31961,31965,32302,32318,32326,32311,32306,32323,32299,
    32317,32305,32325,32321,32308,32313,32328,32309,32319,32303,32580,32755,32764,32881,32882,32880,
    32879,32883,33222,33219,33210,33218,33216,33215,33213,33225,33214,33256,33289,33393,34218,34180,
    34174,34204,34193,34196,34223,34203,34183,34216,34186,34407,34752,34769,34739,34770,34758,34731,
    34747,34746,34760,34763,35131,35126,35140,35128,35133,35244,35598,35607,35609,35611,35594,35616,
    35613,35588,35600,35905,35903,35955,36090,36093,36092,36088,36091,36264,36425,36427,36424,36426,
    36676,36670,36674,36677,36671,36991,36989,36996,36993,36994,36992,37177,37283,37278,37276,37709,
    37762,37672,37749,37706,37733,37707,37656,37758,37740,37723,37744,37722,37716,38346,38347,38348,
    38344,38342,38577,38584,38614,38684,38686,38816,38867,38982,39094,39221,39425,39423,39854,39851,
    39850,39853,40251,40255,40587,40655,40670,40668,40669,40667,40766,40779,21474,22165,22190,22745,
    22744,23352,24413,25059,25139,25844,25842,25854,25862,25850,25851,25847,26039,26332,26406,27315,
    27308,27331,27323,27320,27330,27310,27311,27487,27512,27567,28681,28683,28670,28678,28666,28689,
    28687,29179,29180,29182,29176,29559,29557,29863,29887,29973,30294,30296,30290,30653,30655,30651,
    30652,30990,31150,31329,31330,31328,31428,31429,31787,31783,31786,31774,31779,31777,31975,32340,
    32341,32350,32346,32353,32338,32345,32584,32761,32763,32887,32886,33229,33231,33290,34255,34217,
    34253,34256,34249,34224,34234,34233,34214,34799,34796,34802,34784,35206,35250,35316,35624,35641,
    35628,35627,35920,36101,36441,36451,36454,36452,36447,36437,36544,36681,36685,36999,36995,37000,
    37291,37292,37328,37780,37770,37782,37794,37811,37806,37804,37808,37784,37786,37783,38356,38358,
    38352,38357,38626,38620,38617,38619,38622,38692,38819,38822,38829,38905,38989,38991,38988,38990,
    38995,39098,39230,39231,39229,39214,39333,39438,39617,39683,39686,39759,39758,39757,39882,39881,
    39933,39880,39872,40273,40285,40288,40672,40725,40748,20787,22181,22750,22751,22754,23541,40848,
    24300,25074,25079,25078,25077,25856,25871,26336,26333,27365,27357,27354,27347,28699,28703,28712,
    28698,28701,28693,28696,29190,29197,29272,29346,29560,29562,29885,29898,29923,30087,30086,30303,
    30305,30663,31001,31153,31339,31337,31806,31807,31800,31805,31799,31808,32363,32365,32377,32361,
    32362,32645,32371,32694,32697,32696,33240,34281,34269,34282,34261,34276,34277,34295,34811,34821,
    34829,34809,34814,35168,35167,35158,35166,35649,35676,35672,35657,35674,35662,35663,35654,35673,
    36104,36106,36476,36466,36487,36470,36460,36474,36468,36692,36686,36781,37002,37003,37297,37294,
    37857,37841,37855,37827,37832,37852,37853,37846,37858,37837,37848,37860,37847,37864,38364,38580,
    38627,38698,38695,38753,38876,38907,39006,39000,39003,39100,39237,39241,39446,39449,39693,39912,
    39911,39894,39899,40329,40289,40306,40298,40300,40594,40599,40595,40628,21240,22184,22199,22198,
    22196,22204,22756,23360,23363,23421,23542,24009,25080,25082,25880,25876,25881,26342,26407,27372,
    28734,28720,28722,29200,29563,29903,30306,30309,31014,31018,31020,31019,31431,31478,31820,31811,
    31821,31983,31984,36782,32381,32380,32386,32588,32768,33242,33382,34299,34297,34321,34298,34310,
    34315,34311,34314,34836,34837,35172,35258,35320,35696,35692,35686,35695,35679,35691,36111,36109,
    36489,36481,36485,36482,37300,37323,37912,37891,37885,38369,38704,39108,39250,39249,39336,39467,
    39472,39479,39477,39955,39949,40569,40629,40680,40751,40799,40803,40801,20791,20792,22209,22208,
    22210,22804,23660,24013,25084,25086,25885,25884,26005,26345,27387,27396,27386,27570,28748,29211,
    29351,29910,29908,30313,30675,31824,32399,32396,32700,34327,34349,34330,34851,34850,34849,34847,
    35178,35180,35261,35700,35703,35709,36115,36490,36493,36491,36703,36783,37306,37934,37939,37941,
    37946,37944,37938,37931,38370,38712,38713,38706,38911,39015,39013,39255,39493,39491,39488,39486,
    39631,39764,39761,39981,39973,40367,40372,40386,40376,40605,40687,40729,40796,40806,40807,20796,
    20795,22216,22218,22217,23423,24020,24018,24398,25087,25892,27402,27489,28753,28760,29568,29924,
    30090,30318,30316,31155,31840,31839,32894,32893,33247,35186,35183,35324,35712,36118,36119,36497,
    36499,36705,37192,37956,37969,37970,38717,38718,38851,38849,39019,39253,39509,39501,39634,39706,
    40009,39985,39998,39995,40403,40407,40756,40812,40810,40852,22220,24022,25088,25891,25899,25898,
    26348,27408,29914,31434,31844,31843,31845,32403,32406,32404,33250,34360,34367,34865,35722,37008,
    37007,37987,37984,37988,38760,39023,39260,39514,39515,39511,39635,39636,39633,40020,40023,40022,
    40421,40607,40692,22225,22761,25900,28766,30321,30322,30679,32592,32648,34870,34873,34914,35731,
    35730,35734,33399,36123,37312,37994,38722,38728,38724,38854,39024,39519,39714,39768,40031,40441,
    40442,40572,40573,40711,40823,40818,24307,27414,28771,31852,31854,34875,35264,36513,37313,38002,
    38000,39025,39262,39638,39715,40652,28772,30682,35738,38007,38857,39522,39525,32412,35740,36522,
    37317,38013,38014,38012,40055,40056,40695,35924,38015,40474,29224,39530,39729,40475,40478,31858,
    9312,9313,9314,9315,9316,9317,9318,9319,9320,9321,9332,9333,9334,9335,9336,9337,
    9338,9339,9340,9341,8560,8561,8562,8563,8564,8565,8566,8567,8568,8569,20022,20031,
    20101,20128,20866,20886,20907,21241,21304,21353,21430,22794,23424,24027,12083,24191,24308,24400,
    24417,25908,26080,30098,30326,36789,38582,168,710,12541,12542,12445,12446,12291,20189,12293,
    12294,12295,12540,65339,65341,10045,12353,12354,12355,12356,12357,12358,12359,12360,12361,12362,
    12363,12364,12365,12366,12367,12368,12369,12370,12371,12372,12373,12374,12375,12376,12377,12378,
    12379,12380,12381,12382,12383,12384,12385,12386,12387,12388,12389,12390,12391,12392,12393,12394,
    12395,12396,12397,12398,12399,12400,12401,12402,12403,12404,12405,12406,12407,12408,12409,12410,
    12411,12412,12413,12414,12415,12416,12417,12418,12419,12420,12421,12422,12423,12424,12425,12426,
    12427,12428,12429,12430,12431,12432,12433,12434,12435,12449,12450,12451,12452,12453,12454,12455,
    12456,12457,12458,12459,12460,12461,12462,12463,12464,12465,12466,12467,12468,12469,12470,12471,
    12472,12473,12474,12475,12476,12477,12478,12479,12480,12481,12482,12483,12484,12485,12486,12487,
    12488,12489,12490,12491,12492,12493,12494,12495,12496,12497,12498,12499,12500,12501,12502,12503,
    12504,12505,12506,12507,12508,12509,12510,12511,12512,12513,12514,12515,12516,12517,12518,12519,
    12520,12521,12522,12523,12524,12525,12526,12527,12528,12529,12530,12531,12532,12533,12534,1040,
    1041,1042,1043,1044,1045,1025,1046,1047,1048,1049,1050,1051,1052,1053,1054,1055,
    1056,1057,1058,1059,1060,1061,1062,1063,1064,1065,1066,1067,1068,1069,1070,1071,
    1072,1073,1074,1075,1076,1077,1105,1078,1079,1080,1081,1082,1083,1084,1085,1086,
    1087,1088,1089,1090,1091,1092,1093,1094,1095,1096,1097,1098,1099,1100,1101,1102,
    1103,8679,8632,8633,12751,131276,20058,131210,20994,17553,40880,20872,40881,161287,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,65506,65508,65287,65282,12849,8470,8481,12443,12444,11904,
    11908,11910,11911,11912,11914,11916,11917,11925,11932,11933,11941,11943,11946,11948,11950,11958,
    11964,11966,11974,11978,11980,11981,11983,11990,11991,11998,12003,0,0,0,643,592,
    603,596,629,339,248,331,650,618,20034,20060,20981,21274,21378,19975,19980,20039,
    20109,22231,64012,23662,24435,19983,20871,19982,20014,20115,20162,20169,20168,20888,21244,21356,
    21433,22304,22787,22828,23568,24063,26081,27571,27596,27668,29247,20017,20028,20200,20188,20201,
    20193,20189,20186,21004,21276,21324,22306,22307,22807,22831,23425,23428,23570,23611,23668,23667,
    24068,24192,24194,24521,25097,25168,27669,27702,27715,27711,27707,29358,29360,29578,31160,32906,
    38430,20238,20248,20268,20213,20244,20209,20224,20215,20232,20253,20226,20229,20258,20243,20228,
    20212,20242,20913,21011,21001,21008,21158,21282,21279,21325,21386,21511,22241,22239,22318,22314,
    22324,22844,22912,22908,22917,22907,22910,22903,22911,23382,23573,23589,23676,23674,23675,23678,
    24031,24181,24196,24322,24346,24436,24533,24532,24527,25180,25182,25188,25185,25190,25186,25177,
    25184,25178,25189,26095,26094,26430,26425,26424,26427,26426,26431,26428,26419,27672,27718,27730,
    27740,27727,27722,27732,27723,27724,28785,29278,29364,29365,29582,29994,30335,31349,32593,33400,
    33404,33408,33405,33407,34381,35198,37017,37015,37016,37019,37012,38434,38436,38432,38435,20310,
    20283,20322,20297,20307,20324,20286,20327,20306,20319,20289,20312,20269,20275,20287,20321,20879,
    20921,21020,21022,21025,21165,21166,21257,21347,21362,21390,21391,21552,21559,21546,21588,21573,
    21529,21532,21541,21528,21565,21583,21569,21544,21540,21575,22254,22247,22245,22337,22341,22348,
    22345,22347,22354,22790,22848,22950,22936,22944,22935,22926,22946,22928,22927,22951,22945,23438,
    23442,23592,23594,23693,23695,23688,23691,23689,23698,23690,23686,23699,23701,24032,24074,24078,
    24203,24201,24204,24200,24205,24325,24349,24440,24438,24530,24529,24528,24557,24552,24558,24563,
    24545,24548,24547,24570,24559,24567,24571,24576,24564,25146,25219,25228,25230,25231,25236,25223,
    25201,25211,25210,25200,25217,25224,25207,25213,25202,25204,25911,26096,26100,26099,26098,26101,
    26437,26439,26457,26453,26444,26440,26461,26445,26458,26443,27600,27673,27674,27768,27751,27755,
    27780,27787,27791,27761,27759,27753,27802,27757,27783,27797,27804,27750,27763,27749,27771,27790,
    28788,28794,29283,29375,29373,29379,29382,29377,29370,29381,29589,29591,29587,29588,29586,30010,
    30009,30100,30101,30337,31037,32820,32917,32921,32912,32914,32924,33424,33423,33413,33422,33425,
    33427,33418,33411,33412,35960,36809,36799,37023,37025,37029,37022,37031,37024,38448,38440,38447,
    38445,20019,20376,20348,20357,20349,20352,20359,20342,20340,20361,20356,20343,20300,20375,20330,
    20378,20345,20353,20344,20368,20380,20372,20382,20370,20354,20373,20331,20334,20894,20924,20926,
    21045,21042,21043,21062,21041,21180,21258,21259,21308,21394,21396,21639,21631,21633,21649,21634,
    21640,21611,21626,21630,21605,21612,21620,21606,21645,21615,21601,21600,21656,21603,21607,21604,
    22263,22265,22383,22386,22381,22379,22385,22384,22390,22400,22389,22395,22387,22388,22370,22376,
    22397,22796,22853,22965,22970,22991,22990,22962,22988,22977,22966,22972,22979,22998,22961,22973,
    22976,22984,22964,22983,23394,23397,23443,23445,23620,23623,23726,23716,23712,23733,23727,23720,
    23724,23711,23715,23725,23714,23722,23719,23709,23717,23734,23728,23718,24087,24084,24089,24360,
    24354,24355,24356,24404,24450,24446,24445,24542,24549,24621,24614,24601,24626,24587,24628,24586,
    24599,24627,24602,24606,24620,24610,24589,24592,24622,24595,24593,24588,24585,24604,25108,25149,
    25261,25268,25297,25278,25258,25270,25290,25262,25267,25263,25275,25257,25264,25272,25917,26024,
    26043,26121,26108,26116,26130,26120,26107,26115,26123,26125,26117,26109,26129,26128,26358,26378,
    26501,26476,26510,26514,26486,26491,26520,26502,26500,26484,26509,26508,26490,26527,26513,26521,
    26499,26493,26497,26488,26489,26516,27429,27520,27518,27614,27677,27795,27884,27883,27886,27865,
    27830,27860,27821,27879,27831,27856,27842,27834,27843,27846,27885,27890,27858,27869,27828,27786,
    27805,27776,27870,27840,27952,27853,27847,27824,27897,27855,27881,27857,28820,28824,28805,28819,
    28806,28804,28817,28822,28802,28826,28803,29290,29398,29387,29400,29385,29404,29394,29396,29402,
    29388,29393,29604,29601,29613,29606,29602,29600,29612,29597,29917,29928,30015,30016,30014,30092,
    30104,30383,30451,30449,30448,30453,30712,30716,30713,30715,30714,30711,31042,31039,31173,31352,
    31355,31483,31861,31997,32821,32911,32942,32931,32952,32949,32941,33312,33440,33472,33451,33434,
    33432,33435,33461,33447,33454,33468,33438,33466,33460,33448,33441,33449,33474,33444,33475,33462,
    33442,34416,34415,34413,34414,35926,36818,36811,36819,36813,36822,36821,36823,37042,37044,37039,
    37043,37040,38457,38461,38460,38458,38467,20429,20421,20435,20402,20425,20427,20417,20436,20444,
    20441,20411,20403,20443,20423,20438,20410,20416,20409,20460,21060,21065,21184,21186,21309,21372,
    21399,21398,21401,21400,21690,21665,21677,21669,21711,21699,33549,21687,21678,21718,21686,21701,
    21702,21664,21616,21692,21666,21694,21618,21726,21680,22453,22430,22431,22436,22412,22423,22429,
    22427,22420,22424,22415,22425,22437,22426,22421,22772,22797,22867,23009,23006,23022,23040,23025,
    23005,23034,23037,23036,23030,23012,23026,23031,23003,23017,23027,23029,23008,23038,23028,23021,
    23464,23628,23760,23768,23756,23767,23755,23771,23774,23770,23753,23751,23754,23766,23763,23764,
    23759,23752,23750,23758,23775,23800,24057,24097,24098,24099,24096,24100,24240,24228,24226,24219,
    24227,24229,24327,24366,24406,24454,24631,24633,24660,24690,24670,24645,24659,24647,24649,24667,
    24652,24640,24642,24671,24612,24644,24664,24678,24686,25154,25155,25295,25357,25355,25333,25358,
    25347,25323,25337,25359,25356,25336,25334,25344,25363,25364,25338,25365,25339,25328,25921,25923,
    26026,26047,26166,26145,26162,26165,26140,26150,26146,26163,26155,26170,26141,26164,26169,26158,
    26383,26384,26561,26610,26568,26554,26588,26555,26616,26584,26560,26551,26565,26603,26596,26591,
    26549,26573,26547,26615,26614,26606,26595,26562,26553,26574,26599,26608,26546,26620,26566,26605,
    26572,26542,26598,26587,26618,26569,26570,26563,26602,26571,27432,27522,27524,27574,27606,27608,
    27616,27680,27681,27944,27956,27949,27935,27964,27967,27922,27914,27866,27955,27908,27929,27962,
    27930,27921,27904,27933,27970,27905,27928,27959,27907,27919,27968,27911,27936,27948,27912,27938,
    27913,27920,28855,28831,28862,28849,28848,28833,28852,28853,28841,29249,29257,29258,29292,29296,
    29299,29294,29386,29412,29416,29419,29407,29418,29414,29411,29573,29644,29634,29640,29637,29625,
    29622,29621,29620,29675,29631,29639,29630,29635,29638,29624,29643,29932,29934,29998,30023,30024,
    30119,30122,30329,30404,30472,30467,30468,30469,30474,30455,30459,30458,30695,30696,30726,30737,
    30738,30725,30736,30735,30734,30729,30723,30739,31050,31052,31051,31045,31044,31189,31181,31183,
    31190,31182,31360,31358,31441,31488,31489,31866,31864,31865,31871,31872,31873,32003,32008,32001,
    32600,32657,32653,32702,32775,32782,32783,32788,32823,32984,32967,32992,32977,32968,32962,32976,
    32965,32995,32985,32988,32970,32981,32969,32975,32983,32998,32973,33279,33313,33428,33497,33534,
    33529,33543,33512,33536,33493,33594,33515,33494,33524,33516,33505,33522,33525,33548,33531,33526,
    33520,33514,33508,33504,33530,33523,33517,34423,34420,34428,34419,34881,34894,34919,34922,34921,
    35283,35332,35335,36210,36835,36833,36846,36832,37105,37053,37055,37077,37061,37054,37063,37067,
    37064,37332,37331,38484,38479,38481,38483,38474,38478,20510,20485,20487,20499,20514,20528,20507,
    20469,20468,20531,20535,20524,20470,20471,20503,20508,20512,20519,20533,20527,20529,20494,20826,
    20884,20883,20938,20932,20933,20936,20942,21089,21082,21074,21086,21087,21077,21090,21197,21262,
    21406,21798,21730,21783,21778,21735,21747,21732,21786,21759,21764,21768,21739,21777,21765,21745,
    21770,21755,21751,21752,21728,21774,21763,21771,22273,22274,22476,22578,22485,22482,22458,22470,
    22461,22460,22456,22454,22463,22471,22480,22457,22465,22798,22858,23065,23062,23085,23086,23061,
    23055,23063,23050,23070,23091,23404,23463,23469,23468,23555,23638,23636,23788,23807,23790,23793,
    23799,23808,23801,24105,24104,24232,24238,24234,24236,24371,24368,24423,24669,24666,24679,24641,
    24738,24712,24704,24722,24705,24733,24707,24725,24731,24727,24711,24732,24718,25113,25158,25330,
    25360,25430,25388,25412,25413,25398,25411,25572,25401,25419,25418,25404,25385,25409,25396,25432,
    25428,25433,25389,25415,25395,25434,25425,25400,25431,25408,25416,25930,25926,26054,26051,26052,
    26050,26186,26207,26183,26193,26386,26387,26655,26650,26697,26674,26675,26683,26699,26703,26646,
    26673,26652,26677,26667,26669,26671,26702,26692,26676,26653,26642,26644,26662,26664,26670,26701,
    26682,26661,26656,27436,27439,27437,27441,27444,27501,32898,27528,27622,27620,27624,27619,27618,
    27623,27685,28026,28003,28004,28022,27917,28001,28050,27992,28002,28013,28015,28049,28045,28143,
    28031,28038,27998,28007,28000,28055,28016,28028,27999,28034,28056,27951,28008,28043,28030,28032,
    28036,27926,28035,28027,28029,28021,28048,28892,28883,28881,28893,28875,32569,28898,28887,28882,
    28894,28896,28884,28877,28869,28870,28871,28890,28878,28897,29250,29304,29303,29302,29440,29434,
    29428,29438,29430,29427,29435,29441,29651,29657,29669,29654,29628,29671,29667,29673,29660,29650,
    29659,29652,29661,29658,29655,29656,29672,29918,29919,29940,29941,29985,30043,30047,30128,30145,
    30139,30148,30144,30143,30134,30138,30346,30409,30493,30491,30480,30483,30482,30499,30481,30485,
    30489,30490,30498,30503,30755,30764,30754,30773,30767,30760,30766,30763,30753,30761,30771,30762,
    30769,31060,31067,31055,31068,31059,31058,31057,31211,31212,31200,31214,31213,31210,31196,31198,
    31197,31366,31369,31365,31371,31372,31370,31367,31448,31504,31492,31507,31493,31503,31496,31498,
    31502,31497,31506,31876,31889,31882,31884,31880,31885,31877,32030,32029,32017,32014,32024,32022,
    32019,32031,32018,32015,32012,32604,32609,32606,32608,32605,32603,32662,32658,32707,32706,32704,
    32790,32830,32825,33018,33010,33017,33013,33025,33019,33024,33281,33327,33317,33587,33581,33604,
    33561,33617,33573,33622,33599,33601,33574,33564,33570,33602,33614,33563,33578,33544,33596,33613,
    33558,33572,33568,33591,33583,33577,33607,33605,33612,33619,33566,33580,33611,33575,33608,34387,
    34386,34466,34472,34454,34445,34449,34462,34439,34455,34438,34443,34458,34437,34469,34457,34465,
    34471,34453,34456,34446,34461,34448,34452,34883,34884,34925,34933,34934,34930,34944,34929,34943,
    34927,34947,34942,34932,34940,35346,35911,35927,35963,36004,36003,36214,36216,36277,36279,36278,
    36561,36563,36862,36853,36866,36863,36859,36868,36860,36854,37078,37088,37081,37082,37091,37087,
    37093,37080,37083,37079,37084,37092,37200,37198,37199,37333,37346,37338,38492,38495,38588,39139,
    39647,39727,20095,20592,20586,20577,20574,20576,20563,20555,20573,20594,20552,20557,20545,20571,
    20554,20578,20501,20549,20575,20585,20587,20579,20580,20550,20544,20590,20595,20567,20561,20944,
    21099,21101,21100,21102,21206,21203,21293,21404,21877,21878,21820,21837,21840,21812,21802,21841,
    21858,21814,21813,21808,21842,21829,21772,21810,21861,21838,21817,21832,21805,21819,21824,21835,
    22282,22279,22523,22548,22498,22518,22492,22516,22528,22509,22525,22536,22520,22539,22515,22479,
    22535,22510,22499,22514,22501,22508,22497,22542,22524,22544,22503,22529,22540,22513,22505,22512,
    22541,22532,22876,23136,23128,23125,23143,23134,23096,23093,23149,23120,23135,23141,23148,23123,
    23140,23127,23107,23133,23122,23108,23131,23112,23182,23102,23117,23097,23116,23152,23145,23111,
    23121,23126,23106,23132,23410,23406,23489,23488,23641,23838,23819,23837,23834,23840,23820,23848,
    23821,23846,23845,23823,23856,23826,23843,23839,23854,24126,24116,24241,24244,24249,24242,24243,
    24374,24376,24475,24470,24479,24714,24720,24710,24766,24752,24762,24787,24788,24783,24804,24793,
    24797,24776,24753,24795,24759,24778,24767,24771,24781,24768,25394,25445,25482,25474,25469,25533,
    25502,25517,25501,25495,25515,25486,25455,25479,25488,25454,25519,25461,25500,25453,25518,25468,
    25508,25403,25503,25464,25477,25473,25489,25485,25456,25939,26061,26213,26209,26203,26201,26204,
    26210,26392,26745,26759,26768,26780,26733,26734,26798,26795,26966,26735,26787,26796,26793,26741,
    26740,26802,26767,26743,26770,26748,26731,26738,26794,26752,26737,26750,26779,26774,26763,26784,
    26761,26788,26744,26747,26769,26764,26762,26749,27446,27443,27447,27448,27537,27535,27533,27534,
    27532,27690,28096,28075,28084,28083,28276,28076,28137,28130,28087,28150,28116,28160,28104,28128,
    28127,28118,28094,28133,28124,28125,28123,28148,28106,28093,28141,28144,28090,28117,28098,28111,
    28105,28112,28146,28115,28157,28119,28109,28131,28091,28922,28941,28919,28951,28916,28940,28912,
    28932,28915,28944,28924,28927,28934,28947,28928,28920,28918,28939,28930,28942,29310,29307,29308,
    29311,29469,29463,29447,29457,29464,29450,29448,29439,29455,29470,29576,29686,29688,29685,29700,
    29697,29693,29703,29696,29690,29692,29695,29708,29707,29684,29704,30052,30051,30158,30162,30159,
    30155,30156,30161,30160,30351,30345,30419,30521,30511,30509,30513,30514,30516,30515,30525,30501,
    30523,30517,30792,30802,30793,30797,30794,30796,30758,30789,30800,31076,31079,31081,31082,31075,
    31083,31073,31163,31226,31224,31222,31223,31375,31380,31376,31541,31559,31540,31525,31536,31522,
    31524,31539,31512,31530,31517,31537,31531,31533,31535,31538,31544,31514,31523,31892,31896,31894,
    31907,32053,32061,32056,32054,32058,32069,32044,32041,32065,32071,32062,32063,32074,32059,32040,
    32611,32661,32668,32669,32667,32714,32715,32717,32720,32721,32711,32719,32713,32799,32798,32795,
    32839,32835,32840,33048,33061,33049,33051,33069,33055,33068,33054,33057,33045,33063,33053,33058,
    33297,33336,33331,33338,33332,33330,33396,33680,33699,33704,33677,33658,33651,33700,33652,33679,
    33665,33685,33689,33653,33684,33705,33661,33667,33676,33693,33691,33706,33675,33662,33701,33711,
    33672,33687,33712,33663,33702,33671,33710,33654,33690,34393,34390,34495,34487,34498,34497,34501,
    34490,34480,34504,34489,34483,34488,34508,34484,34491,34492,34499,34493,34494,34898,34953,34965,
    34984,34978,34986,34970,34961,34977,34975,34968,34983,34969,34971,34967,34980,34988,34956,34963,
    34958,35202,35286,35289,35285,35376,35367,35372,35358,35897,35899,35932,35933,35965,36005,36221,
    36219,36217,36284,36290,36281,36287,36289,36568,36574,36573,36572,36567,36576,36577,36900,36875,
    36881,36892,36876,36897,37103,37098,37104,37108,37106,37107,37076,37099,37100,37097,37206,37208,
    37210,37203,37205,37356,37364,37361,37363,37368,37348,37369,37354,37355,37367,37352,37358,38266,
    38278,38280,38524,38509,38507,38513,38511,38591,38762,38916,39141,39319,20635,20629,20628,20638,
    20619,20643,20611,20620,20622,20637,20584,20636,20626,20610,20615,20831,20948,21266,21265,21412,
    21415,21905,21928,21925,21933,21879,22085,21922,21907,21896,21903,21941,21889,21923,21906,21924,
    21885,21900,21926,21887,21909,21921,21902,22284,22569,22583,22553,22558,22567,22563,22568,22517,
    22600,22565,22556,22555,22579,22591,22582,22574,22585,22584,22573,22572,22587,22881,23215,23188,
    23199,23162,23202,23198,23160,23206,23164,23205,23212,23189,23214,23095,23172,23178,23191,23171,
    23179,23209,23163,23165,23180,23196,23183,23187,23197,23530,23501,23499,23508,23505,23498,23502,
    23564,23600,23863,23875,23915,23873,23883,23871,23861,23889,23886,23893,23859,23866,23890,23869,
    23857,23897,23874,23865,23881,23864,23868,23858,23862,23872,23877,24132,24129,24408,24486,24485,
    24491,24777,24761,24780,24802,24782,24772,24852,24818,24842,24854,24837,24821,24851,24824,24828,
    24830,24769,24835,24856,24861,24848,24831,24836,24843,25162,25492,25521,25520,25550,25573,25576,
    25583,25539,25757,25587,25546,25568,25590,25557,25586,25589,25697,25567,25534,25565,25564,25540,
    25560,25555,25538,25543,25548,25547,25544,25584,25559,25561,25906,25959,25962,25956,25948,25960,
    25957,25996,26013,26014,26030,26064,26066,26236,26220,26235,26240,26225,26233,26218,26226,26369,
    26892,26835,26884,26844,26922,26860,26858,26865,26895,26838,26871,26859,26852,26870,26899,26896,
    26867,26849,26887,26828,26888,26992,26804,26897,26863,26822,26900,26872,26832,26877,26876,26856,
    26891,26890,26903,26830,26824,26845,26846,26854,26868,26833,26886,26836,26857,26901,26917,26823,
    27449,27451,27455,27452,27540,27543,27545,27541,27581,27632,27634,27635,27696,28156,28230,28231,
    28191,28233,28296,28220,28221,28229,28258,28203,28223,28225,28253,28275,28188,28211,28235,28224,
    28241,28219,28163,28206,28254,28264,28252,28257,28209,28200,28256,28273,28267,28217,28194,28208,
    28243,28261,28199,28280,28260,28279,28245,28281,28242,28262,28213,28214,28250,28960,28958,28975,
    28923,28974,28977,28963,28965,28962,28978,28959,28968,28986,28955,29259,29274,29320,29321,29318,
    29317,29323,29458,29451,29488,29474,29489,29491,29479,29490,29485,29478,29475,29493,29452,29742,
    29740,29744,29739,29718,29722,29729,29741,29745,29732,29731,29725,29737,29728,29746,29947,29999,
    30063,30060,30183,30170,30177,30182,30173,30175,30180,30167,30357,30354,30426,30534,30535,30532,
    30541,30533,30538,30542,30539,30540,30686,30700,30816,30820,30821,30812,30829,30833,30826,30830,
    30832,30825,30824,30814,30818,31092,31091,31090,31088,31234,31242,31235,31244,31236,31385,31462,
    31460,31562,31547,31556,31560,31564,31566,31552,31576,31557,31906,31902,31912,31905,32088,32111,
    32099,32083,32086,32103,32106,32079,32109,32092,32107,32082,32084,32105,32081,32095,32078,32574,
    32575,32613,32614,32674,32672,32673,32727,32849,32847,32848,33022,32980,33091,33098,33106,33103,
    33095,33085,33101,33082,33254,33262,33271,33272,33273,33284,33340,33341,33343,33397,33595,33743,
    33785,33827,33728,33768,33810,33767,33764,33788,33782,33808,33734,33736,33771,33763,33727,33793,
    33757,33765,33752,33791,33761,33739,33742,33750,33781,33737,33801,33807,33758,33809,33798,33730,
    33779,33749,33786,33735,33745,33770,33811,33731,33772,33774,33732,33787,33751,33762,33819,33755,
    33790,34520,34530,34534,34515,34531,34522,34538,34525,34539,34524,34540,34537,34519,34536,34513,
    34888,34902,34901,35002,35031,35001,35000,35008,35006,34998,35004,34999,35005,34994,35073,35017,
    35221,35224,35223,35293,35290,35291,35406,35405,35385,35417,35392,35415,35416,35396,35397,35410,
    35400,35409,35402,35404,35407,35935,35969,35968,36026,36030,36016,36025,36021,36228,36224,36233,
    36312,36307,36301,36295,36310,36316,36303,36309,36313,36296,36311,36293,36591,36599,36602,36601,
    36582,36590,36581,36597,36583,36584,36598,36587,36593,36588,36596,36585,36909,36916,36911,37126,
    37164,37124,37119,37116,37128,37113,37115,37121,37120,37127,37125,37123,37217,37220,37215,37218,
    37216,37377,37386,37413,37379,37402,37414,37391,37388,37376,37394,37375,37373,37382,37380,37415,
    37378,37404,37412,37401,37399,37381,37398,38267,38285,38284,38288,38535,38526,38536,38537,38531,
    38528,38594,38600,38595,38641,38640,38764,38768,38766,38919,39081,39147,40166,40697,20099,20100,
    20150,20669,20671,20678,20654,20676,20682,20660,20680,20674,20656,20673,20666,20657,20683,20681,
    20662,20664,20951,21114,21112,21115,21116,21955,21979,21964,21968,21963,21962,21981,21952,21972,
    21956,21993,21951,21970,21901,21967,21973,21986,21974,21960,22002,21965,21977,21954,22292,22611,
    22632,22628,22607,22605,22601,22639,22613,22606,22621,22617,22629,22619,22589,22627,22641,22780,
    23239,23236,23243,23226,23224,23217,23221,23216,23231,23240,23227,23238,23223,23232,23242,23220,
    23222,23245,23225,23184,23510,23512,23513,23583,23603,23921,23907,23882,23909,23922,23916,23902,
    23912,23911,23906,24048,24143,24142,24138,24141,24139,24261,24268,24262,24267,24263,24384,24495,
    24493,24823,24905,24906,24875,24901,24886,24882,24878,24902,24879,24911,24873,24896,25120,37224,
    25123,25125,25124,25541,25585,25579,25616,25618,25609,25632,25636,25651,25667,25631,25621,25624,
    25657,25655,25634,25635,25612,25638,25648,25640,25665,25653,25647,25610,25626,25664,25637,25639,
    25611,25575,25627,25646,25633,25614,25967,26002,26067,26246,26252,26261,26256,26251,26250,26265,
    26260,26232,26400,26982,26975,26936,26958,26978,26993,26943,26949,26986,26937,26946,26967,26969,
    27002,26952,26953,26933,26988,26931,26941,26981,26864,27000,26932,26985,26944,26991,26948,26998,
    26968,26945,26996,26956,26939,26955,26935,26972,26959,26961,26930,26962,26927,27003,26940,27462,
    27461,27459,27458,27464,27457,27547,64013,27643,27644,27641,27639,27640,28315,28374,28360,28303,
    28352,28319,28307,28308,28320,28337,28345,28358,28370,28349,28353,28318,28361,28343,28336,28365,
    28326,28367,28338,28350,28355,28380,28376,28313,28306,28302,28301,28324,28321,28351,28339,28368,
    28362,28311,28334,28323,28999,29012,29010,29027,29024,28993,29021,29026,29042,29048,29034,29025,
    28994,29016,28995,29003,29040,29023,29008,29011,28996,29005,29018,29263,29325,29324,29329,29328,
    29326,29500,29506,29499,29498,29504,29514,29513,29764,29770,29771,29778,29777,29783,29760,29775,
    29776,29774,29762,29766,29773,29780,29921,29951,29950,29949,29981,30073,30071,27011,30191,30223,
    30211,30199,30206,30204,30201,30200,30224,30203,30198,30189,30197,30205,30361,30389,30429,30549,
    30559,30560,30546,30550,30554,30569,30567,30548,30553,30573,30688,30855,30874,30868,30863,30852,
    30869,30853,30854,30881,30851,30841,30873,30848,30870,30843,31100,31106,31101,31097,31249,31256,
    31257,31250,31255,31253,31266,31251,31259,31248,31395,31394,31390,31467,31590,31588,31597,31604,
    31593,31602,31589,31603,31601,31600,31585,31608,31606,31587,31922,31924,31919,32136,32134,32128,
    32141,32127,32133,32122,32142,32123,32131,32124,32140,32148,32132,32125,32146,32621,32619,32615,
    32616,32620,32678,32677,32679,32731,32732,32801,33124,33120,33143,33116,33129,33115,33122,33138,
    26401,33118,33142,33127,33135,33092,33121,33309,33353,33348,33344,33346,33349,34033,33855,33878,
    33910,33913,33935,33933,33893,33873,33856,33926,33895,33840,33869,33917,33882,33881,33908,33907,
    33885,34055,33886,33847,33850,33844,33914,33859,33912,33842,33861,33833,33753,33867,33839,33858,
    33837,33887,33904,33849,33870,33868,33874,33903,33989,33934,33851,33863,33846,33843,33896,33918,
    33860,33835,33888,33876,33902,33872,34571,34564,34551,34572,34554,34518,34549,34637,34552,34574,
    34569,34561,34550,34573,34565,35030,35019,35021,35022,35038,35035,35034,35020,35024,35205,35227,
    35295,35301,35300,35297,35296,35298,35292,35302,35446,35462,35455,35425,35391,35447,35458,35460,
    35445,35459,35457,35444,35450,35900,35915,35914,35941,35940,35942,35974,35972,35973,36044,36200,
    36201,36241,36236,36238,36239,36237,36243,36244,36240,36242,36336,36320,36332,36337,36334,36304,
    36329,36323,36322,36327,36338,36331,36340,36614,36607,36609,36608,36613,36615,36616,36610,36619,
    36946,36927,36932,36937,36925,37136,37133,37135,37137,37142,37140,37131,37134,37230,37231,37448,
    37458,37424,37434,37478,37427,37477,37470,37507,37422,37450,37446,37485,37484,37455,37472,37479,
    37487,37430,37473,37488,37425,37460,37475,37456,37490,37454,37459,37452,37462,37426,38303,38300,
    38302,38299,38546,38547,38545,38551,38606,38650,38653,38648,38645,38771,38775,38776,38770,38927,
    38925,38926,39084,39158,39161,39343,39346,39344,39349,39597,39595,39771,40170,40173,40167,40576,
    40701,20710,20692,20695,20712,20723,20699,20714,20701,20708,20691,20716,20720,20719,20707,20704,
    20952,21120,21121,21225,21227,21296,21420,22055,22037,22028,22034,22012,22031,22044,22017,22035,
    22018,22010,22045,22020,22015,22009,22665,22652,22672,22680,22662,22657,22655,22644,22667,22650,
    22663,22673,22670,22646,22658,22664,22651,22676,22671,22782,22891,23260,23278,23269,23253,23274,
    23258,23277,23275,23283,23266,23264,23259,23276,23262,23261,23257,23272,23263,23415,23520,23523,
    23651,23938,23936,23933,23942,23930,23937,23927,23946,23945,23944,23934,23932,23949,23929,23935,
    24152,24153,24147,24280,24273,24279,24270,24284,24277,24281,24274,24276,24388,24387,24431,24502,
    24876,24872,24897,24926,24945,24947,24914,24915,24946,24940,24960,24948,24916,24954,24923,24933,
    24891,24938,24929,24918,25129,25127,25131,25643,25677,25691,25693,25716,25718,25714,25715,25725,
    25717,25702,25766,25678,25730,25694,25692,25675,25683,25696,25680,25727,25663,25708,25707,25689,
    25701,25719,25971,26016,26273,26272,26271,26373,26372,26402,27057,27062,27081,27040,27086,27030,
    27056,27052,27068,27025,27033,27022,27047,27021,27049,27070,27055,27071,27076,27069,27044,27092,
    27065,27082,27034,27087,27059,27027,27050,27041,27038,27097,27031,27024,27074,27061,27045,27078,
    27466,27469,27467,27550,27551,27552,27587,27588,27646,28366,28405,28401,28419,28453,28408,28471,
    28411,28462,28425,28494,28441,28442,28455,28440,28475,28434,28397,28426,28470,28531,28409,28398,
    28461,28480,28464,28476,28469,28395,28423,28430,28483,28421,28413,28406,28473,28444,28412,28474,
    28447,28429,28446,28424,28449,29063,29072,29065,29056,29061,29058,29071,29051,29062,29057,29079,
    29252,29267,29335,29333,29331,29507,29517,29521,29516,29794,29811,29809,29813,29810,29799,29806,
    29952,29954,29955,30077,30096,30230,30216,30220,30229,30225,30218,30228,30392,30593,30588,30597,
    30594,30574,30592,30575,30590,30595,30898,30890,30900,30893,30888,30846,30891,30878,30885,30880,
    30892,30882,30884,31128,31114,31115,31126,31125,31124,31123,31127,31112,31122,31120,31275,31306,
    31280,31279,31272,31270,31400,31403,31404,31470,31624,31644,31626,31633,31632,31638,31629,31628,
    31643,31630,31621,31640,21124,31641,31652,31618,31931,31935,31932,31930,32167,32183,32194,32163,
    32170,32193,32192,32197,32157,32206,32196,32198,32203,32204,32175,32185,32150,32188,32159,32166,
    32174,32169,32161,32201,32627,32738,32739,32741,32734,32804,32861,32860,33161,33158,33155,33159,
    33165,33164,33163,33301,33943,33956,33953,33951,33978,33998,33986,33964,33966,33963,33977,33972,
    33985,33997,33962,33946,33969,34000,33949,33959,33979,33954,33940,33991,33996,33947,33961,33967,
    33960,34006,33944,33974,33999,33952,34007,34004,34002,34011,33968,33937,34401,34611,34595,34600,
    34667,34624,34606,34590,34593,34585,34587,34627,34604,34625,34622,34630,34592,34610,34602,34605,
    34620,34578,34618,34609,34613,34626,34598,34599,34616,34596,34586,34608,34577,35063,35047,35057,
    35058,35066,35070,35054,35068,35062,35067,35056,35052,35051,35229,35233,35231,35230,35305,35307,
    35304,35499,35481,35467,35474,35471,35478,35901,35944,35945,36053,36047,36055,36246,36361,36354,
    36351,36365,36349,36362,36355,36359,36358,36357,36350,36352,36356,36624,36625,36622,36621,37155,
    37148,37152,37154,37151,37149,37146,37156,37153,37147,37242,37234,37241,37235,37541,37540,37494,
    37531,37498,37536,37524,37546,37517,37542,37530,37547,37497,37527,37503,37539,37614,37518,37506,
    37525,37538,37501,37512,37537,37514,37510,37516,37529,37543,37502,37511,37545,37533,37515,37421,
    38558,38561,38655,38744,38781,38778,38782,38787,38784,38786,38779,38788,38785,38783,38862,38861,
    38934,39085,39086,39170,39168,39175,39325,39324,39363,39353,39355,39354,39362,39357,39367,39601,
    39651,39655,39742,39743,39776,39777,39775,40177,40178,40181,40615,20735,20739,20784,20728,20742,
    20743,20726,20734,20747,20748,20733,20746,21131,21132,21233,21231,22088,22082,22092,22069,22081,
    22090,22089,22086,22104,22106,22080,22067,22077,22060,22078,22072,22058,22074,22298,22699,22685,
    22705,22688,22691,22703,22700,22693,22689,22783,23295,23284,23293,23287,23286,23299,23288,23298,
    23289,23297,23303,23301,23311,23655,23961,23959,23967,23954,23970,23955,23957,23968,23964,23969,
    23962,23966,24169,24157,24160,24156,32243,24283,24286,24289,24393,24498,24971,24963,24953,25009,
    25008,24994,24969,24987,24979,25007,25005,24991,24978,25002,24993,24973,24934,25011,25133,25710,
    25712,25750,25760,25733,25751,25756,25743,25739,25738,25740,25763,25759,25704,25777,25752,25974,
    25978,25977,25979,26034,26035,26293,26288,26281,26290,26295,26282,26287,27136,27142,27159,27109,
    27128,27157,27121,27108,27168,27135,27116,27106,27163,27165,27134,27175,27122,27118,27156,27127,
    27111,27200,27144,27110,27131,27149,27132,27115,27145,27140,27160,27173,27151,27126,27174,27143,
    27124,27158,27473,27557,27555,27554,27558,27649,27648,27647,27650,28481,28454,28542,28551,28614,
    28562,28557,28553,28556,28514,28495,28549,28506,28566,28534,28524,28546,28501,28530,28498,28496,
    28503,28564,28563,28509,28416,28513,28523,28541,28519,28560,28499,28555,28521,28543,28565,28515,
    28535,28522,28539,29106,29103,29083,29104,29088,29082,29097,29109,29085,29093,29086,29092,29089,
    29098,29084,29095,29107,29336,29338,29528,29522,29534,29535,29536,29533,29531,29537,29530,29529,
    29538,29831,29833,29834,29830,29825,29821,29829,29832,29820,29817,29960,29959,30078,30245,30238,
    30233,30237,30236,30243,30234,30248,30235,30364,30365,30366,30363,30605,30607,30601,30600,30925,
    30907,30927,30924,30929,30926,30932,30920,30915,30916,30921,31130,31137,31136,31132,31138,31131,
    27510,31289,31410,31412,31411,31671,31691,31678,31660,31694,31663,31673,31690,31669,31941,31944,
    31948,31947,32247,32219,32234,32231,32215,32225,32259,32250,32230,32246,32241,32240,32238,32223,
    32630,32684,32688,32685,32749,32747,32746,32748,32742,32744,32868,32871,33187,33183,33182,33173,
    33186,33177,33175,33302,33359,33363,33362,33360,33358,33361,34084,34107,34063,34048,34089,34062,
    34057,34061,34079,34058,34087,34076,34043,34091,34042,34056,34060,34036,34090,34034,34069,34039,
    34027,34035,34044,34066,34026,34025,34070,34046,34088,34077,34094,34050,34045,34078,34038,34097,
    34086,34023,34024,34032,34031,34041,34072,34080,34096,34059,34073,34095,34402,34646,34659,34660,
    34679,34785,34675,34648,34644,34651,34642,34657,34650,34641,34654,34669,34666,34640,34638,34655,
    34653,34671,34668,34682,34670,34652,34661,34639,34683,34677,34658,34663,34665,34906,35077,35084,
    35092,35083,35095,35096,35097,35078,35094,35089,35086,35081,35234,35236,35235,35309,35312,35308,
    35535,35526,35512,35539,35537,35540,35541,35515,35543,35518,35520,35525,35544,35523,35514,35517,
    35545,35902,35917,35983,36069,36063,36057,36072,36058,36061,36071,36256,36252,36257,36251,36384,
    36387,36389,36388,36398,36373,36379,36374,36369,36377,36390,36391,36372,36370,36376,36371,36380,
    36375,36378,36652,36644,36632,36634,36640,36643,36630,36631,36979,36976,36975,36967,36971,37167,
    37163,37161,37162,37170,37158,37166,37253,37254,37258,37249,37250,37252,37248,37584,37571,37572,
    37568,37593,37558,37583,37617,37599,37592,37609,37591,37597,37580,37615,37570,37608,37578,37576,
    37582,37606,37581,37589,37577,37600,37598,37607,37585,37587,37557,37601,37574,37556,38268,38316,
    38315,38318,38320,38564,38562,38611,38661,38664,38658,38746,38794,38798,38792,38864,38863,38942,
    38941,38950,38953,38952,38944,38939,38951,39090,39176,39162,39185,39188,39190,39191,39189,39388,
    39373,39375,39379,39380,39374,39369,39382,39384,39371,39383,39372,39603,39660,39659,39667,39666,
    39665,39750,39747,39783,39796,39793,39782,39798,39797,39792,39784,39780,39788,40188,40186,40189,
    40191,40183,40199,40192,40185,40187,40200,40197,40196,40579,40659,40719,40720,20764,20755,20759,
    20762,20753,20958,21300,21473,22128,22112,22126,22131,22118,22115,22125,22130,22110,22135,22300,
    22299,22728,22717,22729,22719,22714,22722,22716,22726,23319,23321,23323,23329,23316,23315,23312,
    23318,23336,23322,23328,23326,23535,23980,23985,23977,23975,23989,23984,23982,23978,23976,23986,
    23981,23983,23988,24167,24168,24166,24175,24297,24295,24294,24296,24293,24395,24508,24989,25000,
    24982,25029,25012,25030,25025,25036,25018,25023,25016,24972,25815,25814,25808,25807,25801,25789,
    25737,25795,25819,25843,25817,25907,25983,25980,26018,26312,26302,26304,26314,26315,26319,26301,
    26299,26298,26316,26403,27188,27238,27209,27239,27186,27240,27198,27229,27245,27254,27227,27217,
    27176,27226,27195,27199,27201,27242,27236,27216,27215,27220,27247,27241,27232,27196,27230,27222,
    27221,27213,27214,27206,27477,27476,27478,27559,27562,27563,27592,27591,27652,27651,27654,28589,
    28619,28579,28615,28604,28622,28616,28510,28612,28605,28574,28618,28584,28676,28581,28590,28602,
    28588,28586,28623,28607,28600,28578,28617,28587,28621,28591,28594,28592,29125,29122,29119,29112,
    29142,29120,29121,29131,29140,29130,29127,29135,29117,29144,29116,29126,29146,29147,29341,29342,
    29545,29542,29543,29548,29541,29547,29546,29823,29850,29856,29844,29842,29845,29857,29963,30080,
    30255,30253,30257,30269,30259,30268,30261,30258,30256,30395,30438,30618,30621,30625,30620,30619,
    30626,30627,30613,30617,30615,30941,30953,30949,30954,30942,30947,30939,30945,30946,30957,30943,
    30944,31140,31300,31304,31303,31414,31416,31413,31409,31415,31710,31715,31719,31709,31701,31717,
    31706,31720,31737,31700,31722,31714,31708,31723,31704,31711,31954,31956,31959,31952,31953,32274,
    32289,32279,32268,32287,32288,32275,32270,32284,32277,32282,32290,32267,32271,32278,32269,32276,
    32293,32292,32579,32635,32636,32634,32689,32751,32810,32809,32876,33201,33190,33198,33209,33205,
    33195,33200,33196,33204,33202,33207,33191,33266,33365,33366,33367,34134,34117,34155,34125,34131,
    34145,34136,34112,34118,34148,34113,34146,34116,34129,34119,34147,34110,34139,34161,34126,34158,
    34165,34133,34151,34144,34188,34150,34141,34132,34149,34156,34403,34405,34404,34715,34703,34711,
    34707,34706,34696,34689,34710,34712,34681,34695,34723,34693,34704,34705,34717,34692,34708,34716,
    34714,34697,35102,35110,35120,35117,35118,35111,35121,35106,35113,35107,35119,35116,35103,35313,
    35552,35554,35570,35572,35573,35549,35604,35556,35551,35568,35528,35550,35553,35560,35583,35567,
    35579,35985,35986,35984,36085,36078,36081,36080,36083,36204,36206,36261,36263,36403,36414,36408,
    36416,36421,36406,36412,36413,36417,36400,36415,36541,36662,36654,36661,36658,36665,36663,36660,
    36982,36985,36987,36998,37114,37171,37173,37174,37267,37264,37265,37261,37263,37671,37662,37640,
    37663,37638,37647,37754,37688,37692,37659,37667,37650,37633,37702,37677,37646,37645,37579,37661,
    37626,37669,37651,37625,37623,37684,37634,37668,37631,37673,37689,37685,37674,37652,37644,37643,
    37630,37641,37632,37627,37654,38332,38349,38334,38329,38330,38326,38335,38325,38333,38569,38612,
    38667,38674,38672,38809,38807,38804,38896,38904,38965,38959,38962,39204,39199,39207,39209,39326,
    39406,39404,39397,39396,39408,39395,39402,39401,39399,39609,39615,39604,39611,39670,39674,39673,
    39671,39731,39808,39813,39815,39804,39806,39803,39810,39827,39826,39824,39802,39829,39805,39816,
    40229,40215,40224,40222,40212,40233,40221,40216,40226,40208,40217,40223,40584,40582,40583,40622,
    40621,40661,40662,40698,40722,40765,20774,20773,20770,20772,20768,20777,21236,22163,22156,22157,
    22150,22148,22147,22142,22146,22143,22145,22742,22740,22735,22738,23341,23333,23346,23331,23340,
    23335,23334,23343,23342,23419,23537,23538,23991,24172,24170,24510,24507,25027,25013,25020,25063,
    25056,25061,25060,25064,25054,25839,25833,25827,25835,25828,25832,25985,25984,26038,26074,26322,
    27277,27286,27265,27301,27273,27295,27291,27297,27294,27271,27283,27278,27285,27267,27304,27300,
    27281,27263,27302,27290,27269,27276,27282,27483,27565,27657,28620,28585,28660,28628,28643,28636,
    28653,28647,28646,28638,28658,28637,28642,28648,29153,29169,29160,29170,29156,29168,29154,29555,
    29550,29551,29847,29874,29867,29840,29866,29869,29873,29861,29871,29968,29969,29970,29967,30084,
    30275,30280,30281,30279,30372,30441,30645,30635,30642,30647,30646,30644,30641,30632,30704,30963,
    30973,30978,30971,30972,30962,30981,30969,30974,30980,31147,31144,31324,31323,31318,31320,31316,
    31322,31422,31424,31425,31749,31759,31730,31744,31743,31739,31758,31732,31755,31731,31746,31753,
    31747,31745,31736,31741,31750,31728,31729,31760,31754,31976,32301,32316,32322,32307,38984,32312,
    32298,32329,32320,32327,32297,32332,32304,32315,32310,32324,32314,32581,32639,32638,32637,32756,
    32754,32812,33211,33220,33228,33226,33221,33223,33212,33257,33371,33370,33372,34179,34176,34191,
    34215,34197,34208,34187,34211,34171,34212,34202,34206,34167,34172,34185,34209,34170,34168,34135,
    34190,34198,34182,34189,34201,34205,34177,34210,34178,34184,34181,34169,34166,34200,34192,34207,
    34408,34750,34730,34733,34757,34736,34732,34745,34741,34748,34734,34761,34755,34754,34764,34743,
    34735,34756,34762,34740,34742,34751,34744,34749,34782,34738,35125,35123,35132,35134,35137,35154,
    35127,35138,35245,35247,35246,35314,35315,35614,35608,35606,35601,35589,35595,35618,35599,35602,
    35605,35591,35597,35592,35590,35612,35603,35610,35919,35952,35954,35953,35951,35989,35988,36089,
    36207,36430,36429,36435,36432,36428,36423,36675,36672,36997,36990,37176,37274,37282,37275,37273,
    37279,37281,37277,37280,37793,37763,37807,37732,37718,37703,37756,37720,37724,37750,37705,37712,
    37713,37728,37741,37775,37708,37738,37753,37719,37717,37714,37711,37745,37751,37755,37729,37726,
    37731,37735,37760,37710,37721,38343,38336,38345,38339,38341,38327,38574,38576,38572,38688,38687,
    38680,38685,38681,38810,38817,38812,38814,38813,38869,38868,38897,38977,38980,38986,38985,38981,
    38979,39205,39211,39212,39210,39219,39218,39215,39213,39217,39216,39320,39331,39329,39426,39418,
    39412,39415,39417,39416,39414,39419,39421,39422,39420,39427,39614,39678,39677,39681,39676,39752,
    39834,39848,39838,39835,39846,39841,39845,39844,39814,39842,39840,39855,40243,40257,40295,40246,
    40238,40239,40241,40248,40240,40261,40258,40259,40254,40247,40256,40253,32757,40237,40586,40585,
    40589,40624,40648,40666,40699,40703,40740,40739,40738,40788,40864,20785,20781,20782,22168,22172,
    22167,22170,22173,22169,22896,23356,23657,23658,24000,24173,24174,25048,25055,25069,25070,25073,
    25066,25072,25067,25046,25065,25855,25860,25853,25848,25857,25859,25852,26004,26075,26330,26331,
    26328,27333,27321,27325,27361,27334,27322,27318,27319,27335,27316,27309,27486,27593,27659,28679,
    28684,28685,28673,28677,28692,28686,28671,28672,28667,28710,28668,28663,28682,29185,29183,29177,
    29187,29181,29558,29880,29888,29877,29889,29886,29878,29883,29890,29972,29971,30300,30308,30297,
    30288,30291,30295,30298,30374,30397,30444,30658,30650,30975,30988,30995,30996,30985,30992,30994,
    30993,31149,31148,31327,31772,31785,31769,31776,31775,31789,31773,31782,31784,31778,31781,31792,
    32348,32336,32342,32355,32344,32354,32351,32337,32352,32343,32339,32693,32691,32759,32760,32885,
    33233,33234,33232,33375,33374,34228,34246,34240,34243,34242,34227,34229,34237,34247,34244,34239,
    34251,34254,34248,34245,34225,34230,34258,34340,34232,34231,34238,34409,34791,34790,34786,34779,
    34795,34794,34789,34783,34803,34788,34772,34780,34771,34797,34776,34787,34724,34775,34777,34817,
    34804,34792,34781,35155,35147,35151,35148,35142,35152,35153,35145,35626,35623,35619,35635,35632,
    35637,35655,35631,35644,35646,35633,35621,35639,35622,35638,35630,35620,35643,35645,35642,35906,
    35957,35993,35992,35991,36094,36100,36098,36096,36444,36450,36448,36439,36438,36446,36453,36455,
    36443,36442,36449,36445,36457,36436,36678,36679,36680,36683,37160,37178,37179,37182,37288,37285,
    37287,37295,37290,37813,37772,37778,37815,37787,37789,37769,37799,37774,37802,37790,37798,37781,
    37768,37785,37791,37773,37809,37777,37810,37796,37800,37812,37795,37797,38354,38355,38353,38579,
    38615,38618,24002,38623,38616,38621,38691,38690,38693,38828,38830,38824,38827,38820,38826,38818,
    38821,38871,38873,38870,38872,38906,38992,38993,38994,39096,39233,39228,39226,39439,39435,39433,
    39437,39428,39441,39434,39429,39431,39430,39616,39644,39688,39684,39685,39721,39733,39754,39756,
    39755,39879,39878,39875,39871,39873,39861,39864,39891,39862,39876,39865,39869,40284,40275,40271,
    40266,40283,40267,40281,40278,40268,40279,40274,40276,40287,40280,40282,40590,40588,40671,40705,
    40704,40726,40741,40747,40746,40745,40744,40780,40789,20788,20789,21142,21239,21428,22187,22189,
    22182,22183,22186,22188,22746,22749,22747,22802,23357,23358,23359,24003,24176,24511,25083,25863,
    25872,25869,25865,25868,25870,25988,26078,26077,26334,27367,27360,27340,27345,27353,27339,27359,
    27356,27344,27371,27343,27341,27358,27488,27568,27660,28697,28711,28704,28694,28715,28705,28706,
    28707,28713,28695,28708,28700,28714,29196,29194,29191,29186,29189,29349,29350,29348,29347,29345,
    29899,29893,29879,29891,29974,30304,30665,30666,30660,30705,31005,31003,31009,31004,30999,31006,
    31152,31335,31336,31795,31804,31801,31788,31803,31980,31978,32374,32373,32376,32368,32375,32367,
    32378,32370,32372,32360,32587,32586,32643,32646,32695,32765,32766,32888,33239,33237,33380,33377,
    33379,34283,34289,34285,34265,34273,34280,34266,34263,34284,34290,34296,34264,34271,34275,34268,
    34257,34288,34278,34287,34270,34274,34816,34810,34819,34806,34807,34825,34828,34827,34822,34812,
    34824,34815,34826,34818,35170,35162,35163,35159,35169,35164,35160,35165,35161,35208,35255,35254,
    35318,35664,35656,35658,35648,35667,35670,35668,35659,35669,35665,35650,35666,35671,35907,35959,
    35958,35994,36102,36103,36105,36268,36266,36269,36267,36461,36472,36467,36458,36463,36475,36546,
    36690,36689,36687,36688,36691,36788,37184,37183,37296,37293,37854,37831,37839,37826,37850,37840,
    37881,37868,37836,37849,37801,37862,37834,37844,37870,37859,37845,37828,37838,37824,37842,37863,
    38269,38362,38363,38625,38697,38699,38700,38696,38694,38835,38839,38838,38877,38878,38879,39004,
    39001,39005,38999,39103,39101,39099,39102,39240,39239,39235,39334,39335,39450,39445,39461,39453,
    39460,39451,39458,39456,39463,39459,39454,39452,39444,39618,39691,39690,39694,39692,39735,39914,
    39915,39904,39902,39908,39910,39906,39920,39892,39895,39916,39900,39897,39909,39893,39905,39898,
    40311,40321,40330,40324,40328,40305,40320,40312,40326,40331,40332,40317,40299,40308,40309,40304,
    40297,40325,40307,40315,40322,40303,40313,40319,40327,40296,40596,40593,40640,40700,40749,40768,
    40769,40781,40790,40791,40792,21303,22194,22197,22195,22755,23365,24006,24007,24302,24303,24512,
    24513,25081,25879,25878,25877,25875,26079,26344,26339,26340,27379,27376,27370,27368,27385,27377,
    27374,27375,28732,28725,28719,28727,28724,28721,28738,28728,28735,28730,28729,28736,28731,28723,
    28737,29203,29204,29352,29565,29564,29882,30379,30378,30398,30445,30668,30670,30671,30669,30706,
    31013,31011,31015,31016,31012,31017,31154,31342,31340,31341,31479,31817,31816,31818,31815,31813,
    31982,32379,32382,32385,32384,32698,32767,32889,33243,33241,33291,33384,33385,34338,34303,34305,
    34302,34331,34304,34294,34308,34313,34309,34316,34301,34841,34832,34833,34839,34835,34838,35171,
    35174,35257,35319,35680,35690,35677,35688,35683,35685,35687,35693,36270,36486,36488,36484,36697,
    36694,36695,36693,36696,36698,37005,37187,37185,37303,37301,37298,37299,37899,37907,37883,37920,
    37903,37908,37886,37909,37904,37928,37913,37901,37877,37888,37879,37895,37902,37910,37906,37882,
    37897,37880,37898,37887,37884,37900,37878,37905,37894,38366,38368,38367,38702,38703,38841,38843,
    38909,38910,39008,39010,39011,39007,39105,39106,39248,39246,39257,39244,39243,39251,39474,39476,
    39473,39468,39466,39478,39465,39470,39480,39469,39623,39626,39622,39696,39698,39697,39947,39944,
    39927,39941,39954,39928,40000,39943,39950,39942,39959,39956,39945,40351,40345,40356,40349,40338,
    40344,40336,40347,40352,40340,40348,40362,40343,40353,40346,40354,40360,40350,40355,40383,40361,
    40342,40358,40359,40601,40603,40602,40677,40676,40679,40678,40752,40750,40795,40800,40798,40797,
    40793,40849,20794,20793,21144,21143,22211,22205,22206,23368,23367,24011,24015,24305,25085,25883,
    27394,27388,27395,27384,27392,28739,28740,28746,28744,28745,28741,28742,29213,29210,29209,29566,
    29975,30314,30672,31021,31025,31023,31828,31827,31986,32394,32391,32392,32395,32390,32397,32589,
    32699,32816,33245,34328,34346,34342,34335,34339,34332,34329,34343,34350,34337,34336,34345,34334,
    34341,34857,34845,34843,34848,34852,34844,34859,34890,35181,35177,35182,35179,35322,35705,35704,
    35653,35706,35707,36112,36116,36271,36494,36492,36702,36699,36701,37190,37188,37189,37305,37951,
    37947,37942,37929,37949,37948,37936,37945,37930,37943,37932,37952,37937,38373,38372,38371,38709,
    38714,38847,38881,39012,39113,39110,39104,39256,39254,39481,39485,39494,39492,39490,39489,39482,
    39487,39629,39701,39703,39704,39702,39738,39762,39979,39965,39964,39980,39971,39976,39977,39972,
    39969,40375,40374,40380,40385,40391,40394,40399,40382,40389,40387,40379,40373,40398,40377,40378,
    40364,40392,40369,40365,40396,40371,40397,40370,40570,40604,40683,40686,40685,40731,40728,40730,
    40753,40782,40805,40804,40850,20153,22214,22213,22219,22897,23371,23372,24021,24017,24306,25889,
    25888,25894,25890,27403,27400,27401,27661,28757,28758,28759,28754,29214,29215,29353,29567,29912,
    29909,29913,29911,30317,30381,31029,31156,31344,31345,31831,31836,31833,31835,31834,31988,31985,
    32401,32591,32647,33246,33387,34356,34357,34355,34348,34354,34358,34860,34856,34854,34858,34853,
    35185,35263,35262,35323,35710,35716,35714,35718,35717,35711,36117,36501,36500,36506,36498,36496,
    36502,36503,36704,36706,37191,37964,37968,37962,37963,37967,37959,37957,37960,37961,37958,38719,
    38883,39018,39017,39115,39252,39259,39502,39507,39508,39500,39503,39496,39498,39497,39506,39504,
    39632,39705,39723,39739,39766,39765,40006,40008,39999,40004,39993,39987,40001,39996,39991,39988,
    39986,39997,39990,40411,40402,40414,40410,40395,40400,40412,40401,40415,40425,40409,40408,40406,
    40437,40405,40413,40630,40688,40757,40755,40754,40770,40811,40853,40866,20797,21145,22760,22759,
    22898,23373,24024,34863,24399,25089,25091,25092,25897,25893,26006,26347,27409,27410,27407,27594,
    28763,28762,29218,29570,29569,29571,30320,30676,31847,31846,32405,33388,34362,34368,34361,34364,
    34353,34363,34366,34864,34866,34862,34867,35190,35188,35187,35326,35724,35726,35723,35720,35909,
    36121,36504,36708,36707,37308,37986,37973,37981,37975,37982,38852,38853,38912,39510,39513,39710,
    39711,39712,40018,40024,40016,40010,40013,40011,40021,40025,40012,40014,40443,40439,40431,40419,
    40427,40440,40420,40438,40417,40430,40422,40434,40432,40418,40428,40436,40435,40424,40429,40642,
    40656,40690,40691,40710,40732,40760,40759,40758,40771,40783,40817,40816,40814,40815,22227,22221,
    23374,23661,25901,26349,26350,27411,28767,28769,28765,28768,29219,29915,29925,30677,31032,31159,
    31158,31850,32407,32649,33389,34371,34872,34871,34869,34891,35732,35733,36510,36511,36512,36509,
    37310,37309,37314,37995,37992,37993,38629,38726,38723,38727,38855,38885,39518,39637,39769,40035,
    40039,40038,40034,40030,40032,40450,40446,40455,40451,40454,40453,40448,40449,40457,40447,40445,
    40452,40608,40734,40774,40820,40821,40822,22228,25902,26040,27416,27417,27415,27418,28770,29222,
    29354,30680,30681,31033,31849,31851,31990,32410,32408,32411,32409,33248,33249,34374,34375,34376,
    35193,35194,35196,35195,35327,35736,35737,36517,36516,36515,37998,37997,37999,38001,38003,38729,
    39026,39263,40040,40046,40045,40459,40461,40464,40463,40466,40465,40609,40693,40713,40775,40824,
    40827,40826,40825,22302,28774,31855,34876,36274,36518,37315,38004,38008,38006,38005,39520,40052,
    40051,40049,40053,40468,40467,40694,40714,40868,28776,28773,31991,34410,34878,34877,34879,35742,
    35996,36521,36553,38731,39027,39028,39116,39265,39339,39524,39526,39527,39716,40469,40471,40776,
    25095,27422,29223,34380,36520,38018,38016,38017,39529,39528,39726,40473,29225,34379,35743,38019,
    40057,40631,30325,39531,40058,40477,28777,28778,40612,40830,40777,40856,30849,37561,35023,22715,
    24658,31911,23290,9556,9574,9559,9568,9580,9571,9562,9577,9565,9554,9572,9557,9566,
    9578,9569,9560,9575,9563,9555,9573,9558,9567,9579,9570,9561,9576,9564,9553,9552,
    9581,9582,9584,9583,65517,132423,37595,132575,147397,34124,17077,29679,20917,13897,149826,166372,
    37700,137691,33518,146632,30780,26436,25311,149811,166314,131744,158643,135941,20395,140525,20488,159017,
    162436,144896,150193,140563,20521,131966,24484,131968,131911,28379,132127,20605,20737,13434,20750,39020,
    14147,33814,149924,132231,20832,144308,20842,134143,139516,131813,140592,132494,143923,137603,23426,34685,
    132531,146585,20914,20920,40244,20937,20943,20945,15580,20947,150182,20915,20962,21314,20973,33741,
    26942,145197,24443,21003,21030,21052,21173,21079,21140,21177,21189,31765,34114,21216,34317,158483,
    21253,166622,21833,28377,147328,133460,147436,21299,21316,134114,27851,136998,26651,29653,24650,16042,
    14540,136936,29149,17570,21357,21364,165547,21374,21375,136598,136723,30694,21395,166555,21408,21419,
    21422,29607,153458,16217,29596,21441,21445,27721,20041,22526,21465,15019,134031,21472,147435,142755,
    21494,134263,21523,28793,21803,26199,27995,21613,158547,134516,21853,21647,21668,18342,136973,134877,
    15796,134477,166332,140952,21831,19693,21551,29719,21894,21929,22021,137431,147514,17746,148533,26291,
    135348,22071,26317,144010,26276,26285,22093,22095,30961,22257,38791,21502,22272,22255,22253,166758,
    13859,135759,22342,147877,27758,28811,22338,14001,158846,22502,136214,22531,136276,148323,22566,150517,
    22620,22698,13665,22752,22748,135740,22779,23551,22339,172368,148088,37843,13729,22815,26790,14019,
    28249,136766,23076,21843,136850,34053,22985,134478,158849,159018,137180,23001,137211,137138,159142,28017,
    137256,136917,23033,159301,23211,23139,14054,149929,23159,14088,23190,29797,23251,159649,140628,15749,
    137489,14130,136888,24195,21200,23414,25992,23420,162318,16388,18525,131588,23509,24928,137780,154060,
    132517,23539,23453,19728,23557,138052,23571,29646,23572,138405,158504,23625,18653,23685,23785,23791,
    23947,138745,138807,23824,23832,23878,138916,23738,24023,33532,14381,149761,139337,139635,33415,14390,
    15298,24110,27274,24181,24186,148668,134355,21414,20151,24272,21416,137073,24073,24308,164994,24313,
    24315,14496,24316,26686,37915,24333,131521,194708,15070,18606,135994,24378,157832,140240,24408,140401,
    24419,38845,159342,24434,37696,166454,24487,23990,15711,152144,139114,159992,140904,37334,131742,166441,
    24625,26245,137335,14691,15815,13881,22416,141236,31089,15936,24734,24740,24755,149890,149903,162387,
    29860,20705,23200,24932,33828,24898,194726,159442,24961,20980,132694,24967,23466,147383,141407,25043,
    166813,170333,25040,14642,141696,141505,24611,24924,25886,25483,131352,25285,137072,25301,142861,25452,
    149983,14871,25656,25592,136078,137212,25744,28554,142902,38932,147596,153373,25825,25829,38011,14950,
    25658,14935,25933,28438,150056,150051,25989,25965,25951,143486,26037,149824,19255,26065,16600,137257,
    26080,26083,24543,144384,26136,143863,143864,26180,143780,143781,26187,134773,26215,152038,26227,26228,
    138813,143921,165364,143816,152339,30661,141559,39332,26370,148380,150049,15147,27130,145346,26462,26471,
    26466,147917,168173,26583,17641,26658,28240,37436,26625,144358,159136,26717,144495,27105,27147,166623,
    26995,26819,144845,26881,26880,15666,14849,144956,15232,26540,26977,166474,17148,26934,27032,15265,
    132041,33635,20624,27129,144985,139562,27205,145155,27293,15347,26545,27336,168348,15373,27421,133411,
    24798,27445,27508,141261,28341,146139,132021,137560,14144,21537,146266,27617,147196,27612,27703,140427,
    149745,158545,27738,33318,27769,146876,17605,146877,147876,149772,149760,146633,14053,15595,134450,39811,
    143865,140433,32655,26679,159013,159137,159211,28054,27996,28284,28420,149887,147589,159346,34099,159604,
    20935,27804,28189,33838,166689,28207,146991,29779,147330,31180,28239,23185,143435,28664,14093,28573,
    146992,28410,136343,147517,17749,37872,28484,28508,15694,28532,168304,15675,28575,147780,28627,147601,
    147797,147513,147440,147380,147775,20959,147798,147799,147776,156125,28747,28798,28839,28801,28876,28885,
    28886,28895,16644,15848,29108,29078,148087,28971,28997,23176,29002,29038,23708,148325,29007,37730,
    148161,28972,148570,150055,150050,29114,166888,28861,29198,37954,29205,22801,37955,29220,37697,153093,
    29230,29248,149876,26813,29269,29271,15957,143428,26637,28477,29314,29482,29483,149539,165931,18669,
    165892,29480,29486,29647,29610,134202,158254,29641,29769,147938,136935,150052,26147,14021,149943,149901,
    150011,29687,29717,26883,150054,29753,132547,16087,29788,141485,29792,167602,29767,29668,29814,33721,
    29804,14128,29812,37873,27180,29826,18771,150156,147807,150137,166799,23366,166915,137374,29896,137608,
    29966,29929,29982,167641,137803,23511,167596,37765,30029,30026,30055,30062,151426,16132,150803,30094,
    29789,30110,30132,30210,30252,30289,30287,30319,30326,156661,30352,33263,14328,157969,157966,30369,
    30373,30391,30412,159647,33890,151709,151933,138780,30494,30502,30528,25775,152096,30552,144044,30639,
    166244,166248,136897,30708,30729,136054,150034,26826,30895,30919,30931,38565,31022,153056,30935,31028,
    30897,161292,36792,34948,166699,155779,140828,31110,35072,26882,31104,153687,31133,162617,31036,31145,
    28202,160038,16040,31174,168205,31188,
];
pub static BIG5_PAGE: [u16; 3072] = [
    0,0,1,2,3,4,0,5,0,6,7,8,0,0,9,10,
    11,12,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,13,14,0,0,0,0,
    15,0,16,0,17,18,19,20,21,22,23,0,0,0,0,24,
    25,26,0,0,27,28,29,30,31,32,0,0,33,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,34,35,36,0,0,0,
    37,38,39,40,41,0,0,42,43,0,44,0,0,0,45,46,
    47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,
    63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,
    79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,
    95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,
    111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,
    127,128,129,130,131,132,133,134,135,0,136,137,138,139,140,141,
    142,143,144,145,146,147,148,0,149,150,151,152,153,154,155,156,
    157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,
    173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,
    189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,
    205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,
    221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,
    237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,
    253,254,255,256,257,258,259,260,261,262,263,264,265,266,267,268,
    269,270,271,272,273,274,275,276,277,278,279,280,281,282,283,284,
    285,286,287,288,289,290,291,292,293,294,295,296,297,298,299,300,
    301,302,303,304,305,306,307,308,309,310,311,312,313,314,315,316,
    317,318,319,320,321,322,323,324,325,326,327,328,329,330,331,332,
    333,334,335,336,337,338,339,340,341,342,343,344,345,346,347,348,
    349,350,351,352,353,354,355,356,357,358,359,360,361,362,363,364,
    365,366,367,368,369,370,371,372,373,374,375,376,377,378,379,380,
    381,382,383,384,385,386,387,388,389,390,391,392,393,394,395,396,
    397,398,399,400,401,402,403,404,405,406,407,408,409,410,411,412,
    413,414,415,416,417,418,419,420,421,422,423,424,425,426,427,428,
    429,430,431,432,433,434,435,436,437,438,439,440,441,442,443,444,
    445,446,447,448,449,450,451,452,453,454,455,456,457,458,459,460,
    461,462,0,463,464,465,466,467,468,469,470,471,472,473,474,475,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,476,0,0,0,477,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,478,479,0,0,480,481,0,482,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    483,484,485,486,487,0,488,489,490,491,492,493,494,495,496,497,
    498,499,500,501,0,502,503,504,505,506,0,0,507,508,0,0,
    509,510,0,511,512,513,0,514,515,516,517,518,519,0,520,521,
    522,523,524,525,526,527,528,529,530,531,532,533,534,535,536,537,
    538,539,540,541,542,543,544,545,546,547,548,549,550,551,552,553,
    554,555,556,557,0,558,559,0,560,561,562,563,564,565,566,567,
    568,569,570,571,572,573,574,575,576,577,0,0,0,578,0,579,
    580,581,582,0,0,583,584,585,586,0,587,588,589,590,591,592,
    0,593,594,595,596,597,598,599,600,601,0,0,602,0,603,604,
    0,605,606,607,608,609,610,0,611,612,613,614,615,616,617,618,
    619,620,621,622,623,624,625,0,0,626,0,627,628,629,0,630,
    631,632,633,634,635,636,637,638,639,640,641,642,0,643,0,644,
    645,646,647,648,649,650,651,652,653,654,655,656,657,0,658,659,
    660,661,0,662,663,664,665,666,667,668,669,670,671,672,673,674,
    675,0,0,0,0,0,0,676,0,0,677,678,679,680,0,0,
    0,681,682,683,0,684,685,686,687,0,688,689,690,691,692,693,
    694,695,696,697,698,699,700,701,702,703,704,705,706,707,708,709,
    710,711,712,713,714,715,0,716,717,718,719,720,721,0,722,723,
    724,0,725,726,727,728,729,730,731,732,733,734,735,736,0,737,
    738,0,739,740,741,0,742,743,744,745,746,0,747,748,749,750,
    751,752,753,0,754,755,0,756,757,758,759,760,761,0,0,0,
    762,763,764,0,765,766,767,768,769,770,771,772,773,774,0,775,
    0,776,0,777,778,779,780,781,0,782,783,784,0,785,786,787,
    788,789,790,791,792,793,794,0,795,796,797,798,799,800,0,801,
    802,803,804,0,805,806,807,808,0,809,0,810,811,812,813,814,
    815,816,817,0,818,819,820,0,821,0,822,823,824,825,826,827,
    828,829,830,831,832,833,834,835,836,837,0,0,838,839,840,841,
    842,843,844,845,846,847,848,849,850,851,852,853,854,855,856,857,
    858,859,860,861,862,863,0,864,865,866,867,868,0,869,870,871,
    872,873,874,0,0,875,876,877,878,879,880,0,881,882,883,884,
    0,885,886,887,888,889,890,891,892,893,894,895,896,897,0,898,
    899,900,901,902,903,904,905,906,0,907,0,0,908,0,0,909,
    910,911,912,913,914,915,916,0,917,918,919,920,921,922,923,0,
    924,925,926,0,927,928,0,929,930,0,931,932,933,0,0,0,
    934,0,0,0,935,936,937,938,939,940,941,942,943,944,945,946,
    947,0,0,948,949,0,950,0,951,952,953,954,0,0,0,955,
    0,956,957,958,959,960,961,962,0,0,0,0,0,0,0,0,
    963,964,0,965,0,0,966,967,0,0,0,0,968,0,0,969,
    970,971,972,973,974,975,976,977,978,979,0,0,980,0,0,981,
    0,982,983,0,984,985,986,987,988,989,990,991,992,0,993,994,
    995,0,996,997,998,999,1000,1001,1002,0,1003,1004,0,1005,1006,0,
    1007,1008,0,0,0,0,0,1009,1010,1011,1012,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,1013,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    1014,1015,1016,1017,0,0,1018,1019,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
];
pub static BIG5_ENC: [[u16; 64]; 1020] = [
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41393,50904,0,0,0,0,0,0,41410,41560,41427,0,0,0,0,0,41296,0,0,0,0,0,0,0,0],[34905,34903,0,0,0,0,0,0,34909,34907,34918,0,0,0,0,0,0,0,34913,34911,0,0,0,41425,0,0,0,0,0,0,0,0,34922,34920,0,0,0,0,0,0,34927,34925,34983,0,34931,34929,0,0,0,0,34935,34933,0,0,0,41426,51451,34939,34937,0,34978,0,0,0],[34902,34919,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34906,34924,0,0,0,0,0,0,34908,34926,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34928,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,51452,34910,34932,0,0,0,0,0,51450,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34936,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,34904,34921,0,34930,34912,34934,0,34938,0,34940,0,34941,0,34942,0,34977,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,51446,34923,0,0,51448,0,0,0,0,0,0,51447,0,0,0,0,0,34984,0,0,0,0,0,0,0,0,51454,0,0,0,0,0,0,0,0,0,0,51449,0,0,0,0,0,0,0,0,0,0],[0,0,0,51445,0,0,0,0,0,0,51453,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,50905,41918,0,41916,41917,41919,0,41413,0,0,0,0,0,0,0,0,0,0,0,41915,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41796,41797,41798,41799,41800,41801,41802,41803,41804,41805,41806,41807,41808,41809,41810,41811,41812,0,41813,41814,41815,41816,41817,41818,41819,0,0,0,0,0,0,0,41820,41821,41822,41823,41824,41825,41826,41827,41828,41829,41830,41831,41832,41833,41834],[41835,41836,0,41837,41838,41839,41840,41841,41842,41843,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,51193,0,0,0,0,0,0,0,0,0,0,0,0,0,0,51187,51188,51189,51190,51191,51192,51194,51195,51196,51197,51198,51264,51265,51266,51267,51268,51269,51270,51271,51272,51273,51274,51275,51276,51277,51278,51279,51280,51281,51282,51283,51284,51285,51286,51287,51288,51289,51290,51292,51293,51294,51295,51296,51297,51298,51299,51300,51301],[51302,51303,51304,51305,51306,51307,51308,51309,51310,51311,51312,51313,51314,51315,51316,51317,0,51291,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34915,34980],[34917,34982,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41302,41304,0,0,0,41381,41382,0,0,41383,41384,0,0,0,0,0,0,0,41292,41291,41285,0,0,0,0,0,0,0,0,0,0,41388,0,0,41387,0,0,0,0,0,41392,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41953,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,41546,0,41409,0,0,0,41547,0,0,0,0,0,0,0,0,0,0,0,0,51410,0,0,0,0,0,0,0,0,0,0,51411,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41657,41658,41659,41660,41661,41662,41663,41664,41665,41666,0,0,0,0,0,0,50869,50870,50871,50872,50873,50874,50875,50876,50877,50878,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41462,41460,41463,41461,0,0,41464,41465,41467,41466,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,51319,51320,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,51318,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41537,0,0,0,0,41428,0,0,0,41435,41448,41447,0,0,41469,0,41468,0,0,0,41444,41445,41452,0,0,41453,0,0,0,0,0,41455,41454,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41436,0,0,0,0,0,0,0,0,0,0,0,0,0,41434,41437,0,0,0,0,41432,41433,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41458,0,0,0,41459,0,0,0,0,0,0,0,0,0,0,0,41446,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41449],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34985,34986,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[41920,41921,41922,41923,41924,41925,41926,41927,41928,41929,41930,41931,41932,41933,41934,41935,41936,41937,41938,41939,41940,41941,41942,41943,41944,41945,41946,41947,41948,41949,41950,41951,0,41952,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,50849,50850,50851,50852,50853,50854,50855,50856,50857,50858,0,0,0,0,0,0,0,0,0,0,50859,50860,50861,50862,50863,50864,50865,50866,50867,50868,0,0],[41591,0,41592,0,0,0,0,0,0,0,0,0,41594,0,0,0,41595,0,0,0,41596,0,0,0,41597,0,0,0,41589,0,0,0,0,0,0,0,41588,0,0,0,0,0,0,0,41587,0,0,0,0,0,0,0,41586,0,0,0,0,0,0,0,41585,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,63993,63992,63974,63983,63965,63976,63985,63967,63980,63989,63971,63982,63991,63973,63977,63986,63968,63979,63988,63970,63975,63984,63966,63981,63990,63972,63978,63987,63969,41598,41633,41635,41634,41644,41645,41646,41306,0,0,0,0,0,0,0,0,0,0,0],[0,41570,41571,41572,41573,41574,41575,41576,41577,41584,41583,41582,41581,41580,41579,41578,0,0,0,0,41590,41593,0,0,0,0,0,0,0,0,0,0,41405,41404,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41398,41397,0,0,0,0,0,0,0,0,41407,41406,0,0],[0,0,0,0,0,0,41403,41402,0,0,0,41395,0,0,41399,41396,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41640,41641,41643,41642,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,41401,41400,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [41456,0,41457,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,50918,0,0],[51414,0,0,0,51415,0,51416,51417,51418,0,51419,0,51420,51421,0,0,0,0,0,0,0,51422,0,0,0,0,0,0,51423,51424,0,0,0,0,0,0,0,51425,0,51426,0,0,51427,0,51428,0,51429,0,0,0,0,0,0,0,51430,0,0,0,0,0,51431,0,51432,0],[0,0,0,0,0,0,51433,0,0,0,51434,0,51435,51436,0,51437,0,0,0,0,0,0,51438,51439,0,0,0,0,0,0,51440,0,0,0,0,51441,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,50893,0,0,0,0,0,0,0,0,0,0,0,0],[41280,41282,41283,41394,0,50912,50913,50914,41329,41330,41325,41326,41333,41334,41337,41338,41321,41322,41541,0,41317,41318,0,0,0,0,0,0,0,41385,41386,0,0,41667,41668,41669,41670,41671,41672,41673,41674,41675,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,50919,50920,50921,50922,50923,50924,50925,50926,50927,50928,50929,50930,50931,50932,50933,50934,50935,50936,50937,50938,50939,50940,50941,50942,51008,51009,51010,51011,51012,51013,51014,51015,51016,51017,51018,51019,51020,51021,51022,51023,51024,51025,51026,51027,51028,51029,51030,51031,51032,51033,51034,51035,51036,51037,51038,51039,51040,51041,51042,51043,51044,51045,51046],[51047,51048,51049,51050,51051,51052,51053,51054,51055,51056,51057,51058,51059,51060,51061,51062,51063,51064,51065,51066,0,0,0,0,0,0,0,51412,51413,50908,50909,0,0,51067,51068,51069,51070,51105,51106,51107,51108,51109,51110,51111,51112,51113,51114,51115,51116,51117,51118,51119,51120,51121,51122,51123,51124,51125,51126,51127,51128,51129,51130,51131],[51132,51133,51134,51135,51136,51137,51138,51139,51140,51141,51142,51143,51144,51145,51146,51147,51148,51149,51150,51151,51152,51153,51154,51155,51156,51157,51158,51159,51160,51161,51162,51163,51164,51165,51166,51167,51168,51169,51170,51171,51172,51173,51174,51175,51176,51177,51178,51179,51180,51181,51182,51183,51184,51185,51186,0,0,0,0,0,50915,50906,50907,0],[0,0,0,0,0,41844,41845,41846,41847,41848,41849,41850,41851,41852,41853,41854,41889,41890,41891,41892,41893,41894,41895,41896,41897,41898,41899,41900,41901,41902,41903,41904,41905,41906,41907,41908,41909,41910,41911,41912,41913,41914,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[34880,34881,34882,34883,34884,34886,34889,34890,34893,34895,34896,34897,34898,34900,34901,51321,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,51409,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41408,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,41557,41558,0,0,0,0,0,0,0,0,0,0,0,0,41552,41553,41554,0,0,41556,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,41559,0,0,0,0,0,0,0,0,0,41555,0,0,41451,41450,0,0,41551,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37495,0,0,0,0,0,0,0,0,0,0],
    [38623,0,0,0,0,0,0,0,0,0,36084,0,35285,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37837,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39903,0,0,0,0,0,0,64104,0,0,35290,36697,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35291,0,0,36701,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35292,0,0,0,0,0,0,0,0,0,38647,0,0,0,0,0,0,0,0,0,0,0,0,35546,0,0,0],[0,35804,0,0,0,0,0,0,38875,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40531,0,0,0,0,40362,0,34750,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39914,0,0,0,0],[0,0,0,0,0,0,35438,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35784,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35304,0,35306,0,0,0,0,0,35915,0,0,0,0,0,0,0,64368,0,0,0,0,0,0,0,0,0,0,0,35309,0,0,38109,0,35310,0,0,0,0,40628,35539,0,0,0,0,0,0,0],[0,0,0,0,37595,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38107,35321,0,0,0,0,0,0,0,0,64378,0,0,0,35323,0,0,0,0,0,0,0,40700,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35324],[0,35263,0,0,0,35326,0,35302,0,0,40262,0,0,0,40430,0,0,0,41086,0,0,0,41064,0,0,0,0,39145,0,35688,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36349,35774,40921,0,0,0,0,0,0,0,35563,0,0,40919,0],[0,0,0,0,0,0,0,0,0,35690,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40028,0,35761,0,0,0,0,0,0,0,0,64350,0,34672,0,0,0,0,0,0,0,40435,0,0,0,0,0,0,0,41168,0,0,0,64614,0,0,0,0,37609,0],[0,0,0,0,0,0,0,39660,36779,64072,0,0,0,0,36421,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40047,0,36188,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40670,0,0,0,0,0],[0,35311,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38633,0,0,0,0,0,0,0,0,0,0,40635,0,0,0,0,38110,0,40632,0,0,0,38842,64357,0,0,0,38358,0,0,0,40123,0,0,38874,0,0,0],[0,36677,0,64381,37208,65124,0,38998,39757,0,0,0,0,0,0,0,0,0,0,37723,38343,0,38887,0,0,0,0,0,0,37721,0,0,0,37365,38840,0,0,64930,64438,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37626,0,0,0,0,0,0,0,0,0,0],[0,37719,0,35750,0,0,0,0,64441,0,38832,0,0,64964,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40097,0,0,0,0,0,37362,37369,0,36849,0,0,0,0,0,0,38725,38995,0,0,65144,0,64449,37457,0,0,0,0,0,0,40365,0,0,0,0,0],[64876,0,0,64107,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39874,0,0,0,0,0,0,0,0,0,0,0,0,39547,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35680,0,0,0,0,0,0,0,0,37707,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39613,0,0,0,0,37303,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36171,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38324,0,0,0,0,0,65221,0,0,40688,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36196,0,0,0,0,0,0,0,0,0,37481,0,0,0,0,0,0,36199,0,0,0,0,0,0,0,0,0,0,0,0,64490,0,0,0,0,0,0,0,0,64495,0,36200,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37867,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34682,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64578,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,37222,0,0,0,0,0,0,0,0,64205,0,0,0,0,37853,0,0,36178,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35788,0,0,0,0,0],[0,0,0,0,0,0,0,0,36205,0,0,0,0,0,0,0,0,0,0,0,36206,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38568,0,0,0,0,0,0,0,0,0,0,64678,0,0,0,0,0,0,0,0,0,0,0,0,36207],[0,0,0,0,0,0,0,0,0,0,0,0,0,36208,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64612,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36083,0,0,0,0,0,0,0],[36960,0,0,0,0,0,0,0,0,36212,38851,0,0,0,0,0,0,0,35536,0,0,0,0,0,0,37492,0,39870,0,0,0,0,0,40136,0,0,40122,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36216,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40633,0,0,0,0,0,38234,0,0,37300,0,0,0,0,0,0,35400,0,0,0,0,0,0,0,0,0,0,0,36221,0,0,35453,0,0,35522,0],[0,64842,0,36257,0,0,35537,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64692,35655,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37796,40666,0,0,0,0,0,0,0,0,0,35409,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,36262,0,0,0,0,0,0,40645,0,0,0,0,64708,0,0,0,0,41080,0,38069,0,0,0,0,0,0,0,64706,35435,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36267,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64232,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36269,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64585,0,37825,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36975,0,36272,0,0,34722,0,0,0,0,0,38014,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,37114,0,0,0,0,0,0,0,0,0,0,38009,0,0,0,0,0,0,0,0,36274,0,0,0,0,0,0,0,0,64750,0,0,0,0,0,0,0,0,0,0,0,0,0,39291,0,0,0,0,0,0],[0,0,36276,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36279,0,0,0,0,0,0,0,37299,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36283,36282,0,0,0,0,0,0,0,0,36284,36932,0,0,0],[64844,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34635,37860,0,0,37856,0,0,0,0,0,0,0,64851,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36291,0,39864,0],[0,0,64496,0,37865,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37878,0,0,0,0,0,36293,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36298,0,0,0,0,0,36300,64861,37813,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,64865,0,0,0,40184,0,0,0,37458,0,0,41192,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,35926,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,36310,0,38848,0,0,0,41182,0,0,0,0,38866,0,0,0,0,0,64165,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64931,0,0,0,36315,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36074,36527,0,0,0,0,0,0,0,0,0,37301,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64841,0,0,0,0,0,0,0,0,64977,0,0,0,0],[0,0,0,0,0,0,36331,0,0,0,0,0,38854,0,64974,0,0,37116,0,0,0,0,0,0,0,0,0,0,0,0,0,64601,0,0,38614,0,0,0,0,0,0,38853,36335,0,0,0,0,38871,0,0,0,0,0,36336,0,0,0,0,0,0,0,38566,0,0],[0,0,0,0,0,64447,0,0,36063,0,36339,0,0,0,0,37961,0,36341,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39026,0,0,0,0,0,0,0,36459,0,0,0,0,0,0,64253,0,0,0,0,0,0,0,0,0,0,36688],[0,0,0,0,0,0,40396,64613,0,35908,0,0,39278,38049,0,0,0,0,0,36707,0,0,0,0,0,0,0,41178,0,0,0,0,0,0,0,0,0,0,0,37459,65001,0,0,40373,0,0,0,0,0,0,0,39033,34666,0,0,40285,0,0,0,0,36195,38505,0,0],[0,0,0,0,0,0,40816,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[64618,0,0,35527,0,0,0,0,35287,0,0,0,0,0,0,0,0,0,0,0,0,65101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40669,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65275,39100,64204,0,0,38320,0,0,0,37988,0,0,0,0,0,0,37743,0,0,0,0,0,0,38073],[0,0,38380,0,0,0,0,37358,0,0,39107,0,38390,0,0,0,36861,39109,0,0,0,0,38758,65134,0,0,38877,36010,0,0,37586,0,0,38753,39115,0,0,0,0,38384,0,38749,0,37347,34686,0,0,0,39116,0,0,37993,39117,0,0,0,0,0,39118,0,38396,0,0,38051],[38498,0,0,0,65206,0,37987,36167,0,0,0,0,0,0,39120,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39121,0,0,0,0,38005,64224,0,0,0,0,0,0,0,0,0,38002,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39126,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35568,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[39129,0,0,0,0,0,0,0,36186,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39131,0,0,0,0,39133,0,0,0,0,0,0,0,0,39080,0,0,0,0,0,0,0,35437,0,0,0,0,0,0,0,0,0,0,0,35579,35502,0,0,0,0,0],[0,0,0,0,64457,0,0,0,0,35933,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39140,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39142,0,0,0,0,0,0],
    [0,0,0,0,0,39144,0,0,0,0,0,0,0,0,0,0,0,0,0,35405,0,0,0,37463,0,0,0,0,0,0,0,0,0,0,38367,0,0,41132,0,0,0,0,39147,0,0,0,0,39148,0,36035,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39156,0,0,0,0,0,0,0,0,0,0,0,34777,0,0,0,0,0,0,35512,0,0,0,40679],[0,0,0,0,0,0,0,0,38076,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64721,0,0,0,0,0,0,40134,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36170,0,40574,0,0,0,0,0],[0,0,36164,39166,65000,0,0,0,0,39232,0,0,0,0,38089,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34758,38099,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39238,0,0,0,0,37056,0,38097,0,0,0,0,0,0,0,0,0,0,0,0,0,36174,0,0,38259],[0,34766,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37826,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39240,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,39243,0,0,0,0,0,36437,0,0,0,0,39246,0,0,0,0,0,0,0,0,0,0,0,36606,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36191,0,36441,0,0,0,0,0,0,0,0,0,38124,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38127,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35936,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[36724,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39253,0,0,0,0,0,0,0,0,0,38212,0,0,0,0,0,0,0,0,0,0,0,36043,0,0,0,39254,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,39257,0,0,0,0,0,0,0,39259,0,0,0,0,0,0,0,0,0,0,0,0,0,36036,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64069,0,0,0,37047,0,0,38723,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38349,0,0,0,0,0,0,38857,64848,0,0,0],[0,0,0,0,0,0,0,0,0,0,34730,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36537,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38342,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39271,0,0,36067,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35513,0,0,0,0,0],[0,36348,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35446,0,0,0,0,0,40273,0,0,0,0,0,0,0,0,0,0,0,0,0,39283,0,0,34624,0,40271,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,39290,38244,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39329,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39333,0,0,0,0,0,0,0,39335,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36589,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39341,0,51326,0,0,0,0,0,0,0,0,0,0,0,0,0,37998,36720,0,64208,0,0,0,0,0,0,0,0,0,0,0,0,0,39347,0,0,0,0,0,0,41043,0,0,0,0,0,36190,0,0],[38492,0,0,36064,0,64890,0,0,0,0,0,0,0,0,38910,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37565,36189,38909,0,34779,0,0,36708,0,0,0,0,64759,38242,38861,40548,0,0,0,0,0,0,0,37452,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,36553,39356,0,0,0,0,40357,0,36692,0,0,0,0,0,0,0,0,0,0,36732,0,0,0,0,36181,0,36514,0,0,0,0,0,0,0,0,0,36730,0,0,0,0,0,0,38830,0,0,0,0,38600,0,0,36068,0,0,0,0,39363,0,37078,0,40126],[0,0,0,36726,0,0,0,0,0,0,0,0,0,0,0,0,0,38000,64331,0,0,64970,0,0,36079,0,0,0,36551,0,0,0,0,36180,41209,0,0,0,0,0,0,0,36777,0,0,36177,0,0,0,0,0,0,0,0,0,39367,34628,0,0,0,0,0,0,0],[0,0,0,0,0,37079,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34627,0,0,0,0,0,0,0,0,0,0,0,0,34631,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34648,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40671,36185,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,34626,0,0,39374,0,0,0,0,0,0,0,0,36794,0,0,0,0,0,36843,0,39375,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36802,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37577,0,0,0,0,0],[38876,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34653,0,0,0,0,0,0,0,0,0,0,0,0,34764,0,0,0,0,0,0,0,0,0,0,0,0,36165,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38323,40057,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38322,0,36172,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36827,0,0,0,0,39907,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34636,0,0,0,0,0,0,0,0,0],[0,0,0,0,34637,0,0,0,0,0,0,0,0,0,40570,34647,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39918,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39390,0,0,0,0,0,0,0,0,0,0,0,0,0,64250,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35410,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39393,0,0,0,0,0,0,35431,0,0,0,0,0,0,0,0,0,0,0],[35765,0,0,0,0,0,0,0,0,0,0,35500,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39401,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64458,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38878,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38353,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39413,64586,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39849,0,0,0,0,0,0,0,0,0,0,0,0,64476,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65110,0,0,0,0,0,40612,0,0,0,0,0,0,40265,0,0,0,0,0],[0,0,0,0,0,0,38363,0,0,0,0,0,0,0,0,0,0,35269,0,0,0,0,0,0,0,0,0,0,0,0,39416,0,0,0,0,0,0,38500,0,0,0,0,36949,0,0,38612,0,34756,34734,0,0,0,0,38780,0,0,0,0,0,0,38477,0,38881,0],[0,0,0,0,0,39496,0,0,0,0,0,0,0,0,0,0,0,39497,0,65149,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37034,0,0,0,0,39504,0,0,0,0,0,0,0,37703,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,36568,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37065,0,0,0,0,0,39509,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37052,0,0,0,0,0,39512,0,35768,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37077,0,0,0,0,0,0,0,0,0,0,0,0,0,38465,0,0,0,0,0,0,39514,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39516,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38850,0,0,0,0,0,0,0,0,0,0,0,0,0,34652,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35515,0,0,0,39850,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39520,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37189],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35928,0,0,0,0,0,0,0,0,39523,0,0,0,0,0,0,35913,0,0,0,0,0,0,0,0,0,0,0,35766,0,0,0,0,0,0,0,0,0,0,64719,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38507,39534,0,37199,0,0,0,0,0,0,0,0,38726,0,0,41190,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,37591,0,38517,0,0,37844,0,0,37307,38521,0,0,0,0,0,39536,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38520,37325,0],[40010,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,41071,0,0,41066,0,0,0,0,0,0,37215,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34625,0,0,0,0,0,0,0,0,40869,0,0,35258,0],[34639,0,0,0,0,0,0,34638,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34645,0,0,0,40653,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39545,0,0,0,0,0,0,0,0,0,36082,0,0,0,36183,0,40398,0,0],
    [0,36050,0,0,0,34649,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40307,0,0,0,0,0,0,0,0,0,38585,0,38588,0,0,0,0,0,0,40145,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,35255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40686,34633,0,0,0,0,0,0,0,0,0,0,64323,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,34651,0,40649,0,0,0,0,0,0,64467,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37294,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36184,34630,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,36182,0,0,0,0,0,0,0,40312,0,0,0,0,0,0,0,0,0,0,40315,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[42048,42050,0,42051,40627,0,0,51525,42070,42068,42071,42069,51526,42147,51535,51533,42146,42145,0,0,42306,42305,42304,0,42307,42238,40626,0,40406,0,42464,42465,0,39247,0,0,35278,0,43203,0,35776,0,40900,42072,35796,42148,51536,35954,42149,51555,42730,52145,0,0,50879,35833,42073,42150,0,42308,51556,35142,0,50880],[0,0,51520,42052,0,42075,0,51527,42076,64229,0,42151,0,42309,42311,42310,0,0,42466,42467,0,0,43204,0,44476,42049,51323,35782,51521,42053,42078,42077,0,0,0,0,0,0,0,0,0,42468,40023,0,0,0,0,0,0,0,0,43205,0,0,0,0,39675,0,0,0,0,0,45230,54347],[35280,35279,46787,56497,56498,50881,42054,35281,42153,35298,0,43206,42055,51528,42079,0,0,42154,42156,51537,42157,42155,0,0,37502,42469,40378,43207,0,0,43208,43845,50882,42080,42158,35951,42470,42472,42471,0,42731,0,0,43209,43210,43846,43847,0,0,0,0,44477,0,0,56499,64504,0,63190,42056,35783,37483,0,0,35282],[42160,42159,51538,42161,42167,0,42162,42163,51540,51539,42165,42166,0,42164,40911,0,0,0,0,0,42314,42315,42316,42317,42313,42320,51562,0,51558,50911,42321,42337,0,51560,0,42318,42319,42312,0,0,51557,51559,40361,35283,0,0,39394,0,42485,51632,42482,42486,51642,51630,42483,51634,37479,0,0,42484,0,42487,0,42473],[51633,42488,51637,37540,51641,51638,0,0,51635,42474,42476,42489,0,42478,51627,42481,42479,42480,51643,51640,51631,42477,0,35955,51628,42475,35150,0,0,51636,0,0,0,0,51639,0,0,0,0,0,35151,37496,0,0,51629,51814,0,42818,42740,0,37302,51815,42737,0,42820,35284,42745,40914,42744,51803,42748,42743,51808,51816],[0,51812,37543,42746,0,38306,42749,42734,42823,51805,0,37486,52157,42732,42819,42733,42741,42742,51810,51806,42747,42739,51802,42735,51813,42821,42824,42738,42816,42822,42736,51811,42817,51817,51804,42750,51807,0,0,51809,0,43224,52159,52171,43216,0,52172,43211,43221,0,38634,43214,52153,43222,52152,52156,52163,52161,43230,43225,52147,52149,43227,43215],[52150,52162,52169,43220,52155,52148,43219,52151,43223,52154,37487,43218,0,43213,0,43228,52164,43229,52168,0,52166,52170,43226,52158,52146,0,52160,43217,52165,43212,52167,0,0,0,37539,0,0,0,0,0,35152,0,0,64087,0,0,43862,43850,39014,0,52704,52712,36088,43849,43857,43869,0,52718,52716,40019,0,35286,0,43851],[52717,52707,43865,43856,43864,52702,0,52714,39090,52705,43860,52706,37547,52701,43867,43854,43863,43853,0,52703,52708,0,52715,43861,43858,52710,43866,52713,52709,43855,43868,43859,43852,43848,0,0,38622,37548,0,0,0,0,0,0,52719,0,44503,44481,35952,44497,40814,44502,53456,53455,53460,53461,44484,36594,44493,0,0,40812,44506,0],[44494,0,0,35288,0,53449,44487,53450,64089,44508,0,44499,44478,44479,53469,45247,0,44492,44491,53451,44495,54363,44486,53462,44501,44500,44490,53454,53463,0,53448,44489,53464,44498,53452,44480,0,44483,44482,53465,44496,44485,44505,44507,53459,44504,37544,53467,53453,53468,0,53457,37219,53466,0,53458,0,0,0,35904,44488,0,0,0],[54371,54359,0,45235,0,54364,54370,45234,54357,45238,54361,54354,45236,54358,45241,45246,0,54375,0,54353,0,45242,40819,54374,37549,0,45237,54360,45233,54355,54351,54365,54352,54350,54362,54368,54369,45239,39913,0,55387,54366,54349,54367,37545,45249,54372,45248,54348,0,54356,54373,45244,45243,45240,45245,0,0,45231,0,0,45232,0,0],[46024,37546,55390,55383,0,46021,0,55391,35289,0,0,55381,55384,46020,55385,0,64854,46023,55389,0,55379,55378,46025,0,46026,46022,46027,55377,55388,55386,55380,0,0,0,46019,55382,0,0,40872,0,0,0,0,0,46794,46788,56503,46797,56509,56512,46790,46791,56506,46789,56515,46795,56516,0,56511,46796,35953,56500,46793,56501],
    [0,56510,56508,0,56504,46792,56502,46798,56507,56514,56505,56513,0,37537,47542,47539,37091,47540,0,57593,57585,47538,47535,57586,0,41126,47537,57589,0,57591,0,38059,57598,64626,0,57597,57592,47534,57584,47532,57587,47543,57590,0,57594,40907,47533,57596,57595,47541,0,57588,38852,48120,58604,0,58601,48121,0,48119,37550,58608,58605,58598],[48118,64103,48122,58599,48117,48125,58602,58603,48123,48124,58609,58606,58607,37538,64105,0,48810,59640,48807,59637,48809,48811,0,59638,48808,0,59639,0,59636,0,0,49270,60605,49271,60603,0,60604,60602,60601,0,0,60606,49269,37480,0,61368,61369,0,58600,61367,49272,50015,61931,61932,0,50391,50392,62913,62912,50540,50539,63440,0,42057],[42081,42169,0,42168,42323,42322,42492,42491,42493,42490,0,42826,42825,42827,0,0,0,0,43232,0,43231,43233,35153,43870,0,37551,53470,37552,45250,37553,37554,55392,64111,41565,47544,41566,0,42058,0,42170,42494,43234,64113,42059,42173,42171,42172,0,0,42560,0,0,35154,42828,43236,43235,43237,37978,0,0,44509,0,0,0],[48812,0,50883,0,0,0,35293,51534,51362,42324,42325,0,0,42561,0,51818,0,43872,43871,53472,53471,45251,50884,42174,51541,0,40530,0,35155,0,52173,0,43873,0,44512,0,44510,44511,0,40533,37562,0,48813,50885,42326,0,35931,0,42562,51644,64125,64168,39528,64071,42829,42830,64126,51819,0,0,52174,43238,52175,0],[0,0,0,37563,53474,53475,44515,64950,53476,64162,53473,44516,44514,44513,53477,64163,54376,64164,39860,64166,55393,0,0,56517,57664,0,0,35295,48126,48814,59641,64987,42060,42074,64169,0,35156,0,0,0,0,0,0,0,0,64171,0,0,45252,46029,0,47545,64634,51522,42175,0,42329,42327,42328,0,35296,43239,40783,0],[42061,42062,51325,42082,0,35297,42176,42177,42178,51646,42330,64176,51563,0,42566,0,51647,42564,42565,51645,0,0,42567,42563,0,0,0,0,51820,43756,51821,40909,41191,51822,0,0,42832,42831,64177,35238,42835,42833,42834,0,0,0,43245,0,43244,52180,52177,52178,40698,52176,43246,43242,43241,0,43243,43240,64178,0,0,0],[0,43247,0,43875,52720,0,52179,43880,0,52721,43876,43879,43878,43877,43874,34748,0,0,53480,0,44519,53483,44517,64180,0,37572,53479,44520,44518,44521,53481,53482,40815,53478,53484,0,0,0,0,0,35760,46033,45253,54377,54379,54378,54380,45254,0,0,46030,40876,46031,46032,0,46800,56519,35299,56518,56520,56521,46801,0,46799],[57665,57666,47547,47546,58202,0,0,48192,48193,48194,48196,58610,58611,48195,0,39891,35300,48815,0,48816,64181,0,61933,62915,62914,63441,40917,42063,0,0,0,42332,42331,35157,0,42568,37573,0,51648,0,35158,42837,42838,42836,42839,51823,51824,0,0,0,0,0,0,64179,0,0,0,64182,0,43249,52181,0,43248,0],[52722,43884,52723,43883,0,64183,0,43881,0,43882,0,0,40668,53485,0,0,64452,40817,45255,54382,0,45258,54381,45541,45257,45256,0,46036,0,46035,46034,46802,64186,37575,46805,46806,46804,0,46803,0,0,57667,0,57668,0,0,0,58613,48197,58612,0,48817,60607,49273,0,61934,50261,50886,42083,42179,51542,0,42180,42181],[0,39500,0,0,0,42333,42334,0,42569,51825,52182,52183,0,43885,53486,45260,45259,55395,55394,0,0,42064,42182,42335,0,45261,51523,0,51564,42336,0,51650,42571,42570,51649,42840,35944,0,0,35301,0,0,44522,0,40829,54383,0,46807,57669,47548,41129,64196,59642,0,0,62461,50887,42183,0,35159,52184,52724,45264,45262],[45263,42065,64170,42084,41677,42186,0,42185,42184,42339,42338,0,51565,51651,35160,0,0,43253,43250,43252,43251,0,0,43886,0,0,46037,0,42066,35811,42187,35681,42341,42340,0,51826,39665,0,43254,40631,0,50888,0,0,51543,64209,42343,42342,42572,42573,51827,42841,64210,42842,0,43255,43256,43257,0,43887,52725,40634,64212,44523],[0,0,51524,0,42188,0,0,0,0,0,51652,0,0,0,51828,51829,0,0,52185,64217,52186,0,52727,52726,52729,52728,43888,0,54384,44525,53487,44524,64219,0,40160,0,55396,46038,64503,55397,64506,35303,41082,64220,57670,47549,64221,0,35305,0,48198,0,61935,0,50889,0,0,51544,0,42344,0,0,0,0],[0,64226,35307,45265,0,64227,0,0,42067,42085,42190,42189,37064,42191,0,0,37594,35161,40181,0,43259,0,43258,43260,35162,64231,40866,43889,0,0,0,44526,64234,59643,49743,42086,42346,42361,42356,0,42351,42350,42357,42355,42348,42362,42349,42345,42360,42359,42358,42347,0,42354,64237,36781,42353,0,0,42363,42352,0,64345,0],[0,42579,0,42585,42581,0,42587,51653,42584,42574,42577,42580,42576,42583,42586,42575,42578,42582,42588,64239,38639,0,40428,0,51838,51835,40394,42855,51836,42843,42845,42869,42864,64877,0,35308,51877,51837,42847,42849,51876,42856,51832,42868,42870,42844,42861,64324,51830,42867,40418,42852,35957,42862,42863,51831,42860,42858,0,42859,42865,51873,42846,0],[42866,51875,42854,42851,0,51834,42850,51878,42853,0,42857,40640,34757,40534,42848,51874,0,0,0,0,51833,0,0,0,0,0,0,0,0,0,0,0,52203,52202,43343,52205,52207,52196,52199,52206,43344,40825,39623,52193,52197,64244,0,52201,52809,43339,52813,43261,52198,43262,43340,43333,43329,0,52194,43332,43337,43346,52195,52188],[43331,52189,52191,0,43334,39073,43336,52187,52192,0,0,43345,43341,52200,43347,64248,43338,52190,43335,35312,40519,43330,43328,40439,52204,0,43342,0,40915,0,39626,0,52808,52731,52811,35313,64249,52733,43896,43944,43892,43943,43901,43940,43890,52732,52803,43939,52815,43941,36442,43897,35314,0,52805,52802,43895,35315,52730,43942,52810,43900,52812,43945],
    [43891,43902,43899,52800,43937,52806,52807,43898,43938,43894,0,37469,35665,37600,43893,52734,35316,0,0,0,0,0,52804,0,0,0,40916,0,0,0,52814,0,53572,44539,53489,35449,53494,44532,44608,53492,44527,44537,44542,53499,0,44538,44541,35317,0,53502,44533,53493,0,0,0,53570,53571,0,44535,53569,44531,44611,0,53496],[0,44529,38823,53574,53497,53501,44534,44610,53498,44540,53568,53575,54433,37818,53573,44612,44528,53500,53491,40536,44536,0,0,53490,35318,0,53495,0,0,0,40535,0,0,0,0,35319,0,35393,53488,44609,35320,0,54391,64241,45284,54439,45282,45279,54396,45275,54434,45286,54390,54395,54394,44530,45281,54437,0,54440,54387,0,46056,35322],[54441,45287,0,45273,45270,54398,45267,64322,54438,64191,45274,54442,0,54388,54436,45277,54389,54392,54397,64419,0,45278,45276,45288,0,0,0,0,45283,64247,45271,45522,0,45272,54393,45285,45280,54435,45269,0,0,40526,45268,38108,0,0,0,0,0,38362,40440,40810,0,54385,54386,55402,0,35511,0,46039,46042,55413,46062,55416],[46040,55409,46046,46052,46525,0,64326,46050,55406,46063,46043,46051,55414,56535,55419,55407,35398,55398,55411,55405,46049,55417,0,0,46045,46065,46058,0,46047,46044,0,46055,0,55418,55404,55410,55412,55400,55415,46041,55399,64327,46048,46064,46060,55401,46054,0,37192,46061,46057,46053,37598,55408,0,0,0,35667,40438,46059,39898,0,0,56533],[56529,40318,56544,56522,56531,46821,46822,46814,56540,46824,56527,56526,56524,56542,46812,56536,56525,46815,56534,46810,56530,56537,56539,35325,39396,56543,46819,56523,46813,56528,40515,46808,0,46820,56538,46816,46817,46823,46811,41567,46809,56532,40425,0,36690,0,0,46818,40437,40432,56541,0,0,39399,47565,47560,0,57685,57681,35773,57675,47554,47550,57684],[47551,57678,57680,0,57683,40431,47556,0,47563,47557,0,0,57673,47558,47559,57676,47564,40887,57674,57679,47555,57672,47561,47553,0,0,0,47552,57677,57682,40400,47562,40939,36265,40399,39137,0,40421,0,57671,0,48205,58695,0,58692,40392,48199,48211,48212,0,48202,58690,48204,58617,48210,64335,58694,48201,58696,48200,0,58691,58693,48203],[58689,58618,58615,40427,0,55403,58621,0,58614,58620,58619,0,58616,64340,48207,64341,39586,0,35542,48206,39519,0,0,48208,58622,48818,58688,0,0,40693,59717,0,59645,36791,48830,59714,48822,48826,59713,0,48825,48821,48824,48819,48829,59715,59646,48828,59644,48827,59716,59712,48209,0,48831,59718,48823,48820,39634,40554,40680,0,60614,60616],[49275,60617,60615,60613,60612,49277,60611,49278,0,35775,37314,40290,60609,60610,49274,49313,49276,0,37472,60608,0,49744,0,61372,61370,61375,61373,0,61371,61374,37470,37313,0,35525,0,0,38819,50016,61938,61939,50262,0,61940,61936,61941,61937,49745,35692,0,36222,62462,62529,50265,62528,50264,50263,0,40020,0,0,50266,62917,62918,40381],[50394,50393,50395,62916,0,63192,63191,0,50541,50543,50542,63193,50632,63654,0,0,0,50673,0,63653,63726,0,40133,51529,0,0,42365,42364,0,42591,42590,51655,42589,51654,35163,0,42873,51881,0,51880,0,0,42871,42874,0,64348,51879,64347,42872,64343,0,0,0,0,0,52208,0,52209,43348,34661,0,39111,0,43946],[64346,53576,53577,44613,44614,0,0,54444,45289,45291,54443,45290,55420,46066,0,0,0,0,46825,46826,56545,40174,47567,0,47566,0,58697,59720,59719,37602,63851,42087,51545,0,51566,51567,0,0,0,0,42594,42598,51657,0,42596,42595,51656,42597,42593,0,38055,42592,51658,0,0,0,0,0,0,42918,0,36044,42915,39892],[42877,51882,64356,64374,0,51883,64352,42913,0,51885,42875,51886,51884,42878,42914,42917,42916,42876,51887,0,39397,0,0,39618,0,0,0,37371,0,0,0,41075,0,43353,52222,0,43355,0,43354,40818,52288,43352,43351,52213,0,52212,0,52210,52215,52214,52211,52220,52221,52218,52216,43350,0,0,40908,52219,43356,52289,39077,37608],[52217,0,43947,43349,0,0,0,0,39868,0,38643,43948,52820,37607,0,52826,64615,0,0,43954,52824,52830,0,52821,52825,52827,52829,52823,35709,52822,52817,52818,43949,39924,43951,43950,52819,52828,0,40695,0,0,40641,0,0,0,43953,0,0,0,0,34755,39279,52816,53587,0,53586,53591,53582,38641,53585,53584,36417,53588],[0,53592,44615,44618,38218,0,53583,53589,38886,0,0,44617,53578,0,43952,54458,53590,0,53581,0,44616,53580,0,38645,0,0,0,0,54449,37606,40770,45292,45296,54465,54447,54461,45297,54463,64359,54469,0,54473,0,0,54464,54452,54460,39337,54474,54472,54462,54457,54450,55462,54448,45301,54455,45302,45298,54445,54467,54453,64230,0],[54451,54470,45299,64361,54476,45293,45295,54459,54454,44619,45294,54456,54471,54475,54466,0,54468,0,38885,0,54446,0,0,0,34760,55457,0,55466,55465,46074,55458,0,46075,46073,38525,55460,46070,55464,64364,55459,55461,55421,46068,0,55474,55473,55470,46067,46071,46072,53579,55467,46069,45300,55469,55422,55472,55471,39330,55475,0,56559,0,55468],[39611,0,0,0,39525,0,0,37966,55463,56551,46836,46839,46834,56550,56554,56549,0,46828,46838,56546,46832,56553,0,46830,46829,56556,46831,56558,64366,56555,46827,39391,0,0,46837,56560,56548,56557,0,0,56547,39139,0,46833,37460,46835,0,56552,0,56561,38523,35503,57693,47568,57699,0,0,47573,57695,57702,57687,47575,47569,57692],[48213,57691,57700,47570,0,47574,57690,57696,57701,57686,47572,57694,0,0,57698,57704,57688,57697,35959,47571,57703,0,34736,0,57689,35759,40637,0,48217,58699,48215,48214,58701,58706,0,58702,0,58705,48220,40678,48805,48219,64367,58698,58704,0,48218,58703,36577,58700,0,48216,0,39805,40062,0,0,0,59725,63961,59727,59722,48833,59724],
    [0,48832,59726,0,0,48835,59728,48834,59721,59723,0,37610,0,0,49317,60620,35960,49316,60621,49315,60619,49314,60618,0,49747,49746,61942,61944,64370,61943,50017,50018,64369,0,50019,62530,50267,0,0,63443,63442,50674,0,42088,42192,0,0,42919,35164,0,39152,38642,52831,0,0,0,0,46076,46077,64372,56562,47576,57705,58707],[0,0,35777,51546,35165,35294,51888,35166,0,0,50890,0,52290,52832,53593,44620,0,65090,61945,0,50396,42089,42366,51568,0,42599,42600,0,43357,34664,0,64379,45303,0,47578,0,47579,47577,0,42090,0,42193,42195,42194,51547,42196,42401,51569,0,42402,35167,0,35168,0,0,42601,42602,0,0,0,51659,0,42920,0],[51889,0,0,0,43361,52291,0,43359,43360,43358,53594,0,0,0,43958,43957,43959,43956,0,52833,43362,43955,0,44621,44622,0,44623,0,54477,0,0,0,46078,55476,45304,0,0,39885,0,46840,0,47581,47580,57706,0,48221,48836,0,61376,63194,63444,42091,42403,40403,42404,51665,42604,42607,0,51663,51661,42606,51664,51666],[51660,42609,42608,42605,42603,51662,0,0,0,38988,42931,0,0,42928,51894,51897,51896,0,42922,42930,38738,0,42927,51893,51891,42926,38339,0,0,42921,42924,39862,51892,51899,51895,42925,42929,42932,51890,51898,42923,0,0,0,39609,0,43367,43375,38835,52303,52296,43376,52307,52292,52299,40820,37617,43366,52293,43364,52300,52304,43363,36090],[52305,52298,0,52301,38879,43378,43369,52308,52306,64422,43374,43372,52297,43371,52295,52294,43370,43368,43377,43373,43365,0,52302,0,43961,64427,43968,52847,43960,52839,52835,0,52851,52834,0,43963,52844,43966,43969,0,43964,52848,43967,39031,44630,52854,52836,38996,38341,52838,52845,52849,52853,52850,52843,52846,40277,64434,52840,43971,52842,52841,52852,43962],[52837,43970,38270,43965,0,0,0,0,0,44636,53602,38722,44635,38118,0,53600,0,44624,37621,44629,0,53599,53596,53601,44625,53595,36037,44628,44626,0,53603,44627,44631,37629,0,44632,64418,44634,0,40017,0,44633,38121,39004,37616,53597,53598,0,0,0,0,53604,0,54484,45305,55490,54483,54502,0,0,45376,37964,54500,0],[45310,45306,54509,54493,54496,37227,45379,54506,54498,45307,45380,0,54503,54501,0,0,54486,54507,54495,54490,35704,54480,54508,54492,54479,38114,45378,54497,54510,54494,54482,54487,54478,38991,45377,64437,54491,54488,45308,40144,37489,54505,45309,37733,54489,54485,39003,0,54504,38992,0,0,0,0,0,46144,55483,38844,55480,55497,55485,55498,37619,46146],[0,37696,38989,55494,55491,0,38258,0,65007,0,55492,55495,55499,0,54499,55501,56647,64961,46147,55502,55478,55488,64442,55493,0,37611,46145,46148,55500,55503,55482,55479,64627,38839,55481,0,34671,55486,55484,46149,0,55496,0,64436,55487,0,55489,55477,56570,56568,46914,46912,56643,56569,56644,56640,56567,56646,56566,56573,46846,46845,46844,56571],[56641,46841,46913,37031,56564,0,56574,56563,56572,46842,56642,56565,46843,56645,38721,37620,0,34674,0,64444,0,57710,47586,47585,47587,57722,57712,57718,57707,57721,57720,57724,57717,47582,57716,47588,38263,57709,47583,0,57723,47584,57711,57714,57719,57713,57708,0,40674,0,36728,57715,58709,48225,58712,58711,58714,58716,63964,48223,0,58710,38514,58708],[0,58717,58715,58713,0,58719,0,58718,48227,48222,0,48224,48226,40629,0,58720,59735,38475,0,59734,59733,36012,59736,59729,0,59730,59738,59731,0,48837,59740,41210,59739,59732,0,60625,49320,60623,60628,60627,38652,0,49319,38261,60626,60622,60630,60629,49318,0,60624,0,48838,0,0,0,49748,0,0,0,61377,61946,61947,61948],[50268,37082,0,50269,37735,62531,65188,62920,62919,0,37087,63195,63196,63445,63655,37716,42092,42093,0,42094,42197,42405,51667,42610,42611,0,42935,42936,42934,42933,0,43379,0,0,52309,43381,43380,52310,35169,0,35764,43972,0,44637,53605,40384,54512,0,45381,46151,54511,46150,36424,47589,64453,57725,48839,0,49321,60631,64455,50270,0,50544],[50891,51570,64121,42406,51571,42614,0,42612,42613,42615,0,42938,42937,0,51900,42939,40551,0,51901,52311,0,52312,36057,43382,43384,43386,43383,43387,43385,64466,35170,35171,0,0,43976,43973,43975,43977,43974,53606,52855,0,64637,0,53608,53607,44643,0,44639,0,0,44640,44642,44644,44641,34675,44646,44645,0,0,0,0,0,45386],[54514,54513,45385,40811,45384,45383,45387,45382,0,0,55509,55506,46153,55505,55510,0,46155,55508,46152,46154,55507,64460,56648,65198,56649,56650,0,34669,0,0,47590,47598,57726,47592,47596,57761,47597,47593,47594,47591,47595,48230,55504,48231,48229,0,48228,59741,48840,60632,60633,64465,0,50020,50271,0,42095,0,42616,0,0,0,0,64373],[0,43978,0,53609,44647,64468,0,45390,45389,45388,46156,46157,55511,47599,48841,42096,40124,42198,51572,64470,64472,51668,42617,0,0,0,43388,0,35677,0,37708,56651,39650,0,42097,35785,42199,51669,0,0,51902,0,51903,0,42940,0,0,0,55512,46158,0,56652,0,0,0,49322,42098,42152,42200,51573,42407,0,42944,42943],[42941,42942,0,0,52313,43390,43425,52314,43389,64475,40905,43982,52856,43981,43979,43980,44650,44648,0,40772,53611,44649,53610,0,44638,54515,0,0,45392,45393,39149,0,45391,0,47600,57762,48232,48233,0,58721,49323,61378,61379,0,50397,63656,51531,42201,0,42099,0,51575,51574,0,0,0,36073,42618,51671,51672,51670,0,51673,0],[0,0,0,0,0,64477,51911,0,51906,51908,51910,51907,42948,51904,0,51905,42945,42946,51909,51912,42947,51913,0,0,0,36338,35172,0,65010,52328,37709,52322,52317,43427,52325,52323,52316,52329,52332,52327,52320,43429,52326,43430,52321,52324,52315,52319,52331,43431,0,43432,0,52318,52330,43426,43428,0,64487,0,0,0,0,0],
    [0,41202,39016,0,0,0,52907,52900,52906,52899,52901,52861,52859,0,52908,52905,52857,40792,43984,52903,52904,36070,52902,52860,52858,43983,52898,52862,0,0,52897,52909,0,0,0,0,0,36211,0,0,44655,64478,44654,0,53612,44651,53614,64479,44656,53615,0,0,44659,35912,44657,53616,52910,53618,0,44653,34676,44652,0,53613],[53617,44658,0,0,0,0,45395,45394,0,0,0,54517,54521,54523,45396,54526,64483,45400,54593,0,45402,36264,45398,45406,64484,45403,54519,45397,0,54518,54516,54595,54520,0,45399,54594,45404,54525,54524,45405,54522,45401,0,0,40053,0,54596,39032,54592,55527,55534,55523,46161,55519,55535,55513,55532,55530,55524,0,55533,55526,36192,55518],[55536,55516,55529,55514,0,55537,64485,46162,36193,55531,56655,55517,46159,0,55521,0,46160,55520,55525,0,0,55522,36194,41121,0,55528,0,40000,0,0,56659,0,0,0,56662,56654,0,56656,0,56661,56660,46915,0,55515,56658,0,0,46916,39085,56653,56657,0,40682,0,0,57769,36076,57776,57767,36052,57774,57765,57773,57777],[57764,57768,57763,0,47601,40171,57766,47602,57772,57771,57770,64480,0,57775,40785,0,0,0,58725,58727,48235,58728,0,58723,0,58722,58732,0,58730,48234,58733,58724,58729,58731,58726,0,36197,0,0,59745,59750,59744,59749,40177,59742,59752,59748,59753,59747,59743,59751,0,59754,59746,64600,60634,49327,36198,49325,0,49324,49326,0,0],[61380,38484,61810,61949,0,0,62532,62533,0,50272,0,62921,0,50398,0,62922,0,63198,50546,0,50545,63197,50633,64488,63446,0,0,50892,0,42100,42619,51674,51914,43189,45407,0,0,42101,42410,42409,42408,0,0,42949,0,0,44660,0,56663,42102,42103,42104,42202,40910,0,43985,0,52911,0,0,0,46163,42105,51549],[0,0,42411,42412,51576,0,42620,0,0,64508,51915,39652,42950,0,51916,0,0,43438,40821,0,52334,43436,43435,52333,43433,52335,43434,43437,0,43986,0,43988,52915,52912,52913,52914,52916,43987,0,0,53620,53619,0,44662,0,44661,64497,0,0,0,0,45410,54598,0,45409,45411,45408,0,0,0,0,46165,54597,0],[46166,55539,36201,46167,55538,46164,0,0,37711,0,56666,56668,46917,56667,56665,56664,0,0,0,57780,47607,47605,0,47606,57778,57779,0,47603,58737,58735,37710,48237,58736,48238,48236,47604,0,0,59757,59755,59756,58734,60636,49328,60635,61381,61382,59758,61950,0,42106,42413,42622,51675,42621,0,43439,46918,64500,42203,42414,43989,46168,50894],[51577,0,51578,64451,51676,0,35173,42952,51920,51918,42953,51917,51919,51921,0,42951,0,0,35962,0,0,43443,43444,43441,0,35963,43440,52920,43442,0,0,0,43990,0,52919,52921,52918,52922,43991,44665,53621,0,53623,44663,53624,44664,53622,0,52917,54599,54602,54603,54600,45415,45414,45412,45413,54601,0,0,0,36202,45416,0],[0,46170,46171,0,46172,56669,56671,56673,46920,46919,46169,56672,56670,37715,57784,0,40443,57782,57788,47608,57789,57786,47609,57783,57781,57787,48240,58739,57785,48242,58740,48241,48244,58741,48239,48243,0,59763,59761,59760,59762,59759,0,0,50022,0,62534,62535,0,62923,63199,50773,50895,0,43445,42954,36953,64576,43992,64577,64579,0,42107,42204],[0,42415,51677,0,42955,51922,0,52923,43993,0,47610,42108,37729,64582,37730,42657,0,0,46921,42109,42205,42206,0,42417,42416,0,51678,42658,0,51923,0,42956,0,0,52337,52338,52339,36203,43446,43447,52336,43448,0,0,0,43994,52924,0,53626,44666,0,53625,0,45417,54604,45418,54605,0,64588,36094,46173,0,0,0],[56674,0,0,57791,57790,0,47611,0,48245,58742,48842,59764,49329,38328,50547,63448,50896,35786,0,0,52340,0,52925,45419,55540,46922,0,0,39034,49749,0,0,0,50897,42958,64593,42957,43995,0,53627,0,45421,45891,45422,45420,46174,0,57792,47612,48246,64596,51532,51679,0,51925,42959,51924,42960,0,64175,43452,52343,52342,43451],[43449,43450,52341,36204,0,43997,52926,44000,43996,44002,43998,43999,44001,0,0,0,44669,44668,44667,0,0,0,54607,45423,45426,45424,0,54606,45429,0,45425,54608,45428,45427,0,0,64097,55542,55541,64599,46177,46175,46176,55543,46923,56676,46924,56675,0,39792,58743,0,0,48248,57793,48247,0,47613,41041,60638,59765,49330,60637,62016],[62536,62537,35964,42207,35787,42418,0,0,0,51579,0,0,42962,42964,0,51682,51928,51927,51926,0,51681,51680,42660,42963,42961,42659,0,37742,0,43453,52344,64725,43454,51933,0,51935,51934,52345,0,0,51930,0,42968,42966,0,51929,51931,51937,0,42965,0,51932,51941,43456,0,51938,42967,0,51936,51939,0,43455,0,43457],[51940,0,0,0,0,0,0,0,0,52399,52386,52350,52398,52393,44007,43458,52394,52397,44003,52396,43459,43464,43462,52387,0,52348,52389,43469,52400,44004,52390,0,44005,43465,52392,64681,52941,44006,52347,43466,44008,43467,43463,43468,52391,52346,52395,43460,0,64609,52349,52388,52385,43461,0,52927,0,52928,0,35174,0,0,0,0],[52938,53665,52939,44014,52942,52932,44013,52934,0,52935,64203,0,52937,44009,0,0,44707,0,63962,52933,52929,44708,0,0,52943,44670,53629,52936,0,53628,52931,52940,0,0,40617,44705,44018,44706,52944,53630,44011,44710,44017,44016,44015,44709,52945,44711,44010,0,52930,0,0,37754,0,41184,0,0,0,0,0,0,37739,45430],[53668,53670,0,53672,44712,44718,54611,53676,53667,45432,54609,0,44717,44715,53678,0,54610,0,53669,0,44716,53673,44719,53675,0,0,44714,53674,53677,53671,64619,44713,45433,0,53666,45431,41180,0,0,37992,45434,0,0,0,0,0,0,0,54613,54622,46180,64621,45436,45475,46181,54624,45482,55545,54614,45474,45477,45438,54612,54626],
    [54629,55625,0,54627,55549,45473,45480,45484,54621,55544,54625,45435,55546,54628,55548,54617,0,46178,0,54615,54616,45479,0,36209,45478,54619,45483,54623,45476,54620,39916,45481,46182,46179,55547,39354,54618,0,45437,39632,39521,41189,0,0,0,0,0,0,46187,46191,55616,46929,46189,55620,46193,56677,55622,46931,46185,46188,55623,41051,55624,55630],[46195,46932,0,55626,55631,55619,46942,38572,46933,46194,55617,55632,38720,46941,46192,46926,55629,0,46196,55621,55550,46186,55618,0,55627,40689,46925,46930,46183,55628,0,46928,0,0,35917,46184,0,0,0,46940,57795,56688,0,56680,57794,0,56684,56686,40830,0,56683,0,46939,0,56682,46943,0,0,0,57810,0,36210,46938,47680],[56689,57796,64630,0,46936,56681,56685,47614,46927,56678,56679,47681,46935,46937,46934,56687,38569,0,57800,57801,57806,48253,57813,0,47687,41070,47686,57808,64682,48252,57797,47685,64461,57812,47683,47684,64628,57809,58794,48250,46190,0,57811,48291,57803,0,48251,41076,48290,57798,57802,57799,57805,47688,48249,47682,0,58746,57807,0,48289,41073,48292,0],[57804,64633,48254,58745,0,0,0,64636,0,58750,48846,58744,59811,58793,48296,0,48294,48844,58790,58786,48300,40016,59768,0,37753,37752,48298,58785,41181,59766,0,58789,0,58792,58749,0,48299,0,0,48293,59767,48845,58791,48295,48297,58788,48301,58787,58748,58747,48843,58795,59770,60640,48848,36213,59810,36214,59774,0,60641,0,48849,59809],[37748,59772,49332,60639,0,59769,59771,49333,48851,49331,48850,49335,59773,48847,0,36215,64677,0,0,64674,0,0,61391,0,61383,0,37059,0,0,0,60647,61384,60643,0,41081,49750,60645,60644,49334,60642,60646,61392,61388,61390,0,61385,61386,0,61389,61387,50023,0,0,50026,50025,50024,50273,62538,50274,62017,50399,62924,50400,50548],[50634,63449,0,63450,63451,0,0,63930,42208,51580,42419,0,42662,42663,42661,0,42664,42970,42969,0,52401,43471,43470,0,0,53679,45485,45486,0,0,0,46197,56690,46944,46945,56692,56694,56693,0,57815,0,57814,47689,57816,36217,58796,48302,0,48852,0,49336,49751,49337,0,42209,35836,0,41078,51942,0,0,52402,43473,43472],[43474,44019,52946,52947,0,0,53680,44720,45487,46198,55633,42210,35789,42110,42211,0,51581,42423,42422,42420,42421,0,0,0,42667,51689,51691,42666,51683,0,51684,0,51690,51686,51688,42665,51685,51692,51687,0,40794,0,0,0,0,42977,42986,42984,51952,51949,51957,42982,51958,0,42975,51955,0,42981,51951,51950,42979,51956,42980,43475],[42974,51953,40948,51943,42971,40890,42990,51948,51954,42976,42978,0,51944,0,51945,51946,36218,42989,42983,42988,51947,42987,42973,42972,42985,0,0,0,0,40517,0,0,0,0,0,0,37808,0,41077,0,43489,52414,52407,43484,43503,52403,52410,52412,52415,43498,0,52411,52404,43496,52408,0,52416,43481,0,52413,43491,43490,52406,43479],[0,34781,43480,39750,43478,64686,43502,43494,43488,43476,52409,43487,43477,43495,41079,52948,40388,52405,43482,43485,43486,64688,43500,43501,43499,43493,43497,43483,44020,0,0,64081,0,0,0,0,0,36219,0,0,0,0,0,52954,44097,44024,44026,44096,52966,44029,53681,44721,44099,52951,52959,44030,52958,52955,52963,52965,44023,44027,44098,44723],[52960,44025,44101,52953,0,0,0,44028,44722,44022,0,52950,52957,52949,52952,52956,53682,44100,0,52961,52962,52964,44021,0,36220,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,44737,53694,44735,44736,53684,53700,40662,44726,0,37804,54630,53702,53696,40795,53687,37801,53705,53690,44732,54653,53693,44734,44725,0],[53707,53695,44728,53688,53685,53686,44729,53701,53708,44731,53692,53691,44739,44738,44724,44730,44733,53704,0,0,53698,44727,53683,53706,53697,53699,53703,0,0,0,0,0,0,0,0,0,41084,54631,0,45495,45515,45514,0,45503,64690,54649,54645,54642,54694,45498,45490,0,0,54647,46248,45494,54689,35521,45516,45513,54651,54634,0,40884],[45512,54691,54633,45501,45505,54690,0,54643,45506,45500,54632,64684,46200,54693,54641,45511,54644,54692,45510,0,55634,0,45491,54639,45496,45507,0,45502,54648,54638,54636,54654,45488,45508,45492,46199,54652,45493,0,45489,45504,45499,45497,54640,45509,54637,54650,54646,55636,55635,0,0,0,0,0,0,0,40524,0,0,0,54635,55652,0],[46202,36805,55658,55641,55655,56695,46205,55659,55662,46204,55644,55661,55660,46206,55637,46201,46243,37805,46241,55657,0,55647,46245,55664,55656,55665,46253,46251,55654,55653,40387,55651,55645,46244,36258,46242,53689,55638,40266,56759,55639,46203,46250,56697,0,46246,46247,55640,55663,56696,55648,55643,46249,55649,55646,0,64694,46254,0,36259,40523,0,40525,0],[0,0,0,0,0,0,46960,36260,0,56700,56753,56758,56746,46956,56763,46953,56698,0,56699,46946,46955,56740,46958,46959,56741,0,56754,56760,46954,0,46948,56739,56701,56762,56744,56745,56702,56756,56747,56757,56749,0,46949,57817,46952,46950,56761,56752,56748,0,35581,56737,47699,56751,46957,56743,64693,56742,64707,37810,0,46951,46947,57838],[56755,56750,0,56738,0,0,0,0,0,0,0,57833,0,57818,57829,0,57836,47697,46252,57834,47692,0,0,0,47691,57841,36261,57819,57832,57820,57831,47695,57835,55650,0,0,0,57842,57827,47698,58810,48303,0,57840,57839,47700,58797,48304,58798,37793,57823,57824,57821,57826,57822,57843,47694,48305,47696,47701,35526,57825,0,57837],[0,0,57830,0,0,58801,0,47690,48308,59818,58806,58805,58807,35419,0,58804,48309,35149,48315,48312,0,48313,58799,58802,58812,48321,48319,0,58803,55642,48306,58809,58800,0,48322,58808,47693,48311,57828,0,0,48314,0,48318,48320,48317,48316,65236,48310,58811,48307,48323,35448,0,37803,0,0,0,0,48856,48857,59817,48866,48863],
    [36263,48854,48861,59819,48859,48853,0,48860,0,59816,49339,48855,0,48862,49338,59815,59814,0,48864,40773,48865,0,59813,59812,49340,59822,48858,59820,0,35414,0,0,49341,64703,49346,60650,60652,64704,49343,36582,60653,60649,35492,60651,49344,49347,0,60648,49342,49345,49753,59821,49752,0,0,49758,61396,0,49756,49757,61399,61395,49754,61393],[50027,61397,0,61398,61394,0,49755,62018,0,62021,35139,0,62022,62020,62023,50028,62019,37875,0,62542,50276,62541,62540,62539,50275,50277,0,62925,50402,50401,64683,40610,63201,63200,63203,50635,50549,63453,63202,0,0,63452,50637,50636,50675,63657,63727,42212,40391,0,55666,59823,50898,35790,42668,51959,42993,42991,0,42992,0,52417,43505,44102],[0,52967,0,52968,0,44103,53710,0,44740,44741,53709,0,0,64709,0,45523,0,45519,0,54695,45526,45525,45518,45521,45524,45520,0,0,55670,45517,46255,64715,0,0,46257,46258,55669,55672,46256,55667,55671,0,55668,37811,46961,64714,0,56764,0,0,47702,57844,48867,48324,58813,48325,48326,58815,58814,58816,59825,0,0,59824],[60655,60654,49348,49349,62024,64713,36268,42213,64454,35175,0,35966,55673,0,0,0,46260,46259,56765,0,61400,50403,63454,42214,0,44742,0,45528,45527,55674,55675,46962,57845,47703,59826,0,42215,42424,0,43506,52418,0,52969,44104,45529,0,55676,46261,46963,0,58817,58818,0,64717,60656,49759,63728,42216,0,52419,43507,44105,40179,52970],[0,44743,53714,53712,53713,44744,53711,0,0,0,0,45531,45532,54696,45533,45530,55677,64720,55678,56766,38331,0,47705,47704,0,0,60657,61401,0,62026,62025,62543,50899,51550,44106,64724,0,42217,42425,0,42670,42669,0,0,42671,42672,51694,51693,51960,42994,51963,51962,51961,51964,0,0,0,0,43508,52425,52421,52430,0,36270],[43515,0,43513,52426,52422,52429,43512,43584,52424,52420,43518,52427,43511,52428,43514,43516,52432,52431,52423,43510,43509,43517,0,0,64727,0,0,0,52975,52981,37851,44112,44109,52972,52977,65123,44115,44107,52976,44110,44113,0,0,52979,0,44108,52984,44111,37845,44114,52973,52978,52982,52974,52971,0,0,52983,52980,0,0,0,0,0],[0,44752,44745,44748,64730,44751,0,53717,39793,44746,53715,64733,44750,34660,0,44747,0,53718,44749,36271,0,0,0,64242,0,54700,45535,54699,54701,45534,45539,53716,34741,54698,54702,37848,45536,54697,45538,64735,45537,0,55719,37843,55714,0,46262,46266,46263,55717,55720,64737,46264,0,46265,46270,56775,55718,46268,55715,55713,36470,46269,0],[55716,0,0,0,46969,64610,56767,46966,46967,46965,56772,56771,56768,46971,37841,0,56770,46267,36273,0,56774,56769,46968,46964,46970,56773,39001,0,0,47708,0,57848,57847,57846,47706,0,64338,0,0,0,47707,58821,58824,48328,0,64339,48327,58825,58820,48330,58822,64333,48329,58819,40127,58823,48873,48870,59835,59834,0,59833,59828,39794],[59829,0,0,0,48871,0,48868,48872,59827,48869,59830,59831,59836,64336,37822,59832,0,0,60658,0,0,0,49351,0,61404,49350,61402,61403,49760,50030,62027,0,50029,0,0,62545,62546,0,50278,36059,62544,50404,0,63455,50638,63658,63659,0,42218,40433,42673,42674,42995,0,52433,44116,44753,45540,0,0,45266,0,46271,46272],[46028,55721,64747,46972,57850,57849,0,0,42219,42675,52434,43586,41147,43585,39806,52985,52986,0,53719,53720,44754,44755,36275,44756,54703,35922,0,45542,0,46274,39656,46273,56776,57210,57851,59837,0,36572,49761,50279,42220,0,42428,42429,42427,42430,42426,0,0,42678,0,51702,42677,42679,40185,0,51697,51696,51699,51698,51701,42676,51695,51700],[0,0,0,0,64080,51965,43005,51966,52035,43004,0,52039,52034,52037,42997,42998,42999,43000,0,43072,0,52033,43002,43073,0,52032,52038,0,43001,52036,43003,42996,43006,39143,64755,0,0,0,0,64754,0,0,43607,36042,52436,43587,34677,43597,43598,43590,43608,43592,52444,43603,52439,43593,52454,52455,52447,52440,43606,52452,43601,43599],[0,52453,34746,52451,52443,52435,52442,43594,0,43600,0,43588,52446,52445,52437,37861,43602,52449,52438,43605,52456,43589,0,43596,52441,52450,43604,0,43591,43595,0,52448,39513,0,0,0,36277,0,0,0,0,0,0,0,64845,0,53083,44124,44137,64862,53078,53068,44130,53066,44123,53061,44133,53074,52990,53057,0,0,0,36733],[53060,52987,53073,53089,44128,53062,53080,0,52989,53087,53088,53091,53082,53067,53075,44134,44121,44129,44141,44118,44120,0,38215,64758,53059,44138,44131,53085,53056,44140,44135,53065,0,0,44139,53072,53064,44132,53084,53076,0,44126,53090,53063,44122,53081,53071,44127,53077,44119,52988,44136,44771,44125,53070,53069,53058,37456,53086,0,53079,0,35176,44117],[36278,64763,41085,39164,35177,0,0,0,0,0,0,0,0,65103,0,0,37462,0,53740,44778,53741,0,53729,44767,44779,0,53722,64201,53731,53739,37864,53721,53748,44757,64760,0,0,53747,53742,0,53743,44765,44776,53733,0,53734,53744,53735,0,53730,53724,53725,53738,53732,40163,64937,44758,44762,53746,53726,44774,44770,64580,0],[44773,44780,44763,44775,53737,44777,44760,38464,44759,53723,36280,53727,44768,53745,53736,53728,44772,44769,0,44761,44764,39754,36793,0,0,0,0,0,0,64766,0,0,0,0,0,0,0,35178,0,0,0,0,0,54724,0,54708,54709,54713,0,54728,54725,0,54718,54717,45549,54721,54736,54704,0,54737,54723,54741,54729,45548],[54727,45543,45564,45554,36281,45558,45557,54705,37246,54734,54740,54732,54739,0,0,54720,54706,54738,54722,45546,45559,0,54731,45552,37876,0,0,54730,54707,45560,0,45562,54733,45563,45545,54714,54735,0,64380,45551,45561,54716,54726,54711,54715,45556,54710,45544,45553,45550,54719,44766,55744,45547,37863,0,0,38895,0,0,0,65098,0,0],
    [0,0,0,64837,45555,38565,55747,55769,55758,46294,65248,46289,55741,46290,55757,0,55750,55763,46286,55723,55765,46276,55731,46279,46278,0,46295,0,55725,55759,55760,46281,46277,55739,0,46288,55734,0,55761,46284,55753,55766,55728,55733,55727,0,46283,55746,56798,55729,46287,55738,55762,46282,55735,55732,55749,46285,46275,46297,55752,55751,0,0],[64840,64839,65266,65130,55724,46280,55764,55740,55742,36285,55755,55754,55722,46291,46293,55730,55737,55745,46292,55736,55748,55767,0,55756,39841,36002,39607,36604,0,0,0,0,0,0,0,0,0,55768,0,0,0,0,55726,0,40865,0,0,56818,47014,0,56816,56795,56800,56793,64849,56812,56779,56786,0,56810,56820,56796,64173,56783],[56802,56807,56787,36286,56804,56784,35236,0,56791,56792,47016,56811,56809,0,56780,56814,0,56815,56817,47020,47012,39641,54712,56788,56806,56789,47009,47025,56813,47023,47019,56778,47011,64846,56781,47024,36288,56797,56777,38896,47017,56801,56785,47018,56794,46974,46296,56803,55743,56782,37812,64836,56808,47013,56805,47010,56799,47021,56790,56819,0,0,0,0],[40871,0,47015,57030,0,36290,47022,0,0,0,39350,0,0,57930,57928,0,57950,57926,0,57944,46973,47711,57922,57949,64850,57927,57941,47716,47709,0,57947,36289,57920,57946,36422,47727,57937,57953,47725,57929,47710,57931,57945,47719,57924,47723,47713,57933,57923,57852,41169,57943,47720,57952,57853,47717,0,57939,0,47718,57925,57936,57932,57934],[40906,47712,57951,47726,57935,0,57954,0,0,57854,57940,47715,47724,47722,57921,57942,47721,37583,0,47714,57938,40180,36292,0,0,57948,0,0,0,0,0,0,0,64833,58837,0,58833,58829,58849,58846,48333,39756,0,58853,58836,48344,58843,0,0,58832,58842,48341,58862,0,58859,58845,58830,64855,64751,58850,58852,48337,58840,58835],[58826,48334,48342,40158,58855,48343,58827,58861,58848,58854,48340,64834,39020,58851,0,58858,0,48345,0,48339,58844,58831,58863,58828,58856,48336,38905,58838,38232,58839,48335,48332,58834,48338,0,48331,0,58857,58860,58841,59850,34742,0,39006,65147,38093,0,0,0,0,59842,37870,59838,48886,0,0,48875,48880,48876,59852,59863,48874,59844,59853],[58847,59854,0,36003,48881,64858,59869,48885,48888,59840,0,48884,37877,59867,59868,59858,59857,59849,37871,36586,59859,59866,59865,36699,48879,48877,59851,59848,0,59845,59864,48887,59862,48883,48882,35934,59856,36294,59839,59841,59843,59861,59855,48878,0,59846,0,59860,0,36296,0,0,36295,0,59847,0,0,0,37879,0,0,0,49359,60741],[49352,60661,36297,60737,49354,60744,0,60668,0,60663,64498,0,60745,60659,60670,38512,49361,60740,60746,60669,49353,60736,60660,49360,0,36299,60743,60665,49356,64860,60667,60664,49362,60666,49355,49358,60739,60662,60742,36709,60738,0,0,36301,49763,61415,49768,49769,0,40360,38137,49762,61414,36302,61411,61412,49766,61406,61410,49765,0,61407,37866,0],[0,0,49767,49764,0,61405,61409,61413,64863,37872,40886,62033,62030,62039,0,62038,62036,62031,0,50034,36303,0,0,0,38755,62032,50033,49357,62035,50032,62040,62034,62029,61408,0,0,0,50031,0,62028,62550,0,62549,62037,50280,0,62553,62554,62548,62552,0,62547,0,0,36304,0,62929,62551,50407,50405,62927,0,0,0],[62930,0,62926,62928,50406,37873,0,0,63205,63206,50550,63204,0,0,0,63458,50639,63456,63457,63660,0,0,50774,63731,63729,63730,63732,0,0,64866,63931,0,42221,42680,0,43609,0,52457,0,0,53092,0,0,0,53749,53751,0,53750,0,53752,45565,54743,53753,64869,54742,54744,54745,55770,46299,55771,55773,46300,46298,55772],[0,56826,56824,56823,0,56822,56821,47026,56825,47728,57955,57957,47729,57956,48347,0,48346,58864,40923,0,59871,59870,59872,37880,0,48889,0,60747,49363,0,61416,49770,62041,50551,42222,42431,42681,43074,43610,43611,0,0,44142,0,0,53754,0,35831,0,0,47027,0,64870,0,59089,48890,49771,42223,35791,42682,0,0,52459,43612],[52458,36305,53093,44143,53094,0,44144,0,53756,44782,44781,0,54750,54748,54749,54747,0,54746,0,0,55774,55777,46302,55775,46301,55776,0,56827,0,0,57958,57959,57960,0,58867,58866,48348,58865,58868,59873,0,0,59874,59875,0,60748,49364,49772,62042,0,50408,51551,0,44145,53095,44783,0,0,45566,0,46303,55778,0,47029],[47028,36306,0,57961,57962,48349,48350,59877,59876,61417,63459,42224,51552,42432,0,43075,52040,0,44146,47030,42225,0,53096,44147,53097,0,49365,42226,64881,0,52460,0,53098,64879,53826,53825,53758,0,53757,53827,53824,0,36307,45632,45633,0,0,46304,55779,0,55780,55781,0,0,0,56897,56898,56896,40935,56829,56830,47031,57963,58871],[58870,58869,58872,59879,59878,48891,59880,0,49366,60749,0,61418,62043,63207,0,42227,42434,42433,0,43613,51553,51582,42683,0,51703,52041,52042,43614,37053,52461,0,44148,53099,53100,0,44784,44788,53828,44787,44785,44786,0,54751,45634,46307,0,46305,46306,55782,40912,0,47730,42228,35792,51617,64882,42435,40110,35793,51620,0,35547,42438,51619],[42437,42436,43076,51618,0,0,51704,0,0,64228,40701,51710,51776,42693,42694,51707,42689,0,51705,0,51709,42690,0,42685,38350,42686,64886,42692,51706,42684,43077,42687,42688,42691,0,0,0,52059,52057,52044,43089,52051,43084,52045,0,52053,64354,52050,43087,52049,43094,52058,43096,36308,43098,0,52043,64888,43085,52060,0,43092,43095,36579],[52549,43079,43102,43093,52046,43082,43097,52054,43080,43081,52547,52047,43088,43099,52061,52048,43086,0,43091,52462,43100,52055,43090,0,43101,43078,52052,43083,52056,52548,0,36982,0,0,39110,0,0,0,0,0,0,0,36309,43626,43642,52469,43633,38865,52555,43618,40630,43621,52546,0,52467,52471,43629,43631,52474,43638,43624,43622,43623,43637],
    [52551,43632,52473,52475,43630,43635,52476,52554,0,44149,43641,64199,43619,52553,41026,52557,52472,52559,52544,43628,52468,43627,43645,43634,0,52466,53109,43640,43644,52545,52550,39027,43646,43639,43625,43615,0,43620,0,52470,43616,52558,40956,52464,52463,52477,52465,43643,44789,43636,52478,43617,0,44198,0,0,0,52556,0,0,0,0,0,36005],[53116,53153,36311,53156,53111,37627,36312,53159,53162,53164,53108,44150,44155,53833,44205,53157,53165,53115,53107,0,0,0,53860,44158,53154,53112,53114,44197,0,53117,44157,53104,53160,0,53163,0,37967,44154,36313,44200,53101,44202,44152,44206,53161,53103,44203,53854,52552,44156,44151,53110,53102,44204,44196,53155,44201,44199,53113,44193,53105,44194,44195,53106],[53158,44153,53118,0,0,0,0,0,0,0,0,0,0,0,35179,0,0,0,0,0,0,0,0,38862,53836,44797,44867,64243,64942,0,53845,53851,53847,53834,53837,53830,53831,44874,44794,37959,53855,44869,44790,0,44864,53838,44866,53839,53849,64431,37559,0,44868,53864,53832,44796,44795,44872,53829,53862,53850,53863,53857,53843],[53858,36314,53852,53861,53859,44873,53844,44793,44792,44865,44871,53856,44870,53841,45635,40026,53865,53840,53835,44798,44875,44791,64941,53848,53853,0,0,0,0,0,0,0,0,0,0,0,36316,37956,0,0,0,0,45669,54753,54757,0,45650,45648,0,36317,45639,54755,54754,45659,0,54760,45653,41174,54778,54855,45636,54775,54768,45671],[54752,0,54780,0,45668,45656,45667,45646,54764,54782,54774,45647,45641,54853,0,54781,54848,45649,45657,54850,54762,54779,54767,54852,45662,45638,45660,54772,54770,54771,45651,54766,54765,45640,54759,54854,45642,54769,45672,0,45666,54758,45663,45661,45670,54776,45665,53842,54777,45664,54849,45637,54773,45655,54761,45654,0,45652,45644,45643,55783,54851,35905,0],[54763,0,38869,55804,37962,45645,0,0,0,0,37965,0,0,0,0,38859,0,0,0,0,0,36318,0,0,36319,46401,45658,46318,55798,46332,0,55786,46315,46311,55881,46317,46321,46316,46325,55885,55876,36320,65273,55793,46330,46324,55805,46308,55882,55875,46312,55799,46327,55893,55894,0,46309,55880,46329,55803,55789,55790,46333,55794],[55801,55795,0,46331,46404,55791,55784,55785,0,55787,46314,55800,0,46328,46402,64960,64761,55802,55891,55883,46310,55889,46322,36061,46320,64382,55895,46319,55873,55796,55806,46407,55877,55874,55792,46403,55887,55884,55892,46313,55872,46406,0,55879,0,0,46323,46326,0,55878,46405,55797,54756,0,37555,55888,55886,55890,0,0,64943,0,0,0],[0,0,0,0,0,0,36321,0,55788,46400,0,38355,0,56929,56928,56902,47037,0,56927,56905,56906,0,47047,56936,47042,56926,35265,56899,47048,47038,56914,56904,56907,56931,47032,56938,56930,47041,56919,47052,0,0,47051,47045,0,0,56937,47033,56917,56908,56921,56933,47053,64872,47035,56916,40119,56909,47044,36323,47043,56912,56922,56932],[56903,56913,47036,56923,47049,47040,56910,47039,56901,56915,56935,46334,47792,56918,57964,56920,56934,47046,56911,47034,47050,48368,56900,0,56925,64192,36325,64100,56924,35143,0,0,0,0,36324,0,0,0,0,0,36327,36328,0,58026,47789,57981,58020,47778,0,57966,47791,0,47735,57965,58032,47793,57969,58019,64967,57971,58035,58031,47733,47777],[58963,47790,47741,57967,64944,58030,47779,58027,58040,57973,57982,37957,38870,58038,58028,47740,0,0,57980,47734,47732,47784,64710,38980,57978,57975,57976,0,58034,0,58039,58037,47738,58041,47742,47783,36329,57968,58874,57977,0,47736,47788,47785,47739,58021,57972,47786,58023,47780,47782,47731,36330,58025,58017,57970,47781,58033,58036,57979,58024,65104,47737,48351],[58022,58873,0,58029,64972,0,0,0,0,0,0,0,0,0,57974,58948,58958,48354,58957,58969,48356,58955,40359,58959,48367,0,58950,48359,64973,58962,59888,48371,48370,58964,58947,58974,48365,0,48355,58967,0,58971,58976,58965,58953,48358,48361,48369,48364,0,58956,58018,64975,0,58952,58975,48360,38354,48363,58977,48352,58966,58875,58972],[49375,36333,58954,0,48353,58949,48357,58876,47787,58945,64698,58970,58946,58944,48362,0,58968,0,58878,58961,58960,58973,58951,48366,0,0,0,0,0,64965,59891,64978,48969,48894,59968,59883,48961,59895,48968,48963,59893,60751,59899,59970,59898,59881,59896,59972,59974,48893,59973,48964,48970,40156,39926,0,59902,48966,59897,38351,59885,59890,36334,59901],[48965,48962,48892,48960,59889,0,58877,59884,59887,59969,59892,59882,60750,59971,59886,59900,0,0,0,64980,60753,49379,0,0,49367,38636,38635,49371,60755,60761,60759,49369,49370,49377,60762,60754,49372,0,60758,60757,60763,49378,0,49373,49376,60756,49380,49374,49381,49368,60760,0,60752,0,37046,61431,64963,0,49777,61428,61430,0,49775,61426],[61427,61422,0,39083,59894,61423,49776,61419,0,49773,61432,49774,61420,61421,61425,49779,0,49778,0,0,61424,50040,62047,62053,50041,62044,50038,50035,62055,50039,38637,50036,62046,62049,62050,62051,62054,0,61429,62045,50037,62052,62056,62048,36340,0,0,62557,50282,62560,50283,62568,62559,62556,0,62558,62562,62565,62564,62567,62555,0,50281,62563],[62566,62569,62561,62931,62932,62936,62937,0,62934,62935,62933,64992,50409,35943,0,0,36342,50552,63211,0,36343,63208,63209,63210,50553,0,63461,63460,36858,63663,50676,63661,63664,63662,63733,50775,50789,63907,63852,38864,63906,63952,63953,42229,35794,0,34782,36344,42695,51777,0,0,52062,37081,43103,35911,43106,64240,52063,0,43104,43105,64993,36345],[0,64995,52568,52570,52565,52562,52564,0,0,36346,43684,64355,0,0,43682,37030,0,52566,43683,52563,52560,43681,52567,0,52561,43685,52569,0,0,0,0,53167,39280,53171,0,37355,44215,38768,39023,64994,0,53174,0,44207,44210,44212,44214,44211,53170,53169,0,44209,53172,53173,0,53166,44213,39154,44208,39676,35180,65021,53168,0],
    [39262,0,0,0,38333,53879,53880,53881,44880,0,44876,53870,64996,53878,53883,44881,37350,53868,53874,53867,53877,64997,64998,53873,44877,44879,53882,0,53866,53869,53875,64999,53876,53884,53872,0,44878,0,0,0,0,0,0,0,0,0,0,45677,54862,37972,0,54864,54860,39352,54872,54858,54871,45673,54856,55899,54866,45676,38889,54867],[54870,0,54874,0,54863,37702,54868,0,0,45674,45675,54873,54861,54857,54875,0,54865,0,0,54869,0,0,0,54859,0,46408,46409,55909,46415,39011,55897,55906,55896,46412,55904,55902,0,55903,46410,0,55907,38332,0,65005,65015,0,55900,55898,46411,55901,55905,39024,38646,36521,46413,0,0,0,55908,37969,0,0,36419,0],[35674,56944,56951,56953,56993,65006,47066,56939,0,47058,65008,56954,47063,56994,47054,65012,56957,39925,56941,56958,56940,0,47068,36078,56952,47055,56995,0,47060,56945,47065,56956,56943,56950,41183,56942,47057,47064,47062,47059,47067,47056,56949,38782,47061,0,46414,0,56955,39893,56947,39619,0,38856,41179,37328,56948,0,40932,58049,36829,47796,37353,0],[58045,58051,58047,0,47798,58046,58050,58042,39136,58044,47797,0,37578,0,38999,58048,58043,35921,47799,0,47794,0,65003,58052,39753,47795,58983,58980,58992,58986,58988,48372,58982,58990,40310,40623,58989,58987,0,58993,48375,58984,58991,0,48373,40140,0,58979,58981,48374,58978,58994,65002,58985,0,36337,59978,48977,65019,0,59989,59987,48971,59977],[59980,59981,59976,48981,48982,59975,59990,59985,48975,48972,59984,59982,0,0,48978,59986,48973,36435,48974,0,59983,48976,59979,0,59988,48979,59991,59992,48980,64207,0,40034,49390,60764,60770,0,60768,49386,49385,49382,60766,0,0,38649,49388,49387,49384,0,60769,60765,60767,0,49389,39103,40521,0,49783,61435,0,49780,49781,61437,49782,61434],[36007,39798,62060,61436,0,62061,50042,62059,0,39882,62058,0,62057,50043,65022,37596,50284,0,0,62570,62571,65089,37324,37346,0,62940,62939,50410,0,62938,63212,63213,0,0,63462,63665,65092,34655,63734,63932,50809,63942,42230,35795,43686,43687,65095,0,44216,0,0,0,0,49391,42231,0,43688,44882,47069,42232,0,45678,47800,51554],[65096,53175,53885,0,58053,0,49392,42233,43689,53176,53177,55910,46416,0,0,56996,37973,0,47070,58054,0,65099,48376,65100,50044,42234,55911,42235,36287,42697,51778,42696,43109,43108,43107,52064,0,0,40568,43690,0,43691,52571,0,53178,0,53181,44218,53179,0,44217,53180,44219,0,53922,53921,53886,44883,0,54877,54878,45679,54876,54879],[46418,45680,65105,0,46417,55915,55914,37974,55912,55913,0,55916,56998,56997,57001,40289,57000,56999,47801,58057,37975,58056,47802,58055,58995,0,58996,48377,0,59993,59994,39270,0,62066,50045,62065,62064,62062,62063,50411,62572,63214,63735,0,42236,35797,51621,42439,51622,0,41065,0,51779,51780,0,0,0,0,52070,0,0,52066,0,52065],[43692,52069,43111,52067,43110,52071,52068,0,0,52575,53182,52573,52580,39092,43693,0,43696,52581,52577,0,52578,0,52572,43695,52574,43694,52579,0,52576,0,0,53186,44221,44222,41033,53189,53183,0,53188,0,53184,44220,53187,53185,0,0,0,0,0,0,0,53928,53925,0,53927,44888,44887,44885,53924,53929,44884,44886,53926,54887],[53923,53930,41036,0,40549,0,0,54882,54886,0,54885,55918,55929,0,0,54888,39093,54883,55917,45684,0,0,45683,54881,54884,45685,0,45682,45681,54880,54889,0,0,0,55920,55927,0,46420,55926,55923,65112,46422,39285,65107,41061,55925,65113,0,55919,55921,55924,55922,46421,55928,46419,47071,39095,39096,57005,57004,57002,0,47074,47073],[57006,39098,57003,58058,47803,47072,0,0,39099,57008,57007,0,58061,58059,48378,40892,47804,58060,58998,0,0,0,0,48379,58997,59006,59005,59003,0,59002,58999,59000,59001,59004,59041,0,0,59999,59996,59997,48983,59995,60001,60000,59998,0,60772,60773,49393,41034,49394,60771,40647,49785,61438,49784,50046,0,50081,50285,62574,62573,62941,63215],[50554,63464,63463,63465,42440,53190,44889,45686,54890,42441,51623,42237,36009,0,51781,39086,0,0,52076,52074,52075,52072,43112,52073,37590,0,0,0,64225,52589,37332,43699,52587,52583,52586,0,52582,43701,52585,64222,43698,43697,65115,43700,52588,52584,0,0,0,0,44226,44229,53198,53197,53196,44223,53205,53195,35923,44225,53935,0,53202,53200],[44228,0,53192,53203,34751,53194,53204,53201,53193,65118,44224,53206,53191,44227,64471,65114,38085,0,53940,53931,53942,64202,53934,53945,53946,53932,53944,53941,53939,53943,44895,0,44893,39105,38748,53937,65140,53933,38771,53936,53947,53938,44894,53199,0,44890,44892,64070,0,0,0,38756,54904,54893,54891,65128,54892,38478,54899,38757,54900,54896,45691,54901],[54898,54895,35930,45689,54894,45687,45690,54897,54905,44891,45688,54903,54902,45692,0,0,0,35233,38394,0,37588,65129,55934,64325,0,39112,55969,46432,37103,55975,39113,39114,55977,55970,46426,55974,55973,46427,46433,0,46434,55976,46424,55933,55931,55971,55930,46431,55932,55972,55978,46425,46430,46428,46429,37997,38071,65132,46423,0,37995,0,0,47081],[57015,47080,57019,37628,57009,38379,57020,65139,38766,65119,57010,57011,34744,57021,57018,57016,57017,57013,57012,64957,57022,47077,37589,57014,0,47082,47076,47083,47084,65209,47079,47078,65137,34680,58062,47806,47805,64443,0,58067,38010,48380,47807,38395,65143,47809,58068,47075,47808,58064,58066,58063,65145,58065,65141,0,0,37585,37981,0,59050,59047,48448,60002],[48449,59046,65148,48382,0,59048,59045,59042,59049,59043,59044,48381,37700,36518,0,0,60777,0,60006,0,60005,60007,0,60774,48986,37587,60003,38072,48984,34681,48988,48987,60004,60008,0,48985,64625,60781,49397,49786,49398,49395,60778,60776,0,60779,0,60782,49396,60780,60775,0,38750,61506,61509,62069,61504,36013,62575,61510,0,50082,61508,49787],
    [61505,61507,61511,62070,0,62068,34753,0,65191,0,50083,62067,37994,0,0,50286,37859,0,0,39119,50413,63217,50412,63219,63216,63218,50640,63666,42442,52590,53948,53949,45693,57023,48989,50084,50555,63667,42443,41177,52591,41568,0,0,53207,0,53208,0,41151,41037,41144,0,53950,53951,45694,45729,41166,0,0,55979,0,57026,57025,57024],[58069,0,58070,58071,47810,41143,0,59053,59052,0,0,60009,48990,48991,65193,60786,60783,60784,60785,61513,61512,49788,62071,62942,42444,35267,44230,0,45730,57027,65195,42445,0,53952,45731,0,0,46435,46436,0,42446,42447,51782,43114,43113,44231,53209,55980,42448,42449,42450,42451,40436,35181,0,43115,43116,52078,52077,40059,0,43702,52594,52592],[52593,0,39122,0,0,0,40873,53210,53211,0,65202,44235,44233,65201,44234,44232,0,38873,0,41156,44896,38006,0,0,0,44900,44899,53953,44898,44897,0,53954,39288,0,45734,54907,54906,45732,45733,65203,0,0,46438,46437,55982,39123,65204,55981,45735,0,39124,0,0,0,47085,57029,47086,57028,40889,0,0,58072,59054,48450],[60010,0,0,38001,60787,0,50086,50085,0,0,50556,42452,52595,39125,65208,45736,58073,47811,50900,0,52079,52080,0,0,52596,43704,43705,0,0,43703,65210,0,0,0,44239,44240,44237,44238,0,53212,0,0,53213,44236,0,0,0,0,53955,40540,44904,44905,65211,45739,53961,0,44910,44908,53962,53957,44907,44906,44901,53960],[53959,53956,44909,41028,53958,44902,0,44903,39127,0,45740,54945,54946,45741,54908,54910,54948,54947,54909,0,45737,45738,0,55990,46443,46442,55984,46440,39128,55987,46444,55988,46445,55985,46439,46441,55989,0,55986,55983,0,0,0,0,0,57042,0,57031,47088,47091,47090,47095,47094,57043,57041,57034,57038,40687,47092,57040,57036,57044,57035,47093],[47087,47089,65212,57033,0,0,0,40958,58075,47815,58079,47814,58076,47813,0,57032,57039,58078,0,47816,58080,58077,58074,0,0,59057,59061,59063,59059,59058,59056,48453,48451,48456,48457,59060,48454,59055,48455,47812,59062,48452,0,0,65213,60012,0,60011,60019,60013,60018,60015,48992,60017,0,0,48993,0,48994,40413,60016,60014,0,0],[40673,0,49400,60788,0,0,49399,60791,60789,60790,0,0,49401,39130,40415,65215,61517,65214,49825,61518,40683,0,49789,61519,49790,61516,61520,0,61514,0,0,50087,62072,50088,50287,0,61515,50288,40537,41052,0,50414,62943,0,50558,63220,50557,65216,63466,50677,50678,38007,39132,63948,50901,0,44241,53214,39134,46446,46447,42453,42698,51783],[0,52081,43117,0,43706,0,44242,44243,44244,54950,53963,44911,0,0,45742,54949,65219,0,55992,46449,0,55991,46448,0,0,57045,48458,59067,59064,59065,59066,0,0,65224,0,0,60792,65225,61521,0,0,0,62577,62576,0,63221,42454,52597,44912,0,0,0,46450,57046,0,65226,58081,0,48459,60020,0,61522,62578,42455],[0,0,43707,44247,53215,44248,44246,0,44245,53964,44913,0,65227,44914,44915,0,0,0,45744,54951,45743,0,40898,0,0,35947,55993,45745,46451,57047,47096,47097,0,47817,0,47818,48460,48996,60021,48995,0,60793,49402,0,61523,62579,42456,43118,52600,52599,43708,52598,43709,52601,0,53221,44251,44250,53223,53222,44255,0,44254,0],[0,44249,0,53217,53218,53219,0,44256,53216,44252,53220,44253,39108,0,38064,38065,53967,53971,53969,53968,0,53972,0,0,0,53973,53974,53966,0,53965,65233,44917,44918,0,53975,53970,41153,54960,65234,53976,44919,44916,0,41165,0,54954,0,54953,0,54955,54956,54958,54957,54962,45749,45746,45750,54952,45751,54961,45748,54959,45747,0],[65235,0,0,39141,55996,55998,55994,55995,0,0,55999,56001,56002,55997,56000,46452,0,0,57051,0,57056,57048,57052,0,65238,57057,57053,47098,47171,0,47101,57049,57050,47822,47174,47102,0,47172,47100,57055,47173,57054,47169,47099,47170,57058,58086,58088,0,0,37348,0,0,0,0,36807,38062,47168,35407,38066,58083,47820,58089,47821],[58087,58082,58085,58090,47819,58084,0,48462,59071,59070,0,48465,48463,59068,48461,59069,0,48464,0,36820,0,60029,0,60065,39146,60030,60022,60026,60025,60023,48998,48999,48997,60024,60027,60028,0,49000,0,49472,60835,0,49404,60795,49406,49473,0,65240,49405,60834,60796,49403,60833,60794,60798,60797,0,40416,61525,49828,49829,49826,39150,49827],[0,0,61524,38340,62075,64744,0,50089,0,62073,62074,39151,62580,62583,62581,62582,62944,0,0,50415,63467,63668,0,39800,63736,63737,50790,42457,44257,35950,56003,0,57059,0,42458,43119,0,43710,64216,53224,53225,44920,0,0,56004,46453,47175,49474,60836,62076,62584,42459,65244,0,0,52641,52602,52604,52606,52605,52603,43711,41134,0],[0,0,44258,53234,0,53229,53226,0,40268,53233,0,0,44260,44261,53232,53231,53230,53227,53228,53235,44259,0,0,0,39153,0,0,0,39155,44924,38081,44964,44963,53985,53979,53977,0,44961,54969,44922,53982,53986,53988,53984,53978,44962,53983,53981,44921,53989,44965,53987,44925,53980,0,44926,44923,39157,0,0,64079,38626,0,0],[0,0,37968,45753,38562,54970,0,39158,54963,54965,54967,38629,54968,54966,45754,0,54971,39159,54964,41030,38627,0,0,0,0,0,0,0,56008,46454,56016,0,56005,0,56017,0,56006,56007,39160,0,56015,56014,56011,45752,46455,56009,56012,46456,56013,56010,0,0,0,0,0,0,0,57070,40676,57074,47182,0,58096,47185],[57072,63958,0,57069,57064,57066,57067,57060,38083,47181,0,0,47180,38082,47176,57063,0,47183,0,47184,57062,57065,57073,47178,47179,57071,57061,0,0,0,58098,47824,58100,57068,58102,47828,58103,58099,0,47825,58095,47827,58092,58097,58101,58094,0,65249,47177,65257,58091,47826,58093,0,38628,0,35244,38619,48468,59073,48472,0,48470,0],
    [0,47823,0,59080,59081,48467,0,65250,59079,59082,48469,48466,59075,59072,59077,59074,48473,59076,38084,65251,59078,48471,0,65255,40955,0,49002,60072,0,60066,60070,60076,60077,60073,60074,60071,35929,60068,0,49004,49001,60067,60069,0,49003,60075,37833,49478,38120,64342,60842,60837,49477,37061,0,49475,0,60844,49476,60840,60841,60838,60845,61526],[0,49479,60839,0,60846,60843,41128,0,0,61530,0,0,61527,0,49830,0,61531,61533,61532,61528,61529,0,0,62115,0,50090,0,62078,62114,62077,62116,0,0,62113,0,62586,62589,62585,50289,62587,62588,62590,50290,50292,50291,62945,65253,62947,0,62946,39165,39163,65256,63222,36543,0,63669,63738,42460,35800,65271,52082,43712,52643],[43713,43714,52642,0,53240,53239,44262,44265,44264,44263,53236,53238,53237,0,0,53992,44967,53996,53995,53994,53990,44966,44970,44973,36712,38086,44974,53991,53993,44972,44971,44969,44968,54978,40426,54976,54972,45755,0,54973,45756,54974,54975,54977,0,45757,0,0,56021,64617,56020,56019,56018,0,0,0,0,57078,47186,0,57075,57077,40154,47187],[65267,47188,57076,40050,0,0,65264,35273,58177,0,58105,58106,0,47831,47829,47830,58179,39233,58178,58110,58109,58108,58107,58176,58104,39234,59083,38090,59086,65269,0,37335,59085,59084,59087,0,60078,38092,49005,49480,60848,65272,49481,60847,61535,61534,49831,0,62117,50091,62625,50593,63223,0,63671,63670,51624,44266,44267,54979,0,47190,42461,43122],[43121,43120,0,0,38824,52644,65276,0,43716,43715,36062,44270,64959,53242,53245,53243,34739,44268,44269,0,65278,53241,53244,0,44981,0,0,0,54003,54005,54004,44978,53999,0,38609,40125,44975,0,44979,44977,0,44980,54002,53997,53998,54001,54000,0,0,38101,0,0,38096,0,54982,54983,54981,0,54980,45758,0,0,0,0],[46461,0,56022,56024,56026,46460,39236,0,46458,0,56023,46459,56025,46457,0,0,57153,57079,57082,57086,47194,57084,0,57083,57080,57081,47192,57152,47191,0,47196,47195,47193,0,57085,0,0,0,58185,0,58184,0,35939,58180,34747,41139,47832,58183,58182,47833,34740,0,0,0,0,48478,0,59090,38095,48479,48475,48477,40954,48474],[48476,0,0,37349,60079,40042,49008,60081,60080,36425,58181,49010,49009,49006,49007,0,0,0,0,0,60853,0,60851,49482,60852,0,60854,60850,60849,0,0,61536,49834,49832,49833,0,0,36428,0,62118,62119,50093,0,50092,62627,62628,62626,0,63224,63225,34761,0,42462,51784,43123,0,52645,43718,43717,52646,0,36429,53312,44271],[53246,44272,0,39539,44982,54008,54006,54012,44983,54007,54011,54009,54010,0,0,54984,54986,39239,45759,36017,54985,45760,46498,46497,46462,56027,0,0,0,0,57156,47197,47198,0,57155,57154,0,0,0,0,58186,47835,47834,58187,58188,0,48481,48480,36432,60085,59091,59093,59092,60084,60082,60086,60083,0,49011,36431,39241,0,60855,49483],[60856,60857,36433,36434,49835,49836,0,50293,39602,35237,50641,42463,0,0,0,39244,0,53313,0,40952,0,0,0,0,54013,44984,36438,39245,37322,36439,0,46010,46009,0,38113,46500,56029,46499,56028,36935,0,36824,36440,57157,0,47836,58189,47837,0,0,0,0,0,0,50294,62629,0,42699,43719,52647,34723,44274,38123,44273],[53314,53315,0,0,54080,54082,44985,0,54084,54087,54085,36444,38227,0,54086,54083,54014,44986,54088,54081,40933,0,0,0,54995,45766,55004,45763,0,54997,45767,40790,45761,0,54992,55005,54993,54990,45765,38223,45762,36446,54996,54999,45764,55000,45768,55001,54991,54998,55002,54994,54989,54987,0,0,55003,39274,0,56031,0,0,0,0],[56036,0,40036,40153,56032,56038,46503,54988,56033,46501,56030,46508,56034,46507,56035,46509,46504,40282,46505,0,46506,36445,46502,0,56037,0,0,0,0,0,0,0,47201,57168,39248,57171,57159,57164,57158,47203,0,57162,0,0,39249,57160,47202,36450,57167,57166,57163,57165,57161,47841,57170,47199,57169,0,0,39250,0,0,0,0],[0,0,58205,0,47848,58200,0,47847,58190,0,58192,47840,58197,58196,58199,47845,58194,58193,36456,0,47844,47839,58195,47842,58201,58203,0,58198,58191,47843,0,0,48489,47838,36449,40793,58204,0,0,0,0,0,0,0,59097,48482,34768,59099,0,48483,35763,0,48485,59102,0,59094,36457,59100,0,0,0,0,59096,0],[47200,48488,0,0,48484,34745,48486,48487,0,49014,59101,59095,48490,0,59098,40797,36454,0,0,0,60096,60091,0,0,60101,49012,60093,49016,60099,60090,60087,60102,49489,49017,60098,60088,49015,60092,49019,60089,60094,49018,60097,60100,36018,0,0,0,60875,60876,60860,60867,60865,0,0,49487,60872,60095,36462,60863,40804,60873,49486,60862],[60861,60871,60868,60870,0,60858,36463,49484,0,60869,60878,60866,49488,49485,60864,60859,60877,49013,39251,0,0,64184,0,0,0,61539,0,39252,61537,61543,49840,61541,61540,49842,61546,49841,0,61547,61544,49838,61545,61538,49839,49837,62123,61542,0,0,61548,0,0,62120,0,36464,0,50098,50096,62122,0,62124,62121,50097,50094,50095],[50099,0,40801,50296,36466,62634,0,62633,62631,62630,62632,0,50295,50297,0,0,50416,41067,0,62949,62948,0,40768,63226,0,63228,63230,63229,63227,38125,0,50595,50594,0,0,50643,50642,50644,63469,63468,0,63739,63672,63740,50776,38126,50777,63853,40893,0,50814,42700,36475,52648,0,0,53317,53318,53316,39255,38135,44275,40799,53319],[53320,53321,0,36467,54089,54095,40802,0,54093,44987,54091,0,54092,54094,38134,0,0,54090,45769,0,55006,45771,55008,45770,55007,0,0,0,39256,0,56040,46511,0,56042,56039,55009,0,46512,36469,63963,56041,0,0,0,36978,0,38136,57174,0,47204,57172,47205,57173,47206,0,0,39258,47849,58209,58206,58208,47850,47851,58207],
    [0,0,41136,36019,0,59103,0,36473,59104,36472,48491,59106,59105,38131,36478,0,60106,60107,60103,39087,60104,49020,49021,60105,0,49495,41138,0,49491,49496,49492,49494,49490,0,49493,0,0,0,36474,49843,60879,0,62126,0,62125,39260,62635,50298,50299,63297,62950,36476,63296,36477,63741,63908,42701,35801,0,43124,35234,52649,43720,0],[44278,53324,44276,53322,44281,44277,44282,44280,53323,44279,44991,44990,54106,44999,54099,54105,44995,54098,54104,54102,44994,44996,54101,44989,54100,45000,44997,45001,44998,54097,54096,54103,44992,44988,44993,0,0,40663,0,0,55024,55017,0,46517,55016,0,45775,45782,45779,45785,45784,45780,0,55010,55013,0,55012,45776,55014,55023,45777,55011,55020,55021],[45778,55018,45783,45773,45781,55015,45772,55019,0,0,55022,0,0,41142,56059,56050,46514,56057,56054,56046,56055,46516,56047,0,56043,0,40514,47212,56052,36516,46513,56058,0,46520,46522,56045,0,0,46521,56048,46515,56056,56049,56053,0,56051,46518,56044,46523,45774,46519,46524,0,0,0,0,0,47208,57181,57183,57185,57189,0,57179],[57177,47210,0,57184,57188,57180,57176,0,57175,36519,0,35958,57186,57178,57182,47211,0,47209,57190,47207,57187,34663,58226,38210,0,0,0,0,47854,58218,48504,58228,47857,58232,47863,58213,39037,0,58229,58210,38741,58231,58214,36520,47870,47867,58230,58224,47853,47861,47860,36522,47859,47865,0,58211,47866,58225,47862,47852,58227,47855,47856,47864],[58216,58215,58212,0,58220,58217,58221,47869,0,58233,47858,58222,58223,35235,58219,39264,39266,0,36523,38140,39265,0,0,59111,48496,48505,48501,59108,38138,48498,48502,59120,48492,59112,0,48500,36526,36530,59115,59110,48499,48503,59109,0,48497,0,59119,48494,59118,59117,48506,58738,48493,36528,59116,59107,0,48507,59114,48495,0,39267,38826,0],[0,0,0,59113,0,0,0,38139,49058,49063,49022,60120,60111,60123,60115,60121,49064,49057,60108,60114,60124,60117,60122,60110,0,0,60118,49059,60116,36532,49061,60112,60113,60109,60119,49060,60126,60125,0,36539,0,60890,60886,49503,0,60880,49497,49513,60892,49505,49501,60883,49508,49511,60894,49500,60885,49509,60896,60893,60881,49504,49498,49512],[60888,49507,60882,49502,60895,49506,49499,60889,49510,60887,0,0,60891,0,0,0,61550,61556,49849,61559,49844,49845,61551,61558,61553,49850,49847,36060,61549,0,49846,61555,61557,49848,61554,61552,0,39030,0,36513,62136,50103,50104,50100,36020,50101,36535,62132,62130,0,62134,50106,62135,62128,62127,62131,62129,50102,62133,62636,50302,50301,62637,40358],[62639,62638,50337,0,0,0,62955,39803,62953,0,62951,62954,50418,62956,40624,50417,0,63298,36536,50645,50647,63470,50646,63673,63808,63810,63742,63809,50796,0,0,40304,0,0,0,0,35182,0,0,0,0,0,0,0,35183,0,0,0,0,0,0,0,0,0,0,0,0,0,35184,0,0,0,0,0],[0,0,0,0,0,0,0,35185,0,0,0,0,0,0,0,35186,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35187,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,35188,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,42702,35189,44283,53871,45002,0,0,45786,56060,56061],[36540,36541,0,60127,49514,60897,0,36542,49851,40401,62138,62137,50338,62957,38141,63299,50680,51785,35799,35802,43721,43125,0,0,53325,0,0,54112,54107,54111,54109,45003,54110,54108,0,55025,0,56062,56128,57193,57194,47214,47215,57192,57195,57191,47213,0,47936,41186,47216,58234,0,48508,59121,48509,40937,49065,60130,60128,60129,60900,60899,60898],[0,0,0,62139,0,50105,62140,63300,50681,63674,42703,43723,43722,53327,44284,64936,0,53326,54114,35559,45004,55026,54113,36546,0,0,45788,55029,55027,55028,45787,0,56130,56131,56129,36548,47219,57197,57196,57198,47218,47217,0,0,59122,59124,39268,48510,59123,60131,49066,61561,39269,61560,50107,62141,50109,50108,62640,62958,50419,42704,53328,44285],[54117,45006,54116,54115,0,45005,0,55035,0,55037,55030,55031,45789,55032,45790,55036,55033,55034,45791,0,46526,46527,0,56132,0,0,0,57199,57200,38222,58238,47939,47937,47938,58235,58236,0,58237,59129,39091,59130,48545,59127,59126,59128,59125,49069,60132,49067,49068,60902,49515,60901,61352,0,61562,61563,49852,36555,49853,49516,62142,62143,62641],[50339,42705,35807,42706,44286,36557,45007,53329,36558,0,0,46528,42707,44353,53330,53331,44352,44354,42708,0,53332,45009,54118,45011,45008,45010,0,55105,45792,36559,55104,55038,39272,57201,0,0,58273,39273,48546,0,36560,60134,60133,0,60903,0,39275,36561,62959,39276,0,42709,52083,52650,44355,53333,0,54120,0,36564,36565,45012,54119,45013],[0,0,0,55107,0,0,45794,55106,55108,0,45793,0,0,0,0,56134,56135,56133,46529,0,39277,0,47220,0,47221,0,47941,41150,58275,58274,47940,0,0,36566,41148,41141,59131,0,41140,59132,0,0,0,0,60135,0,0,49520,49519,49517,49518,49521,0,61564,49855,49854,62144,62642,0,0,0,50597,50596,42710],[35808,0,53755,0,47223,46530,47222,47942,0,42711,51625,42712,42713,0,0,52651,52086,0,52087,43127,0,52084,43126,0,43129,52085,43131,43130,52088,43128,0,35253,0,43729,43727,52653,0,43726,0,36573,0,43731,43733,43730,0,52656,52652,43734,0,43728,43132,0,43732,52655,40541,39281,52654,0,43725,0,35246,40424,0,0],
    [0,0,53339,44359,44360,53341,38245,53335,53338,53347,53345,0,44361,53351,44364,53348,53340,53337,0,0,56137,53346,44356,53349,53334,53343,44358,44363,53344,44367,44365,0,53336,44362,0,53342,44366,44357,53350,0,0,39282,0,0,35676,45018,0,45027,45016,45014,54122,45022,45019,54124,35249,0,45021,54123,54121,54126,45026,45024,56136,0],[54127,54125,45015,41152,0,45017,45020,36575,45023,38246,45025,0,39284,0,39286,0,0,0,39287,0,39289,55118,45796,40410,55109,55111,36576,55112,0,55120,55116,55114,0,55117,55121,45797,45801,55110,0,55119,0,45799,37724,45798,55115,55113,0,45795,45800,0,40422,0,35679,0,0,38243,0,46536,56145,0,0,56143,46538,0],[0,0,38247,56138,57249,0,46537,56142,40419,0,56139,46533,46539,56144,46535,56141,47943,46534,56140,46540,46532,46531,39292,0,0,39293,39294,57207,57205,0,57211,0,57203,57250,57208,0,57202,47227,47267,57213,0,57206,0,47230,36091,35675,47228,57214,47225,47224,57209,47229,46541,0,57212,57204,47226,47265,47266,0,39331,0,0,47948],[47944,0,47949,58278,39332,0,58277,58279,47946,58276,47947,58282,58281,58280,0,47945,0,0,0,39334,0,59201,0,59204,48552,59203,48551,48547,48548,48549,59200,59134,48550,0,59202,59133,0,39336,60137,60147,49073,49072,35518,60141,60143,0,60138,0,60142,60136,60145,49071,60144,60140,40545,60146,0,60139,49524,60904,60910,49528,49530,49527],[49526,39338,49525,49523,60905,60908,49522,60909,41160,49529,60907,0,60906,49856,0,49857,61601,61565,61566,0,0,62146,0,62145,50110,62644,50340,62643,0,62960,63301,50598,63811,63812,50648,42714,39339,43735,56146,47950,49531,60911,42715,0,45029,45028,56147,65220,0,0,60148,42716,44368,0,39106,56148,56149,56150,47951,49074,42717,0,43736,53352],[45030,54128,45802,0,56151,47268,0,47952,49075,49532,49858,62645,42718,43737,0,0,45031,55122,46542,0,47953,58283,59205,0,36584,0,41146,42719,46543,57251,47954,42720,52657,53353,44369,0,0,54130,64887,0,45034,36590,45032,45033,45035,40639,0,54129,0,0,55127,55124,55126,45803,45805,45804,55123,45806,55125,0,56152,56153,35266,56154],[57254,0,57255,0,57253,57256,0,47269,0,57252,0,47955,0,0,59210,59206,59209,59211,59208,59207,39340,60149,60150,60151,49076,49077,60913,60912,60914,0,61603,61602,0,62148,38251,62149,62147,38252,50341,0,62646,62647,0,63302,63471,63675,42721,43133,0,49533,42722,0,55128,56155,39343,50753,51786,39242,35190,36680,51787,51789,42723,51790],[51788,0,0,52130,52131,52091,0,64494,0,0,52129,43169,0,43170,52092,52090,52089,52093,43134,52094,53354,0,0,0,52662,43740,52661,52663,0,43739,52668,43743,52658,52672,52678,43750,52675,43747,39342,52665,52671,52673,36603,52660,43746,43741,52666,43748,43751,43745,0,43738,52670,52664,52677,43753,43749,43744,52669,45036,52667,43742,43752,36048],[52659,0,52674,52676,35666,0,0,0,0,0,39344,0,0,0,0,35191,36673,44386,44380,44388,44385,53361,53364,44381,39345,53355,0,44374,44384,0,44387,44389,53410,53367,36681,44373,53409,44377,44375,44370,53359,0,53374,53363,53366,53413,64077,44390,53373,44382,53368,53412,53365,53369,53372,40420,36021,53357,53411,53371,64489,39764,53356,39346],[53360,44383,44378,44371,44376,44372,44391,53358,54181,44379,0,40552,53370,52801,0,0,0,0,0,0,0,0,54184,45050,36682,54134,36674,54179,54141,36689,54194,0,54186,0,54142,0,54185,54136,54140,54197,45053,54189,54180,45037,54195,54132,0,54188,0,45052,45047,54131,45045,45044,45049,54187,45041,45048,53362,56156,54182,38982,0,54138],[45051,54139,54177,45054,54133,54191,0,54190,54198,45043,45040,54196,54192,54183,54178,45046,45042,54135,45038,54193,45039,0,54137,39348,0,0,0,0,0,0,0,0,0,0,36597,64853,0,0,40141,0,0,0,0,0,0,0,0,35192,0,0,0,55134,55136,55141,55161,45820,45810,0,55133,45821,45822,55144,55151,55157],[0,55138,0,55145,0,36691,45888,55159,55154,45818,45816,55150,55146,55132,45807,55137,55129,36719,45815,45817,55142,55139,45812,55155,45809,55140,55162,55148,36451,55147,45808,0,45819,0,45811,55130,55135,55152,55158,45889,55131,55143,55149,45814,36694,0,55160,55153,55156,0,0,0,0,0,0,0,0,65142,0,0,0,45813,40902,56172],[56160,36695,56189,56231,56234,46549,56168,56227,56169,56183,46562,56179,46559,64172,56180,40055,0,56228,0,36696,46568,56225,56181,56236,56176,57288,0,56239,46566,56174,56186,46569,46548,56178,56237,56171,56164,56175,0,56163,56161,46544,56229,56170,56232,38984,56233,46552,46557,46553,46561,56190,46554,56182,56166,0,46546,56158,56226,56235,56165,46560,56240,56177],[0,56173,0,46545,46565,39351,56188,46567,0,56184,46556,46550,46558,46547,46564,36718,56167,56187,56162,56230,38501,0,64108,0,40423,0,0,56238,40546,0,0,0,38604,36455,0,56159,64629,0,39038,0,0,57287,0,57309,47189,57292,64953,57290,57269,47273,57285,57305,57281,47281,57304,57279,46563,57295,57280,57302,47280,47272,38908,57258],[57266,0,57291,57283,57308,57286,47286,57303,39161,47277,36710,57289,57297,57270,57296,0,57313,57265,57298,38254,57311,37445,57259,46555,36704,57273,57272,47279,40657,57276,57278,57293,57310,47282,65229,47283,39353,57264,47275,57268,57306,47284,0,47276,47278,47285,57312,57299,57294,36706,38732,57275,57274,47274,57260,47271,57284,57261,57282,0,0,57271,57307,37319],[38239,0,47270,0,34731,0,57267,0,39355,0,0,0,0,57263,57301,57262,47968,58323,36461,36721,58306,0,38091,58284,58314,47960,58299,58309,47963,58302,47961,58287,58317,58286,58305,38321,58285,0,0,58303,36713,58310,58298,58293,58291,39666,58292,58311,58322,58300,47962,0,58295,0,58315,0,47965,58294,58288,58304,47969,38595,39357,47957],
    [47966,58296,58290,0,47959,57300,47958,58307,0,47956,47971,47964,58308,58297,58289,58316,58301,47970,58320,47967,58319,0,58313,58318,0,0,41167,58321,0,0,36717,0,0,39358,36596,0,36722,38372,0,59251,59252,59239,59238,59234,48564,0,48556,59254,59253,57257,59231,59235,59229,0,59248,59233,39359,59255,59226,59224,59236,59246,59241,48566],[59215,0,59245,37442,34775,64421,48567,57277,59227,59218,59221,59259,59228,59219,59217,59214,39360,48560,59237,48559,48563,59232,59240,48553,59256,59260,48555,0,59223,59243,59247,59220,59257,48562,0,48561,59212,48565,59250,59222,59242,59216,59230,59225,48557,48558,59244,59261,59258,59249,0,64948,36727,0,0,0,39361,0,0,59213,0,48554,60233,0],[60224,60227,64185,49083,60229,60153,60225,60231,49080,49084,49078,36672,64068,60155,60236,0,0,60230,39362,60156,60245,60239,60152,60998,60158,49079,36700,60234,0,60244,49087,36029,60241,60157,60228,60232,60226,60246,60243,60240,49081,49082,49086,60154,60247,49085,60237,39364,39365,60235,0,36731,0,60238,61011,60992,60997,61010,60996,60923,60993,0,49570,0],[60916,61005,61007,60915,49569,61009,61001,49576,61008,60994,49578,60921,60242,61002,60999,60917,61013,49572,0,34678,49573,60919,61000,36022,61012,61003,60925,49575,49571,61004,60926,61014,60920,60995,61006,60922,60924,0,49867,60918,49577,49860,49534,0,0,0,0,49574,49864,61619,0,61609,61604,61610,61620,61624,61623,49866,49865,0,0,61611,61625,61614],[61606,36771,61608,61607,61613,61618,61605,61612,61617,49863,0,61615,0,49861,61616,49859,49862,62165,61621,0,0,50114,36046,62157,62161,62153,62156,0,62164,50112,62169,62162,39366,62154,62170,62163,50115,50116,62167,0,62155,50111,50113,62150,62158,62152,38605,62168,62166,62151,62159,0,0,0,62654,50117,62160,50343,50345,50342,38599,62659,62651,62649],[62653,62650,36773,0,62655,62657,50346,50348,0,62656,50349,50347,62658,64187,0,35937,38256,50344,0,34735,37736,0,36734,50420,62961,62967,50422,62652,62966,0,62973,62964,62971,62970,62648,62965,61622,62974,62963,62968,36778,62972,62962,0,63306,50421,62969,41040,0,63476,63307,63305,63303,63304,63308,0,50649,63474,63472,63477,63475,0,63478,50650],[63473,0,37075,63676,0,38230,63813,63814,63815,0,0,63943,63933,51791,43754,0,44392,0,54200,54199,45120,45890,55164,0,0,55163,0,46570,47288,0,47287,47289,0,58324,59262,60248,60250,60249,0,49579,61015,61626,63909,42724,36792,52681,52682,52680,52679,43755,39368,53417,53415,0,0,53414,0,44393,44395,44394,53416,0,36783,0],[0,0,0,0,0,54212,54209,54207,0,0,45121,54210,45126,54204,54219,0,54221,54205,39369,45123,54222,54217,54203,54208,54218,54214,54211,0,45128,54220,54206,0,38265,54215,54201,45127,45124,54213,0,54216,54202,45125,45122,0,0,40777,0,45900,55205,45899,39370,55208,55211,45896,45894,55166,55209,55207,55204,55212,55213,55215,55216,55165],[45893,55202,55201,55214,45895,55203,45897,45892,55206,45901,0,45898,55210,0,0,0,46577,56255,0,56244,46574,0,57319,56253,56241,46572,56246,46575,56250,56248,46578,46571,0,0,56242,56245,46576,0,56243,0,56254,56252,56247,56249,56251,46573,0,39371,0,0,0,0,0,57320,57326,57316,57322,47290,57318,47296,0,0,47295,0],[47294,57325,47297,47298,57315,57328,47299,47293,47292,57324,47300,57314,57317,57327,57323,0,0,58356,58345,47291,0,0,0,0,47978,58333,58354,58334,47973,0,58331,0,58340,58332,47975,58326,58353,47976,58350,58351,58327,47981,58342,0,58336,58343,58330,0,58355,58347,58341,58325,47977,58348,0,47980,58352,0,58346,47974,58344,0,58338,47972],[58329,58337,58349,58335,0,0,58339,0,0,0,0,0,48577,57321,59314,59323,59313,59309,59306,48578,59304,47979,59297,48576,59303,48575,59308,59305,59321,59316,59310,59315,48571,59307,59326,59298,59299,59322,48572,59327,48574,59328,59312,58328,59318,59311,59320,59317,40405,36784,0,59302,48569,59325,48570,59300,48573,60260,59319,59324,0,64122,0,0],[0,60257,48568,49088,60267,60263,40543,60261,60256,60271,0,39373,41161,49092,0,60252,60264,60265,60255,60254,60268,0,60258,60253,60259,0,60270,60251,60269,60266,49090,49089,0,0,49091,60262,61643,39643,0,0,0,41158,61017,49585,61021,61018,61025,61031,61020,36788,61040,49582,61034,61023,61035,61030,61037,61022,49587,49586,61024,61038,61016,61036],[49580,41175,61028,61027,61032,61019,49584,0,49588,61026,61033,49589,61029,0,41159,0,0,49581,49583,61639,61637,0,41027,61644,61641,61645,36789,61630,61638,61649,61039,61634,49871,59301,61629,61642,61636,61633,61628,61627,61648,0,61632,61631,49869,61640,36786,49868,0,0,49870,61635,61647,41057,62174,62175,0,50121,62172,50118,62180,0,50122,62182],[62171,61646,62184,62173,40542,50119,62179,0,62181,62176,62183,62178,62177,50120,0,36790,62661,62662,0,62664,50350,50351,62665,62663,40936,62660,0,63042,63045,63041,0,50426,63043,50425,50424,50423,63044,63313,63311,40114,63310,63040,63312,63046,63309,38268,63481,63447,63479,50651,63480,63482,0,63679,50682,63678,63677,50683,0,50778,63854,63911,63910,63912],[42725,53418,40903,54223,54224,36795,36796,0,56256,0,63047,63680,42726,44396,53419,36844,0,0,55217,45902,0,56258,56257,46579,0,47301,59329,48579,0,48580,36800,0,37738,49093,50684,42727,35812,40060,0,53420,43757,53422,53421,44397,0,54225,38305,54232,45129,54230,54228,0,54235,54226,54227,45130,0,45134,0,0,54236,45133,54234,54231],[54229,45131,45132,54233,65260,0,0,38307,45904,55218,0,45909,55234,45908,55236,35909,36024,55224,45906,55235,0,55219,45907,55231,55227,55229,55223,55230,36801,34743,45903,55226,41042,55225,55221,0,55232,0,0,55228,55220,0,55222,45905,55233,0,39376,0,0,46582,56269,0,36803,36804,56265,56267,56262,56261,56259,0,56266,56268,56264,38308],
    [56263,46580,46581,0,0,36806,0,40544,0,56271,47309,57330,57336,57331,57332,63960,57337,0,47311,0,47303,47310,57329,56260,47306,47304,57335,57334,47305,47307,57333,47302,0,47308,0,0,0,0,38309,58358,47988,0,0,58434,58433,0,58363,47990,58432,58359,58360,47982,47984,40115,58365,58357,47986,47985,58361,58366,58364,47987,58362,39377],[65265,56270,47983,0,0,59330,59337,48582,0,59341,48586,59333,59331,0,59340,0,48581,59339,48583,48584,59332,48585,59338,59334,59335,59336,47989,0,0,0,60272,60284,0,49098,60279,60281,39378,49096,60273,60277,0,60280,49094,49097,60283,60275,60276,60282,60274,60278,49095,61042,0,61041,49591,61047,49593,0,0,49590,61043,49594,61044,0],[0,61045,61048,40130,49592,0,61654,39379,0,61657,0,61651,61653,38311,0,61652,61655,61656,61046,61650,38313,0,50125,62188,62191,62193,62186,62187,62190,62192,50126,50124,50123,62189,62185,62666,50352,38310,62667,0,0,63049,50427,63051,50428,63048,63050,50600,0,63314,50599,63485,63484,0,63483,40029,0,63816,63817,63819,63818,0,51792,42728],[39138,44398,55237,46583,0,57338,49872,36809,62194,41154,36810,43171,0,0,0,45911,0,39380,0,45910,41145,56272,46584,56274,56273,0,0,57339,47312,58435,58438,58437,0,58436,59342,59344,59343,39768,36811,36813,0,36812,49099,0,49595,61049,61051,61050,0,0,49873,0,0,0,62196,62195,0,62668,50353,0,36814,50429,63316,63315],[50779,35813,0,0,0,0,35193,0,0,0,0,0,0,0,0,0,0,0,43172,53423,44399,55240,55238,0,0,55239,56276,56277,57411,56275,0,57340,57409,57408,57410,47313,57342,57341,57412,36816,58441,58439,0,58440,59347,59345,0,0,59346,60285,61052,61053,49874,0,62197,62669,50354,0,63052,63317,50601,0,63486,63820],[43173,0,44401,44402,53424,0,0,53425,44400,0,45140,0,45138,0,45137,45144,45136,45145,54237,45142,0,45139,45143,45141,45135,0,0,45919,38326,45913,55244,45918,0,0,45920,45914,0,45915,0,55242,0,39382,45912,38373,55243,45917,0,0,55241,45916,0,0,46660,0,46662,0,39383,56280,46661,46585,46589,38325,47332,57417],[56282,46590,0,0,56285,56286,46659,0,56288,41162,56290,0,56291,56279,56278,56292,46658,56289,56287,0,46656,46587,46663,56283,56284,56281,0,46657,0,0,46588,0,46586,57416,47327,47322,0,0,47317,40957,47333,47318,0,47314,47329,47326,47328,0,47319,47324,47315,47316,57424,57421,57413,57418,0,47330,57425,47331,47321,0,41048,57415],[0,57423,57419,57422,57420,47325,57414,47320,0,0,0,58444,47992,47995,0,58446,36822,48037,58445,47997,39384,48591,58447,0,48036,58443,48038,0,36819,0,47993,0,47323,47996,0,47994,47998,48034,47991,48039,48035,36837,48033,58442,0,0,0,36841,48598,0,48594,0,39385,0,48601,0,59350,48602,59362,59355,48587,59363,59357,48597],[59358,0,48596,59361,48590,59359,59349,48589,60330,48595,0,48592,36087,48600,0,59348,0,59352,48588,59351,59353,59354,48599,59356,59360,59364,37500,48603,49106,60325,60331,60328,60286,60332,60321,0,60327,0,49101,49107,60333,0,40005,49103,0,49113,49108,60335,60329,49104,60322,49114,60323,60324,49115,49112,48593,36072,49102,60336,49116,0,49109,60334],[49105,49110,49111,0,49603,61092,61101,61098,61100,0,49600,61093,36830,61099,49596,61095,49604,61091,61096,61103,60326,61097,61090,49597,61089,49598,61104,49599,61102,49602,61054,36831,49601,0,61094,61660,61674,61669,61671,61659,49875,0,61658,49878,49877,41035,61673,61665,61662,61668,0,61661,0,61663,61672,61670,0,49876,61677,61675,61666,61676,61667,36834],[62201,50127,62273,41164,0,63055,50134,61664,62199,50130,62200,62205,36835,36836,50132,50133,62198,62272,62274,62202,62204,62206,62203,62275,50129,50135,50131,0,50128,62672,39876,50359,62670,0,39932,62674,0,62675,50357,62676,62673,38476,62671,50360,50356,62677,0,50358,50355,0,0,0,50430,0,0,50496,63054,63053,63056,63057,0,50497,63318,63323],[50602,39670,63320,36014,63319,63322,63321,0,63555,0,50652,63554,63552,0,63553,34763,36839,0,50686,50685,63681,63682,50752,0,63821,63822,50791,36840,50797,0,63913,63944,35815,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35194,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35195,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,43174,0,55245,0,55246,57426,58448,59365,49606],[0,49605,61678,62276,0,63556,43175,54238,45146,45921,57428,57427,48604,59366,48605,61105,49879,39386,0,0,50806,43176,52683,54239,0,0,45922,0,55247,55248,0,56293,0,46664,47334,0,57430,57429,57431,0,58449,58450,48040,49117,48606,49118,0,61109,61106,61108,61107,49607,0,61679,62278,62277,52132,45148,45147,54240,0,55249,0,0],[56295,56294,46665,0,57433,57434,57432,0,0,47336,47335,0,48042,48041,0,59367,60339,60337,60338,49119,61111,61110,0,61682,61681,61680,62279,36845,63914,43177,44403,38336,44404,45149,45150,54242,54241,55250,0,45928,45926,45923,45927,45925,45924,41163,0,46666,56298,0,47341,46668,46673,56300,46675,46674,46677,56299,56296,46671,46667,46669,56297,46676],
    [46672,46670,47343,47342,47340,47344,0,47338,47339,0,47337,0,57435,40520,0,58452,0,48044,48045,48043,39387,58451,36851,58453,0,59370,59372,36857,48615,59373,48608,59369,48607,48617,48613,48614,48610,59368,48609,59374,59371,38337,48616,41038,48611,48612,60341,0,60343,60342,39388,60344,49120,60340,0,41060,49611,61112,49608,49612,49610,49609,61683,0],[61686,0,61685,36855,61684,49880,62280,62281,50136,62282,50137,35248,41032,50362,0,50361,63058,36859,36854,50498,63059,63324,50603,50604,40412,63557,0,50754,39389,35816,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,43178,0,45930,45929,57436,57437,0,48046,60345,48618,60346,61113,43179,0,53426,44406,44405,0,54243,36862,54244,55253,37569,55252,0,55251,0,0],[56302,46680,40918,0,56301,46679,0,0,0,56303,46678,0,57439,57442,57440,57441,57445,57438,57446,57443,57444,48048,58454,0,0,48047,0,59378,59376,0,0,48619,59375,59377,0,48620,0,60347,41170,60348,49613,36928,62284,62286,62283,62285,62678,63060,0,0,63855,43180,44407,54245,54247,54246,0,55256,45932,0,55254,0,45931,55257],[35524,55258,55255,39392,0,56315,46688,56307,56313,0,0,46683,46686,56306,46681,56310,57452,46685,0,56305,40944,56311,56308,56314,56304,56312,46684,46687,56309,46682,0,47346,57448,47345,57455,57454,47352,0,47353,57456,47347,57453,47351,57458,57449,0,57451,47348,57447,57450,57457,47349,57459,0,0,0,0,0,47350,0,48049,58459,58465,58457],[58466,40947,58456,58461,58467,58464,58463,58462,0,58455,58460,0,0,58458,40383,48625,48622,59387,59457,59459,59456,59384,59386,59461,59458,59388,59462,59385,59460,48623,48629,48627,59379,48628,48624,59380,59382,59381,59389,59390,40950,48626,38344,48621,0,40538,59383,0,60358,49122,0,60349,49123,49126,60354,0,60351,49125,39395,0,60355,60356,60350,60359],[60352,60357,49124,0,49121,60353,35402,61119,49616,49614,49617,49615,61118,61115,61114,40945,61117,0,0,61116,61765,49886,61691,61690,0,49881,61761,61760,61687,61763,61692,49885,61689,61762,61688,49882,49884,61693,49883,61694,35495,61764,62290,0,50142,62287,0,62291,0,39398,50139,62289,50144,40951,50141,40941,62288,0,50143,62292,50138,0,35420,0],[40366,50364,50366,0,62681,50365,62679,50140,62680,50363,50499,50501,63062,50500,63061,0,63329,50605,63328,50606,63326,63325,63330,63331,63558,0,63327,0,0,63686,63683,63684,63685,50780,0,63825,63824,63823,63856,38345,63934,63915,50798,43181,45152,36936,0,0,39400,0,47354,0,0,0,36937,0,0,36026,48630,0,37041,60360,0,0],[49887,0,62293,36938,0,0,0,0,0,63916,43182,43758,44409,44408,39402,45155,0,54248,45153,54249,45154,0,0,55263,55259,0,39889,45933,55262,55261,55260,45934,55264,55265,39403,0,39404,56387,56385,56389,56390,56396,0,56392,56394,39405,56386,56316,0,56393,39406,0,56395,56388,56391,56317,46690,56384,56318,46689,46691,0,47357,57461],[57463,57462,57467,47355,0,57464,57460,57465,57466,47356,47358,40279,0,58471,58470,0,58468,58469,48051,48053,48050,48052,59469,59470,59465,36940,59466,48632,48637,48631,48638,48633,59467,0,0,59468,59464,48704,48635,0,0,48634,48636,0,59463,36941,60362,49128,38347,0,60364,49130,60367,60363,40002,60366,49129,60365,0,49127,0,0,49619,49622],[61121,38882,49620,61120,49618,49621,61766,61767,61768,49888,38348,61769,0,49889,50146,62296,62297,62295,62294,62298,50145,62685,62683,62684,62686,62682,62687,63064,40824,63065,63063,50502,63332,50607,63333,63560,63559,0,35196,35197,0,0,0,0,0,0,35198,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39261,0,0,0,0,0,0,0,43183,46692,0,0,47424,39770,0,0,48054,0,36944,49132,35919,49131,0,0,0,0,50147,50300,50503,43184,45156,47425,36948,62299,50902,39592,39407,65259,40355,40353,39235,39237,0,40317,52134],[0,39408,43185,0,43188,43187,43186,0,0,52133,39409,52685,39410,52687,43759,36028,40288,43761,52684,52686,43760,52689,52688,52690,0,0,41123,0,0,0,0,0,53430,53428,44412,53427,44451,44414,44411,0,44452,0,44413,44450,0,44449,53429,0,44410,0,0,0,45162,54251,54257,45159,45166,36955,45161,54254,54256,45164,54250,54253],[45160,45157,54252,45163,54255,45165,45158,0,40667,0,0,55267,55270,45936,0,45946,45942,55268,40313,0,45950,45943,45948,45938,0,45935,45937,45949,55269,45941,45944,45940,45945,55271,45947,45939,55266,0,0,0,0,0,0,0,0,56397,46693,56399,0,46695,46697,39411,56398,46694,46698,36962,46696,0,0,0,47431,57507,47439,57470],[0,47440,47429,0,57505,0,34749,47434,0,57506,47427,47426,40789,47437,47436,47435,47433,47438,57469,47428,47430,47432,39929,0,48056,48059,0,48063,48057,48062,48060,0,48055,36965,48061,48058,38624,0,0,59474,48707,48705,0,59475,39102,48708,48706,59473,59472,0,49136,59471,49134,49133,60368,48709,49135,60369,49138,60370,49137,49624,61123,49623],[49628,49626,49627,49891,49625,61122,60371,49890,49892,0,50148,50149,0,62688,0,50654,50653,43190,0,0,51797,45167,0,38361,51795,51793,0,51796,0,0,52138,52135,52140,52136,43191,43194,0,52137,43193,52139,36968,0,43192,0,0,0,36972,52693,52695,43764,52691,52694,52692,43762,43765,0,43763,0,0,38360,0,53432,53436,53433],
    [0,44455,0,44456,36970,53435,0,53437,53439,0,44453,53438,0,0,44454,0,0,0,0,0,55278,53434,54258,54267,54265,54260,54261,54266,54268,45169,0,54263,54259,45168,45170,54262,54269,54264,0,0,45985,55281,55273,55279,55280,45986,0,55272,55274,53431,55276,55277,55275,46700,0,0,0,56406,60372,56407,56404,36973,46702,56403],[56409,56408,46699,56412,40040,56411,56400,56410,56405,46701,0,57514,0,57509,57515,57510,57508,57511,47441,0,57513,0,57512,47442,48065,48064,58478,58481,58473,58477,48066,58476,58474,58480,58475,58472,58479,0,59481,48712,61770,59478,59479,59477,56401,48711,59482,59476,48710,48713,59480,60373,49139,60374,60375,0,61124,49629,61771,61772,0,0,61773,62301],[62300,62690,0,62689,63067,63068,63066,63334,50608,43195,44458,44457,45173,45172,54336,54337,54270,40882,45171,55285,0,55286,55282,45988,55283,40878,55284,0,40880,0,35245,56415,56417,56413,56416,46703,56414,46704,0,36974,56691,47445,47444,0,47443,0,57516,57517,40561,0,58483,58485,48070,48067,40522,48069,48068,58484,58482,0,40924,0,0,0],[59489,59486,59487,48717,59488,59483,59484,48714,0,48715,59485,48716,35243,60379,40888,60380,60377,60378,49140,60376,0,0,0,0,0,61128,61125,61127,49632,61131,49631,61129,61132,61130,61126,49630,0,61775,0,61776,61774,36976,61778,49893,49894,62303,50151,61777,62302,50150,62693,62694,50367,62692,35683,62691,0,63069,50504,38364,63561,63688,63687,0],[50755,50781,63689,63857,36977,50799,43196,43766,0,47446,0,50368,43197,44459,45989,46705,49895,43767,0,53441,39902,54338,64606,45176,45174,45178,54340,0,45177,45175,0,35145,0,0,54339,45992,55292,38491,45991,45993,55362,45995,55294,55360,55287,45994,55363,0,0,55289,0,55290,55288,45990,35920,55361,55291,55293,38054,0,0,56429,36821,56428],[56426,56418,56433,56421,56431,56438,56430,46713,40563,46709,56419,0,56425,46711,36981,56424,46712,46714,56427,39415,46706,46707,56439,56437,34738,56436,56422,0,56434,0,46710,0,0,36031,0,46708,56435,56420,56423,56432,39417,0,38499,38329,0,58554,57527,0,57520,57539,57548,57523,47457,38100,57536,47447,47449,47461,57521,0,64762,47450,47452,47462],[47451,36983,0,0,37035,47460,57529,0,57518,47458,57528,47454,57546,47459,57544,57532,57542,47456,57519,57545,57540,40269,57547,47448,39418,0,47463,47453,0,37603,57525,38843,57533,57537,36984,57541,47455,57524,57522,57534,0,0,0,39419,57531,57530,38880,57535,57538,0,57543,0,0,0,58488,38620,48071,58532,58490,48076,48080,58541,58549,58534],[48072,40104,58538,57526,38770,48073,58545,58550,58542,37952,58544,58553,58546,58494,58537,37618,0,48081,0,48077,58492,58539,48075,58533,48074,58547,58530,58489,48078,58552,0,0,58491,58543,58540,58535,58487,58486,58529,58548,48079,58551,58493,58531,48722,0,39421,0,0,39420,48730,48725,59556,59553,59495,48720,0,36986,38474,48719,48726,0,38616,39422],[59493,48724,59505,59491,59492,48718,59555,48728,59508,59513,59507,60398,59503,59511,59509,59496,59490,59517,48727,59518,36939,59512,0,59501,59499,59494,0,64065,0,59502,59515,59498,59514,59554,0,39488,48723,38747,59510,59516,59506,59500,48721,39489,37341,0,58536,59504,48729,59497,37884,39490,39491,0,38489,60404,49143,60403,60400,60484,49147,39492,60481,60408],[60483,60393,60406,36945,49149,0,60385,38079,60383,60482,0,60480,60414,60397,60396,60386,49216,0,60392,60402,60413,49219,60485,0,49640,49221,49150,60390,0,60399,60382,60384,49141,49218,49146,60391,60407,60401,49217,60381,49635,60409,60412,49148,37026,60395,49220,49145,40107,38774,0,49144,60405,60411,49142,0,60388,60410,0,0,60389,0,0,0],[64597,65093,38056,39493,64075,40417,60394,61138,38617,61143,49637,49639,61149,49633,61164,61155,61144,61145,61154,0,49646,61153,61137,61152,61140,61165,49645,49643,61141,0,61160,38772,61146,61159,65013,61161,61136,49638,37605,61162,38469,37338,61150,37027,49642,61147,37576,0,49644,61156,0,37039,38847,49636,61142,61157,37196,61151,60387,61158,61139,38522,49641,0],[61163,37342,49634,61134,39494,65200,38777,37996,61792,61785,49897,0,61780,61795,61787,61148,39000,61797,61781,0,49896,61791,49898,49906,49904,61793,49905,61783,37478,61784,61789,61794,37883,61133,49899,61802,61799,61803,61790,61786,61800,62314,61788,0,49902,39495,49901,61135,49903,61796,61798,49900,61801,61779,0,61782,38729,0,0,38728,0,37706,0,40162],[62323,0,62307,50155,62321,0,37476,62305,50156,0,62316,37343,62312,50161,62322,62306,62309,50153,62324,64377,62317,62320,50159,50164,50162,62313,62308,38615,50157,50158,62304,50154,37699,50152,50160,62319,50163,0,62315,62325,50165,0,0,0,62311,0,62318,0,64971,65146,0,37339,35946,62707,62786,62709,62716,62310,62714,62697,62784,50371,62701,62718],[62708,38831,0,50370,38365,0,62788,62710,37704,62715,62717,62695,62785,62706,62711,62699,62703,62787,62713,62696,62700,62702,62712,39499,50369,62705,0,64581,0,39501,0,0,62698,0,0,0,37308,37090,37044,38369,62704,63073,63078,50511,63080,39502,50505,34733,63076,63082,50510,50506,0,50507,63072,63079,50509,63077,50508,63071,63075,63074,39503,63070],[63081,0,65088,65091,50609,63341,63344,63340,63342,63343,63337,63338,63335,38621,0,63339,63336,50610,50611,0,39505,63563,0,63565,38567,0,0,37040,0,63564,63566,0,50656,0,63562,50655,50657,40014,0,37955,63691,63692,50756,63690,36538,63827,63826,63828,50783,63829,50782,63830,63858,63861,63860,50792,63859,39506,0,64705,50802,50800,50801,50807],[63936,63937,63935,63945,0,35817,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40111,0,0,35837,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,39612,0,39608,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39598,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39591,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39507,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,40308,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,43768,35818,0,55364,56440,59557,62326,0,35819],[43769,0,44460,45179,0,37042,55365,0,55366,45996,0,46717,56442,56441,46755,46716,56443,46718,46754,46753,46715,0,38377,38376,47464,38374,0,57552,57550,0,57551,57549,37045,48082,39508,48085,48087,48086,37043,38375,48083,48084,35664,59559,59558,48731,59560,0,59561,48732,0,0,0,60493,60491,61171,0,60489,60490,49222,60486,60494,60488,60492],[61167,0,0,61169,0,61170,49651,61166,49650,61168,49647,49648,49649,60487,0,0,49909,61806,61804,61805,49907,49910,49908,0,0,0,62327,62328,50166,0,62789,62791,62790,50372,50512,63085,63084,63083,0,0,35820,0,0,0,0,0,0,0,0,0,0,0,39510,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,43770,35835,51626,0,51800,42729,51798,51801,51799,0,0,0,52142,0,43201,0,43202,52144,43199,52143,52141,43200,43198,39511,0,0,0,0,41130,52696,52699,43773,52698,52697,0,43772],[43771,40870,43840,52700,43774,39372,0,0,0,0,53446,44462,44463,44464,53447,53443,44461,53444,0,53445,53442,0,40025,0,45220,0,0,45217,54341,45218,45221,54342,0,45182,45180,45181,45219,0,0,0,0,39349,45997,55369,46005,55368,0,55371,46001,55370,46763,45999,46002,45998,46003,46004,46000,0,0,37054,55367,46759,56445,0],[56483,40879,0,56482,46764,46760,46761,56444,56446,56481,46756,46758,0,46762,46757,38386,0,57555,57553,57554,47466,47467,37055,57556,47465,48088,0,48090,48089,0,58555,0,0,58556,59563,37057,59562,65252,0,49223,49224,60495,49225,0,61174,0,61172,0,61173,49652,0,61807,50167,0,37060,0,49653,43841,0,45222,54343,37063,0,55372],[46006,46765,56484,56486,46767,46766,46768,46769,56485,47470,47471,47469,48091,47468,57557,0,0,0,48092,59564,60496,49226,49654,61808,61812,49913,61809,49914,49912,61813,49915,61811,0,62329,49911,50168,0,63693,0,0,43842,46008,46007,0,0,0,0,46770,56488,56487,46771,0,37604,57561,47475,47472,57560,47474,57558,47473,0,57559,0,58557],[48093,0,59567,40786,48733,59565,48734,48735,59566,48736,0,60497,0,49230,49227,49232,60499,49228,60498,49231,0,0,49229,0,61177,61179,0,37083,49655,61178,49656,61176,61175,41062,61815,61814,49916,61816,62334,50170,62333,62330,50169,62331,62332,0,62792,62793,50373,37074,50515,0,34667,63086,37076,0,50513,50514,63087,0,0,50612,50613,63345],[39515,38397,50757,63695,50759,0,63694,63696,50758,63831,34737,63917,0,0,0,0,0,35780,43843,0,0,35942,47476,37086,58558,0,59568,49233,37084,38468,43844,37089,48737,50171,44465,0,0,0,49235,0,50658,44466,55373,0,56489,40518,56491,0,56490,38481,57565,57562,47477,0,47478,57563,57564,0,58560,58565,48094,58559,58561,58568],[58563,58567,58564,58562,58566,48095,0,64344,59571,37094,59569,48739,0,48738,59570,48740,0,0,0,0,60502,0,0,60501,49236,60500,61180,38480,61182,61249,61248,37095,49657,61181,61857,49917,61821,61858,49918,0,61819,0,61822,61820,61817,49984,61818,0,0,37096,39517,62369,40826,0,62371,62370,39772,62794,40828,62795,0,64594,37097,63088],[37098,50615,39518,50614,63567,63568,50760,63697,40822,50793,0,44467,46772,58570,58569,59573,59572,0,37099,49658,61251,61250,61861,61859,61862,61860,0,0,50172,62372,62373,62374,37100,63089,0,63346,0,63698,35822,0,0,0,0,0,0,44468,37102,0,60503,61252,37318,44469,0,37106,48096,0,60504,49985,61863,50173,0,62796,62797,37105],[63569,44470,46011,46012,55374,46773,46774,56492,46775,0,47482,0,47484,57567,57568,57566,47479,47480,47483,47481,64700,35444,58571,48097,48098,0,0,59580,48743,59575,59574,38487,59579,48741,0,40175,49243,0,59576,59581,59578,59577,0,48742,0,49241,40927,60506,49237,0,60507,37111,37110,60505,0,49240,49238,49242,0,49239,0,0,0,0],[0,61253,0,61258,61254,61257,49659,39774,60884,61256,61255,37112,49988,49986,49989,49987,61864,61865,61866,49990,0,0,36092,62378,50240,62376,0,50241,62375,62377,50174,62801,62798,0,62799,62800,63090,50518,37113,50517,36041,63348,63347,50616,64106,0,0,50659,50761,50784,63832,63918,63919,35823,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,44471,56493,0,0,57569,58572,58573,48099,0,48100,59582,48744,40928,0,49660,37186,61867,39522,49991,62381,50242,62380,62382,62379],
    [63093,62802,62803,38249,50374,0,63092,37188,37187,63091,37185,63349,63920,0,35824,0,0,0,0,0,0,0,0,0,0,0,0,44472,38496,0,35825,44473,39414,37193,45223,54344,0,55375,37194,46776,0,46779,46777,56494,37195,46781,0,46778,0,39524,46780,0,47486,35519,57570,0,0,57571,59584,0,47485,47521,47522,0],[58575,0,58574,48101,0,48102,0,58576,59583,48104,48745,0,48103,0,39526,0,49244,59585,48747,48746,59586,59589,59587,59588,48748,39527,49249,49247,39529,0,49246,60509,0,49248,0,0,60508,61259,0,60510,49245,60511,61262,61260,61261,61266,49995,61265,61268,61267,61264,61263,0,49661,0,39530,38482,37197,61870,38502,61869,49994,49992,49993],[40827,61868,39531,62385,0,50243,0,62384,62383,50244,41068,62808,62807,38503,62805,0,62804,50376,50375,62809,63350,50617,63095,50519,63094,62806,0,63351,50660,39532,50785,63833,0,63921,39533,35826,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,44474,55376,61269,44475,0,38506,58578,58577,60512,0,0,61271,0,61270,64746,49996,62386,62387,50377,0,38508,63922,45224,46783,46782,57572,57574,47524,57573,47523,47525,57575,0,0,37316,58580,58582,58581,38519,58584,0,0],[0,48105,58583,58579,39412,39535,0,58585,0,59596,0,59599,59601,59591,59595,59592,48750,48753,48755,59593,59594,48754,39878,59600,59598,48756,40875,48752,59590,48749,0,48751,36030,36545,49251,60518,60516,60515,38229,60521,0,60520,60519,0,60514,49250,60513,0,60517,49252,0,0,61274,37202,61278,61275,61277,61276,61273,61279,61282,61280,61281,49728],[0,49662,61272,61283,61875,61878,61880,61879,0,61873,61877,61872,37203,61874,49997,61871,37205,61876,0,0,62400,62389,50245,0,0,50246,62388,62393,62399,62391,62398,38237,62395,38513,62394,62397,62392,62390,40045,62396,0,62816,62814,50378,62813,62819,62817,38515,50379,62812,62810,0,62811,50381,62815,50380,62818,63096,63102,37204,39537,63097,50523,63137],[50522,63101,63100,50521,63099,50520,63098,0,63357,63393,63358,0,63355,50619,63352,63356,63395,0,63394,63353,63354,50618,63570,50663,37206,63571,50661,50662,38509,0,63699,50762,63862,0,50794,38231,63923,50795,63924,63925,63939,63938,50810,63949,35270,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35271,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,45225,0,0,57577,0,57576,0,48106,48107,58586,35434,59602,60524,0,35671,48757,49253,60522,40929,60525,49254,39775,61284,60523],[61881,49998,62401,0,0,0,62822,62820,0,0,62821,0,0,63138,0,50524,63396,50666,50620,50664,50665,63700,50786,41053,45226,0,0,0,61882,0,0,54345,37211,47526,37212,58587,0,0,48108,58588,0,0,0,59604,59603,49256,48758,48759,0,59607,59606,59605,37214,0,60526,60529,0,60528,60527,49255,61288,61286,61285,40796],[0,61287,40791,49999,61884,61885,50000,0,61883,40805,62403,62402,62405,50247,62404,39538,62823,62825,62824,0,37216,63139,63142,63140,63141,63397,50621,0,0,0,63572,63573,63574,0,50763,50787,63926,45227,0,48760,49257,61886,40798,63398,0,37217,40800,54346,0,50811,45228,60530,37220,61887,0,62406,0,40769,63143,63399,45229,0,58589,58590],[37225,48109,48110,59609,48762,48761,59608,0,61289,0,61888,61890,61889,50003,50002,50001,37224,50526,63144,0,50525,63401,63400,0,50764,63701,46013,57578,0,0,0,58593,58591,58592,0,0,59618,0,59613,59610,59617,39540,0,0,59619,0,0,48764,59616,59612,0,0,59611,59615,59614,48763,0,0,60541,60536,60534,60577,60535,38578],[60531,39541,60537,64933,0,60532,61298,60533,60578,0,0,40681,0,35770,37229,41056,60540,49258,60539,60538,0,60542,0,40926,0,0,61290,61293,0,40899,61292,38581,61300,61295,61299,0,61297,61296,61294,0,61291,0,49731,49730,0,49732,49729,61301,41063,0,0,0,0,61896,61899,0,61897,61901,0,0,0,61902,0,61894],[50008,61895,0,61893,61900,0,61892,61891,50007,50005,50004,0,0,0,0,38579,0,0,0,61898,62415,62421,50250,62416,0,62419,62423,50251,62418,39542,62410,0,62409,62422,62413,0,62411,62420,62412,50249,50248,38357,62407,62408,62417,40650,0,0,62414,39543,0,0,39544,0,0,62828,62831,0,0,0,0,50006,0,37232],[0,0,37231,0,0,62829,62835,62833,62827,62838,40867,62826,37233,50383,62834,0,38577,0,62830,50382,62837,40803,0,62836,0,0,0,40807,63147,63146,0,35769,39546,63153,0,63149,63152,50528,35670,0,63150,63151,0,63145,63148,50527,0,39642,0,50623,63412,63407,63411,38576,63414,63410,0,63406,39550,50625,63409,63413,50624,63404],[62832,63408,0,0,63405,40414,63402,0,63403,50622,63578,63580,63583,63579,63584,38573,63577,0,63575,38574,50667,63581,50669,50668,63576,63582,0,0,0,40609,63706,50765,63707,0,63705,63702,0,0,63704,63703,63834,0,0,0,0,63836,63835,0,0,63865,40528,63864,63863,63866,0,50803,50804,63946,63950,38575,35828,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,46014,56495,57581,0,47527,57579,0,0,57580,0,0,0,58594,58595,48113,48111,58596,48112,59624,0,59627,59621,59628,59620,59622,0,59623],
    [59626,0,40868,48801,59631,59630,48765,59625,59629,48766,0,0,38589,0,0,0,60588,0,49263,0,60583,49259,38644,60580,60586,60589,0,49264,0,60585,60582,60590,60581,38584,60587,49260,0,60579,49261,0,49262,60584,0,0,0,61353,61306,61307,61310,61308,0,61302,64161,0,61305,61349,61309,37287,0,49733,0,61351,61348,49734],[61350,61303,61346,61347,41054,61345,0,0,0,39549,61906,61908,61911,0,35144,61905,40625,50009,61913,61904,61914,0,61910,61912,61916,61909,61917,61907,61903,50010,40411,61915,50011,50253,0,0,0,0,0,61304,62449,62440,50255,62436,50256,38335,35443,62445,62439,62429,50254,62442,62437,62438,0,62424,62431,62446,0,62443,40702,62435,37242,62447],[62430,62425,62444,37243,62427,62441,62432,62448,62428,50252,62426,62433,62434,0,0,0,62845,0,62843,39587,62882,0,62894,62885,62844,62840,62887,62846,62883,62842,62890,62839,62881,62886,62888,62891,62841,38594,62895,62896,62889,62893,62884,40823,63169,63172,0,50529,0,63171,63176,63174,50530,63165,63155,63154,50532,63167,63168,63164,63156,39588,63161,62892],[39589,63157,50531,63163,37281,63162,0,63158,63170,35256,63159,63419,63173,63175,63166,63160,63420,63422,63416,50626,37235,63429,63427,50627,63426,63425,63418,63415,63421,63430,63417,63423,0,63593,63598,63588,63591,50670,63595,0,63602,63424,0,63589,63599,63603,63594,63587,40043,0,63596,63601,63600,63428,63592,63586,63590,50766,50767,63585,39590,63718,63709,63717],[63714,63715,63708,63711,63719,63713,63712,63710,0,63716,35261,63837,35257,63838,37245,63840,63839,63842,63841,63868,63867,63927,0,63928,38587,63941,50808,50812,40946,63951,50813,35829,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,46015,0,0,0,50384,63177,39593,50768,50769,0,46016],[57582,40788,47528,59632,40931,40685,60592,60593,60591,61355,61354,49735,61919,61356,61918,0,37290,62451,50257,50259,62450,37291,41072,50258,40813,62897,62899,62898,63178,50533,37292,50671,63720,63843,37293,0,63954,46017,41213,58597,40930,48802,37295,40513,39594,60595,60594,37296,61357,39595,0,0,50260,50385,63431,63947,0,0,0,46018,48114,39596,48803,39498],[62452,37298,63604,46784,35830,0,39597,35254,61358,0,0,0,50788,46785,48804,49736,63605,46786,0,59633,49266,60596,60597,0,49265,0,61359,49740,49738,49739,49737,61920,50012,0,39599,0,62901,62900,62903,62902,50386,0,0,63179,0,63181,63180,50534,63432,39600,63606,63607,50672,63844,63869,50805,39601,56496,60598,61360,62453,57583,39585,61361],[61922,61921,37305,0,0,0,63608,50770,37306,63845,63870,0,0,0,47529,59634,59635,0,60599,47530,0,50013,37311,37310,63183,50535,63184,63182,63609,0,63721,0,47531,0,61364,61363,61362,61924,41025,35767,61928,61927,61926,61925,50014,62454,62905,50387,62904,63185,63435,63434,50628,63433,63612,63611,63610,37312,0,48115,0,60600,49741,0],[62455,62456,63436,63613,39603,37315,63722,63846,63929,63956,48116,49742,61929,62457,63186,63614,41212,0,48806,40942,61365,61930,62458,62459,62460,62910,40809,62906,50536,62909,62908,50388,62907,50390,37320,50389,63188,63187,50537,50538,0,37321,50630,63437,50629,0,63651,63652,63650,63649,50772,0,63723,63724,63725,50771,63847,63850,63849,63848,0,0,63955,36326],[0,0,0,0,0,0,0,0,0,0,0,0,0,49267,37323,0,50021,62911,63189,0,50631,63438,34732,34724,63957,35272,0,0,49268,0,0,36266,61366,0,63439,0,63905,40925,35907,35949,35956,36023,36025,36027,36032,36055,36056,36058,51361,51363,36077,36168,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,34754,34770,34774,34778,34783,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,35832,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,51530,56828,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41290,41303,0,41305,41307,41311,41312,41315,41316,41319,41320,41323,41324,41327,41328,41331],[41332,41335,41336,41339,41340,0,0,0,0,41414,41415,41418,41419,41416,41417,41308,41293,41294,41295,0,41297,41298,41299,41300,0,41341,41342,41377,41378,41379,41380,41420,41421,41422,41438,41439,41440,41441,41442,0,41538,41548,41549,41550,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,41289,51408,41389,41539,41544,41390,51407,41309,41310,41391,41423,41281,41424,41284,41470,41647,41648,41649,41650,41651,41652,41653,41654,41655,41656,41287,41286,41429,41431,41430,41288,41545,41679,41680,41681,41682,41683,41684,41685,41686,41687,41688,41689,41690,41691,41692,41693,41694,41695,41696,41697,41698,41699,41700,41701,41702,41703,41704,50916,41536,50917,0,41412],[0,41705,41706,41707,41708,41709,41710,41711,41712,41713,41714,41715,41716,41717,41718,41719,41720,41721,41722,41723,41724,41725,41726,41792,41793,41794,41795,41313,41301,41314,41443,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41542,41543,51405,41411,51406,41540,0,0,0,0,0,0,0,63998,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40049,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37749,0],[0,0,0,0,0,0,37750,0,0,0,0,0,0,0,38216,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36550,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,35781,35834,0,0,51324,0,0,0,0,0,0,0,0,0,39604,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,34894,34891,51322,34888,0,0,0,34887,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41206,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,34885,0,34899,0,0,0,0,0,0,0,0,0,64685,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36085,0,0,0,0,35501,0,37490,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,64583,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38111,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40913,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,64459,0,0,0,0,0,0,0,37501,0,0,0,0,0,0,0,39076,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36089,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38119,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37067,37499,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38104,0,0,0,0,64607,0,64084,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39605,0,0,0,0,0,0,0,38618],[37497,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,37493,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36347,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,35401,0,0,0,37599,39804,64099,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64096,37485],
    [64098,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39606,0,0,0,0,0,0,38763,0,0,0,0,0,0,0,0,0,0,0,0,0,64874,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,64852,0,37491,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38872,0,0,0,0,0,0,40891,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37698,37494,0,0,0,0,0,0,0,0,0,0,64101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37484,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,64110,0,0,0,0,0,0,40672,0,0,37568,37567,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37566,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39610,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35507,0,38773,0],[0,0,0,0,0,0,0,64064,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,64118,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64464,0,0,0,0,0,0,0,0,0,0,0,0,0,64123,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,65133,0,0,0,0,0,0,39859,0,0,0,0,0,35276,0,0,0,0,39614,0,0,0,0,0,0,0,0,0,64066,37564,0,0,0,0,0,0,0,0,0,0,37980,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39861,0,0,0,39615,0,0,0,39079,38820,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37117,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64635,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39616,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,37571,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35498,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39888,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38224,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37574,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39078,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38214,0,0,0,0,0,0,0,0,0,0,0,0,64867,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64194,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40643,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35250,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40038,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36947,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35938,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,34728,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38849,0,0,0,0,0,0,0,0,0,0,0],[0,0,39620,0,0,0,0,0,0,0,0,0,0,39621,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,36591,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64233,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36160,0,0,0,0,0,0,0,0,37474,35575,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39622],[0,0,0,0,0,0,37601,0,0,0,0,39625,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64198,0,0,0,0,0,0,0,0,38821,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39627,0,0,0,64114],[0,0,0,0,0,0,0,0,0,0,0,35422,0,38112,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37580,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35557,0,0,0,0,0,65116,39628,0,0,0,0],[0,40441,35395,35494,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39629,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39630,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64238,39884,0,0,0,39631,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,39633,0,0,0,0,0,0,0,0,40442,0,0,0,0,0,40316,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39635,0,0,38822,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39263,0,0,0,64502,40901,35417,35691,0,0,0,0,0,0,39636,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39637,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38818],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35396,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40778,0,0,0,0,0,0,0,0,37025,64932,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,35428,35570,35576,40408,0,0,38102,64254,64423,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39638,0,40781,0,0,64246,0,0,0,0,0,0,0,35415,0,35651,35652],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35510,0,0,0,0,0,35520,0,0,0,0,0,0,0,0,0,0,40532,0,0,0,0,0,0,0,0,0,0,39639,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,39640,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,39644,0,0,0,0,35530,40616,0,0,37475,39645,35685,35695,35710,0,0,0,0,36675,0,0,0,0,0,0,37584,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,35572,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40382,0,0,0,0,0,39649,0,64734,40445,35686,35696,35701,35556,35748,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,35565,0,0,0,0,0,0,0,0,0,35421,0,35656,0,0,0,0,40429,0,0,0,0,40512,0,0,0,0,0,0,0,35567,35574,40566,0,0,0,0,0,0,0,0,0,40675,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39646,36350,0,0,0,0,64252,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40113,40567,35684,35687,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38731,0,0,0,0,0,0,0,0,38483,0,0,0,0,0,0,39648,35658,0,35569,35543,0,0,0,0,0,0,0,0,0,41131,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,35509,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35423,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,35566,0,0,39647,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35582,0,0,0,0,0,0,35416,35747,35751,0,0,0,0,0,39651,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37473,0,0,0,0,0,0,0,0,0,0,40407,40573,40615,40619,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36930,0,0,0,0,0,0,0,0,35705,35706,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39654,0,0,0,0,0,0,0,0,0,0,0,0,39653,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35454,0,0,0,0,0,40516,39655,35452,35697,0,0,39657,0,0,0,0],[0,0,0,0,0,0,0,0,39658,0,0,0,0,0,0,0,0,0,0,0,0,0,39659,0,0,0,0,0,0,35517,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64334,0,0,0,0,0,0,0,0,0,0,39661],[35577,40547,0,0,0,0,0,35657,35534,35694,0,0,0,0,0,35560,0,0,0,39662,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37582,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35418,35707,35708,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39663,0,0,0,0,0,0,0,0,0,0,0,39664,0,35578,0,0],[0,0,0,0,0,35137,0,0,35698,0,0,0,0,0,0,35571,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [35752,0,0,0,0,0,0,40622,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40562,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64371,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64351,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37050,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37374,40694,0,0,0,0,0,0,38893,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39667,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41198,0],[0,0,38524,37701,39022,64086,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39669,0,0,0,64587,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39668,65246,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,64695,0,0,0,0,0,0,0,0,0,38897,0,0,0,38855,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,40139,37440,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40168,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37373,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38734,0,0,64360,0,0,0,0,0,0,0,0,0,0,0,0,0,38764,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36034],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38888,0,64362,35700,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,36583,0,0,0,0,0,0,0,0,0,0,0,0,64968,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37441,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38561,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36595,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39671,0,0,0,0,0,0,0,0],[0,0,36774,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64214,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,40135,0,0,0,0,0,0,0,0,64215,0,0,0,0,0,39672,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64417,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36549,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64420,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64450,0,39617,0,0,0,0,0],[37370,65243,38827,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37191,0,64433,0,0,0,0,0,0,0,0,0,36842,0,0,0,0,0,0,38098,65121,64206,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37613,37363,37830,0,37722,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,64251,0,0,37615,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64200,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38983,37734,38997,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38630,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40771,40874,38106,37614,64687,64507,0,36601,37366,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37732,0,0,0,0,38133,40118,64429,38990,36676,38653,0,0,0,0,0,0,0,0,0,0],[0,0,0,39673,0,0,0,39674,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38761,38356,38987,64426,0,0,39036,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37354,0,0,0,0,0,40367,40389,0,37361,36529,38825,64428,64696,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40121,0,0,0,0,0,0,0,64432,64722,37835,0,0,39677,0,0,0,0,0,0,0,0,0,0,0,37364,35756,41045,0,0,0,0],[38260,0,0,0,0,38334,0,0,0,0,0,0,0,0,0,0,0,0,38829,0,0,0,0,0,0,0,0,0,0,0,36585,0,0,37624,38846,37228,38058,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64611,0,0,0,40390,0,0,0,0],[0,0,0,38837,37560,37359,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65190,38752,37720,38262,36780,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37356,38836],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37367,0,0,0,0,38730,64329,38264,37820,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37334,0,0,0,0,0],[0,0,0,37717,37718,38993,0,0,0,0,0,0,0,0,0,0,36856,64448,37874,0,0,37072,0,0,0,0,0,0,40004,0,0,0,0,0,37461,0,0,0,0,37731,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37285,0,0,0,0],[0,0,0,0,41197,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64875,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39678,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37713,0,0,0],[35927,0,0,64120,0,0,0,0,65192,0,0,0,0,0,0,0,0,0,0,0,0,0,37712,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64076,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37623,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39744,0,0,0,0,0,0,64462,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,39745,0,0,0,0,0,65197,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34657,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,64469,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,35778,39548,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39746,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39747,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40569,0,0,64473,0,0,0,0,0,0,39748,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,41127,0,0,0,0,0,0,0,0,0,0,0,0,34683,0,0,0,0,0,0,0,0,0,0,34670,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39923,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35961,0,0,0,37726,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,35275,0,0,0,0,0,0,40787,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37847,0,0,0,0,0,0,0,0,0,0,0,0,0,64481,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65232,0,0,0,0,0,0,36081,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64482,0,0,0,0,0,64739,0,0],[0,0,0,0,0,0,0,0,0,36980,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64486,0,0,0,39863,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,39749,0,0,0,0,0,0,0,0,0,0,0,0,39751,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40784,0,0,0,0,0,39752,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64603,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39081,0,0,40189,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34892,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,39755,0,0,0,64492,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35945,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39848,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,35541,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64115,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64857,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37282,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64493,0,0,0,0,0,0,40105,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35496,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,36162,0,39875,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,35553,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39758,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38352,0,0,0,36959,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38894,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64590,0,0,0,0,0,0,39759,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39760,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40646,0,0,0,0,0,0,0,0,0,0,0,64592,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,64883,0,0,0,0,0,64935,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40354,0,0,0,0,0,0,0,0,0,0,0,34769,0,0,0],[0,34771,0,0,0,0,0,0,0,34772,0,0,34773,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64088,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64094,0,0,0,0,0,0,0,41049,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64117,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64446,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,40098,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37744,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37745,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37751,65263,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37741,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64605,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37048,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35580,0,64321,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40555,38115,36578,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35965,0,36567,0,0,0,0,0,0,40013,0,0,0,38563,0,0,0,0,0,0,0,0,0,0,39761,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35523,0,0,0,0,0,0,0,0,0,0],[0,38570,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36066,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64616,35693,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,64871,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,35561,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64673,37740,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39762,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65136,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,64680,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64745,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35562,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39763,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39765,0,0,0,38571,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[64679,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39766,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35516,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35531,0,0,0,0,0,39767,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35277,0,39769,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,39771,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37797,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39773],[0,0,0,40527,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37795,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,35451,0,0,0,35650,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38736,36787,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35408,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,39776,0,0,0,0,35653,0,0,0,35654,0,0,0,0,0,0,0,0,0,0,0,0,40446,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,39778,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37755,0,0,0,0,0,37809,0,0,0,0,0,0,0,35424,0,0,0,0,0,0,0,0,35544,0,0,0,0,39779,0,0,0,0,0,0,0,0],[0,0,35433,0,0,0,35399,0,0,35532,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,37756,39781,0,0,0,0,0,0,0,0,0,39782,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,35442,0,0,0,0,0,0,0,35450,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37807,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,35504,0,0,0,0,0,0,0,39784,0,0,0,0,0,0,0,0,0,0,40611,0,0,64236,35703,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39783,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35673,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,64689,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64699,0,0,0,0,0,0,0,0,0],
    [0,0,39785,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37800,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,35552,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40529,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36703,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39786,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,39787,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38892,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39788,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,65102,0,0,0,0,0,0,64962,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39789,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37223,64716,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,37814,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37092,0,0,0,0,37093,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40690,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,37834,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35772,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36678,0,0],[0,0,37839,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64731,64732,0,0,0,0,0,0,0,0,0,0,0,0,0,37824,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,64742,38631,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34727,0,0,0,0,0,0,0,0,0,0,0,0,64728,64729,64934,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37838,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38385,0,0,0,0,0,0,0,0,0,40169,0,64740,38063,64119,37836,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36065,0,0,0,0,0,0,0,34729,0,0,0,36954,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,35924,0,0,0,0,0,0,0,37823,64337,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37817,65239,37815,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37849,0,0,0,0,0,0,0,0,0,0,0,0,0,37819,37850,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[39075,0,0,0,0,0,0,0,0,0,37073,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39790,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64112,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,39915,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39791,0,0,0,0,0,0,0,64764,0,0,0,0,0,0,0,0,0,0,0,0,0,35648,41083,0,0,0,36001,38903,0,0,0,37858,0],[64726,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38233],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37798,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64832,0,0,37727,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38898,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40054,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36600,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36075,0,0,0,0,0,0,0,0,36679,0,0,0,0,0,0,0,0,0,0,0,0,39796,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37556,0,0,0,37357,0,0,38610,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34776,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,64838,36687,38217,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39797,0,0,0,0,0,0,0,0,0,0,0,0],[64092,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34641,0,0,39801,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64843,0,0,0],[38611,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64856,0,0,0,0,0,37983,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41205,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,34759,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34684,0,0,0,0,0,0,0,37443,0,0,0,0,0,0,38906,0,0,0,0,0,0,0,0,0,0,0,0,40409,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38900,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37453,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,64859,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39802,0,0,0,0,0,0,0,0,0,40661,0,0,0,0,0,0,0,0,0,0,0,0,64174,0,40137,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37464],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36552,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,38068,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37857,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37855,0,0,0],[0,0,64752,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37868,38902,38607,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37854,0,0,0,0,0],[0,0,35535,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39842,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64873,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37714,0,0,0,0,0,0,0,0,0,0,0,39074,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36071,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64878,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36004,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64124,37882,36988,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36711,0,40375,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,41193,64078,64929,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40564,40895,40651,39865],[40404,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38841,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36593,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38267,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40658,38739,38564,36798,38105,36952,64889,64891,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36570,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36602,0,0,0,0,0,0,0],[0,0,0,0,0,0,34658,0,0,0,0,0,0,0,0,0,0,39845,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40665,38868,37051,64956,64966,37448,0,0,0,0,0,0,0,37557,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,40385,37561,37542,36683,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39846,0,0,0,0,0,37558],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36416,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40664,37982,39007,38094,37450,64880,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37991,0,0,0,0,0,0,0,0,0,0],[0,36332,0,0,0,0,0,0,0,0,39896,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34659,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37960],[64193,40183,64958,0,0,0,0,0,0,0,0,0,0,0,0,36826,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64985,0,0,64638,0,0,0,0,0,0,0,0],[37881,0,0,0,0,64067,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64235,64195,38867,38393,40008,64984,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41176,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64983,64330,39855,37963,64969,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36524,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,64946,0,0,0,0,0,37466,64701,37593,0,0,0,64981,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,37597,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37465,0,0,0,0,0,0,0,0,0,0,36080,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,38586,0,0,0,0,0,0,0,0,0,0,37467,0,0,0,0,0,0,0,0,0,39851,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64986],[64990,0,0,0,64979,0,0,0,0,0,0,0,0,0,35910,0,0,0,0,0,0,64982,64988,64989,0,0,0,0,37118,0,0,65185,0,34725,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35757,0,0,40152,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40557,64892,64353,0,0,0,0,0,0,38648,0,0,0,0,0,0,0,0,38640,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,64756,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65120,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38994,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38479,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,37230,0,0,0,0,0,0,0,0,0,0,39021,0,0,39012,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37971,65004,64376,0,0,0,0,0,0,0],
    [0,0,0,0,38330,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39005,0,37625,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39002,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34640],[0,65014,0,0,0,0,0,0,0,37840,39010,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39853,0,0,0,0,0,0,0,0,0,0,0,38735,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,39854,0,0,0,0,0,0,0,0,0,0,0,0,37970,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39856,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,37330,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38890,64363,37297,65011,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,37579,0,0,0,0,0,0,0,0,0,39857,0,0,0,0,0,64748,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39019,0,0],[0,38737,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39025,38383,0,0,0,0,0,0,0,40691,0,0,0,0,0,37352,0,0,0,0,0,0,0],[0,0,0,0,39866,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64332,37482,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65016,39009,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37351,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,37869,38724,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37345,0,0,64501,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,39017,0,0,0,0,35426,0,0,39867,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,36008,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40021,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36471,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,35506,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40636,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37862,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37794,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39869,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38067,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37757,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,40550,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37977,0,0,0,0,0,0,0,0,0,39871,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37976,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40613,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39879,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,36468,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35798,0,0,0,0,0,0,38070,64884,39104,38053,0,0,0,0,0,0,0,39880,0,0,0,38381],[64894,64491,0,0,0,0,0,0,0,0,0,0,64893,0,0,0,0,0,0,0,0,0,38767,37985,0,40897,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38359,0,0,0,64082,40024,0,0,0,0,0,0,0,0,0,40808,39911],[64718,38632,64073,38817,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38221,40696,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65097,37326,38769,0,0,0,0,36047,0,0,0,64945],[0,0,64622,0,0,0,0,0,40178,37816,36931,38745,38103,65126,38013,64623,0,0,0,0,37446,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64109,0,0,36599,0,64439,0,38012,37581,38834,0,0,0,0,0,0,0,0,0,65125,38526,38744,39799,37327,0,0,0,0],[0,0,0,0,0,38052,0,0,0,0,0,0,0,0,0,0,40109,0,0,0,0,0,0,0,0,0,35755,0,0,0,38613,64691,0,0,0,37806,0,38765,0,0,0,0,0,0,37958,38391,0,0,0,0,0,0,0,0,40006,38235,37329,38132,0,65127,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,37541,0,0,0,65247,36011,0,39881,0,0,0,0,0,0,0,0,0,0,0,64749,65018,64712,65122,37372,65131,65017,64711,37198,40120,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38759,0],[0,0,38382,0,0,39858,0,0,0,0,37984,0,0,0,38050,39029,38828,37331,0,0,0,0,0,0,0,0,0,0,0,39035,0,0,0,0,0,0,0,36587,38762,38494,0,0,0,0,0,0,0,0,0,38891,0,0,0,0,0,40953,38392,65186,36838,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,65150,0,0,0,0,0,0,40356,38760,36588,38077,0,0,0,0,0,0,0,0,0,0,0,0,0,37979,40182,64167,39897,0,0,0,0,0,0,0,0,0,64093,38486,38754,0,0,0,0,0,0,38074,41039,37592,0,0,0],[39883,0,0,0,0,0,0,38075,0,0,40287,0,0,0,0,0,0,37071,0,0,0,0,0,0,0,0,0,0,0,0,0,37989,0,0,40780,0,0,0,0,0,0,37080,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36187,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40638,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64365,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,38346,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40386,38904,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,36860,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38003,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,38004,0,0,0,0,0,0,0,0,0,0,0,0,65207,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35403,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35413,35689,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35548,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35702,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39886,0,35432,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,41208,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39135,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,65205,0,0,0,39887,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38651,0,0,39931,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40654,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36581,0,0,0,0,0,0,0],[0,0,40571,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39890,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35493,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65230,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35397,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,40444,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65231,35749,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,35914,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35564,0,0,64736,38061,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65237,38060,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64602,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39894,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,35439,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35753,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,36447,0,0,40395,0,64743,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39895,0,0,0,0,0,0,0,0,0,0,0,37832,0,0,0,0,0,0,0,0,0,37360,36832,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,39899,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37101,0,39900,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36179,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41196,0,0,0,39162,0,0,0,0,0,0,0,0,0,39904],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37831,37449,38625,39906,0,0,0,39908,0,0,36833,39909,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,38080,0,0,37827,0,0,0,0,0,0,0,0,0,0,37829,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36985,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38779,0,0,0,0,0,36990,0,0,0,0,65254,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,65094,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40376,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37488,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,38312,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36016,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38088,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39097,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,37184,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64702,0,0,0,0,0,0,0,37207,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35762,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64223,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,39910,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38467,36420,40015,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65268,0,0,0,0,0,39912,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37852,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,38511,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34721,0,0,36426,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,39917,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,37622,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40377,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36430,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,64463,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34656,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40642,0,0,0,0,0,0,38117,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39920,38116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38225,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35771,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,39921,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38128,36452,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,38122,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36705,0,0,0,39780,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,36443,0,0,0,0,39922,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40894,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,40393,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36460,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36723,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36015,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[36725,36465,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36448,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36458,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35916,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,38226,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34767,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34752,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,38228,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,35540,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,40379,38211,37630,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38130,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38129,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41194,40402,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41137,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,37368,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37986,39844,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34685,0,0,0,0,0,0,0,36525,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,40621,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38608,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,65262,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35508,0,0,0,0,0,0,0,0,0,0,0,0,38743,35447,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,39927,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36533,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41069,36534,38742,38208,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41203,38078,0,0,0,39930,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64991,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40380,0,0,0,0,0,0,0,0,38142,0,0,0,0,0,0,0,0,35803,41214,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36544,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40775,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,35806,41211,0,0,0,0,36547,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38473,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65218,0,0,38220,0,0,0,0,0,0,0],[0,0,39933,0,0,0,0,0,0,0,0,0,0,0,0,0,37068,40032,38219,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,39934,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40048,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,40003,0,0,0,40007,36556,0,0,0,36436,0,0,0,0,0,0,0,0,0,0,36580,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40009,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35678,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38238,0,0,0,0,0,0,0,0,0,0,0,0,38236,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40011],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35809,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36569,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40372,0,37471,0,0,0,40012,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35489,0,0,0,0,0,0,0,0,0,0,0,0,0,36571,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40022,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35490,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,38740,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40030,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40660,38248,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,41155,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35558,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,41207,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40033,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40031,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,64589,0,40539,0,0,0,0,0,0,0,0,40553,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,40035,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,65223,0,0,65222,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40039,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40041,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35810,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37221,0,0,0,0,0,0,0,0,0,0,0,0,40167,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35412,0,0,0,0,0,0,0,40044,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40046,65117,0,0,0,0,0,40051,0,0,0,0,0,0,0,0,0,0,0],[0,0,38250,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38253,36592,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,36685,0,0,0,0,36598,0,0,0,0,0,0,0,0,64188,0,36053,0,0,0,0,0,0,0,0,0,0,0,0,0,34654,0,0,0,0,64474,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35660,64885,39901,64245,0,0,0,0,0,0,0,40052,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38213,0,0,0,0,0,0,0,0,0,0],[0,0,38598,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36714,36686,0,0,0,0,0,40056,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64085,0,0,0,0,0,0,0,0,0,0,0,0],[38884,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40001,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37468,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[38650,36086,0,0,0,0,36173,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64358,36453],[38985,64424,38978,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40058,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38907,37066,0,0,0,0,40027,0,0],[38733,0,0,36563,0,0,0,0,0,0,0,0,0,0,0,0,0,38241,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40779,40885,37842,64938,38976,37190,39015,64090,64425,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38977,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36051,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64765,64939,37309,36684,38601,36693,64430,38255,0,0,0,0,0,0,40061,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41200,0,0,0,0,0,0,0,0,0,0,0,0,0,37999,64940,0,0,0,0,38603,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[38606,0,0,0,0,41046,0,40161,0,0,0,0,0,0,0,0,0,0,38596,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,36702,36716,36515,64435,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64595,0,0,0,64947,0,0,0,0,36715,0,0,0,0,0,0,0,0],[0,0,0,0,38602,0,0,0,34765,0,0,34643,0,0,0,0,0,0,0,0,0,0,0,0,0,36729,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40559,41157,64632,36418,36698,37058,36517,36961,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37455,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37747,64949,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65228,0,64445,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36054,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38979,38597,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,35260,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,40099,0,0,0,0,0,0,37451,38986,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,36772,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41201,40699,40146,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,36775,0,0,0,0,34644,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64604,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,38981,0,0,36934,36049,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65274,38240,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40776,37447,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37115,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,40100,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38257,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34629,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[40102,0,0,0,0,40103,0,0,0,0,0,40106,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40659,0,0,0,40560,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34642,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36782,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36176],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38269,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40112,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,38838,0,41149,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35551,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40618,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36797,0,0,0,36799,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37737,39847,0],[0,0,0,0,0,0,0,51364,0,0,0,0,65258,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39905,0,0,0,0,0,0,35649,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40374,41195,39843,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35745,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36808,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35148,39008,0,0,0,0,0,0,0,0,0],[0,38087,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35672,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,38315,38314,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,40131,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40132,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37846,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40364,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35814,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,35441,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36817,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39381,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37108,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35491,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40142,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40148,0,0],[0,0,0,0,0,0,0,0,0,0,40149,0,0,0,64456,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40371,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64624,0,0,0,0,0,36823,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39795,0,0,0,0,0,0],[0,0,0,0,64091,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36818,36964,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39094,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,38504,0,0,0,0,40150,0,0,0,0,0,0,0,0,0,0,0,0,39101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36828,65270,36825,0,0,0,0,0],[0,0,0,0,0,0,0,0,38209,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34762,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34668,0,0,0,0,38899,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39928,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34650,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34632,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,34634,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40556,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36850,36846,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40151,0,0,0,0,0,0,0,0,0,0,0,0,40558,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,35392,0,0,0,0,0,0,0,0,0,0,36847,0,0,0,0,0,0,0,0,36852,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36853,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38338,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,39018,0,38863,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40677,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40572,0,0,0,0,0,0],[0,0,36929,0,0,0,0,0,0,40155,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37953,0,0,0,0,40166,40368,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,40170,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,40173,0,0,0,0,0,0,0,0,0,0,0,0,40186,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35682,35406,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40138,35430,0,0,0,0,0,0,0,0,0,0,40187,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40188,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40190,0,0,0,0,0,0,0,0,0,0,0,0,0,35411,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40165,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,40256,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40257,0,0,0,0,0,0,0,0,0,0,0,0,36933,0,0,0],[0,0,0,0,0,0,0,35699,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38858,0,40258,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35425,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35758,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35538,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,35746,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40434,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,40259,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40159,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40260,0,0,0,0,0,0,0,0,0,0,36554,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36942,0,0,0,0,0,0,0,36531,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40949,0,0],[0,0,0,0,0,0,0,0,0,0,40261,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36943,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40263,0,0,0,35274,0,0,0,0,0,0,40117,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,64510,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,36958,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36963,36951,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36966,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39872,0,0,0,0,0,0,0,0,0,0,0,64741,0,0,0,0,0,0,0,0,0,0,0],[37218,0,0,0,0,0,0,0,0,0,0,36967,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36769,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36770,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40264,64211,0,0,0,0,0,0,36175,0,0,0,0,0,0,0,0,0,36957,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37049,0,0,0,0,0,0,0,0,0,0,0,0,0,36971,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35932,0,0,0,36969,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,65111,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,34726,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36979,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,39919,40176,0,0,0,0,0,0,0,0,0,0,0,0,40267,0,0,0,0,0,0,0,0,0,0,0,0,0,65241,0,0,0,65242,0,0,0,37344,36163,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37336,0],[0,0,0,0,0,0,0,0,0,38470,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37728,0,64083,40147,0,0,0,0,0,0,0,0,0,0,0,0,40270,0,0,0,64320,0,0,0],[36322,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37954,0,36950,0,0,39013,0,35948,64074,0,0,40272,40274,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38319,38746,37705,38727,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41204,0,0,0,0,0,0,38776,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36815,0,0,0,64608,0,0,0,0,0,0,0,0,35918,0,0,0,64598,0,0,0,0,0,0,0,0,0],[0,0,0,0,37340,38497,37612,37725,36574,38654,64847,38366,0,0,0,0,0,0,0,0,0,0,0,0,0,39088,41024,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,38845,38781,38901,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39852,64218,37570,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[38833,0,0,0,0,0,36987,0,0,0,0,37886,38011,0,38775,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64190,64835,37062,37028,37032,38057,0,37033,0,0,0,0,35941,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38368,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,36989,0,0,0,0,0,0,37477,0,0,0,0,0,0,0,0,0,0,0,0,0,64954,37828,0,0,0,0,0,0,0,0,65261,40363,41187,0,38472,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,40275,0,0,0,0,0,35497,0,39877,0,38493,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38751,38495,38510,64349,0,0,0,0,0,40369,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65187,0,0,0,0,0,0,0,0,0,40370,0,0,38318,64675,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34665,0,0,0,0,0,0],[0,0,41122,0,0,38485,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40276,0,0,37697,0,38317,37333,0,0,0,0,0,0,0,0,0,0,0,0,38778,65020,36423,37885,37029,37036,0,0,0,0,0,0,0,0,38316,0,0,0,0,0,0,0,0,0,37038],[0,0,0,65189,0,0,0,0,0,40278,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38883,38370,0,0,0,0,0,37990,0,0,38471,0,0,0,0,37304,0,0,0,0,40172,0,0,0,0,0,0,0,0,37037,0,38371,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,35663,0,0,35555,0,0,0,0,35661,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38378,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35662,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36033,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35821,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37337,0,0,41124,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38389,38388,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40883,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65199,0,0,0,0,0,65138,37498,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,65196,0,0,0,0,0,0,0,0,0,0,0,0,0,38387,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,40280,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36166,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,37746,0,0,37317,0,0,0,0,0,0,0,38466,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37069,38398,37209,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[40037,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38860,37070,0,0,0,0,0,0,40281,64757,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,65277,0,0,40283,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40284,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,37758,0,0,0,0,0,0,0,0,0,0,0,0,0,39084,0,0,40286,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64976,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64864,0,0,0,0,0,0,0,0,0,0,0,40143,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37085,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37088,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37107,0,0,39089,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37104,0,0,0,0,0,0,0,0,0,0,0,37821],[0,0,0,0,0,0,0,0,38327,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40774,0,0,0,0,0,0,0,0,36427,38488,0,0,0,0,0,0,0,0,0,0,35404,0,40291,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40655,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40293,0,0,0,0,0,0,0,40294,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38490,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40292,0,0,0,0,0,0,0,0,0,0,35436,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35545,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40295,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35440,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35827,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37200,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40129,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40296,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37799,0,0,0,0,0,0,38516,0,0,0,0,0,0,0,0,36093,0,0,0,0,0],[0,0,0,41199,0,37201,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38593,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,34679,0,35940,38518,40297,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64676,0,0,0,0,0,0,0,0,0,0,0,0,40298,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37454,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,40299,0,0,0,0,0,39873,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40300,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,35429,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,37213,0,0,0,0,0,0,0,0,40301,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37210,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35906,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40128,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37226,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40302,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40614,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40397,0,0,40303,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35259,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,40697,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38580,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37234,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40648,0,0,0,34673,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,35669,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40305,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40306,0,0,0,0,0,0,0,0,0,0,0,0,40652,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37236,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40656,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36956,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,36562,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37288,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37239,0,0,0,0,0,0,0,0,0,0,0,38591,0,0,0,0,0,38592,0,0,0,0,36785,0,0,0,0,0,38583,0],[0,0,0,0,0,0,0,35925,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37240,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35262,37244,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64375,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37237,37283,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37238,0,0,0,0,0,0,0,0,38590,36169,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37241,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38582,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37284,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37286,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40309,0,0,0,0,0,0,0,0,0,0,0,36946,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,41029,0,37289,0,39082,0,0,0,35935,0,0,35754,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40157,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40311],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34646,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35136,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40684,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37802,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,38008,0,0,0,0,40314,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,35529,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35659,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,40940,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35554,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40565,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34780],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39028,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39624,0,0,0,0],[41031,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35779,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64584,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64631,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,40018,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36605,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36776,0,0,0,0,0,0,0,0,0,38266,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36848,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
];
pub static SJIS_DEC: [u32; 11104] = [
    12288,12289,12290,65292,65294,12539,65306,65307,65311,65281,12443,12444,180,65344,168,65342,
    65507,65343,12541,12542,12445,12446,12291,20189,12293,12294,12295,12540,8213,8208,65295,65340,
    65374,8741,65372,8230,8229,8216,8217,8220,8221,65288,65289,12308,12309,65339,65341,65371,
    65373,12296,12297,12298,12299,12300,12301,12302,12303,12304,12305,65291,65293,177,215,247,
    65309,8800,65308,65310,8806,8807,8734,8756,9794,9792,176,8242,8243,8451,65509,65284,
    65504,65505,65285,65283,65286,65290,65312,167,9734,9733,9675,9679,9678,9671,9670,9633,
    9632,9651,9650,9661,9660,8251,12306,8594,8592,8593,8595,12307,0,0,0,0,
    0,0,0,0,0,0,0,8712,8715,8838,8839,8834,8835,8746,8745,0,
    0,0,0,0,0,0,0,8743,8744,65506,8658,8660,8704,8707,0,0,
    0,0,0,0,0,0,0,0,0,8736,8869,8978,8706,8711,8801,8786,
    8810,8811,8730,8765,8733,8757,8747,8748,0,0,0,0,0,0,0,8491,
    8240,9839,9837,9834,8224,8225,182,0,0,0,0,9711,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,65296,65297,65298,65299,65300,
    65301,65302,65303,65304,65305,0,0,0,0,0,0,0,65313,65314,65315,65316,
    65317,65318,65319,65320,65321,65322,65323,65324,65325,65326,65327,65328,65329,65330,65331,65332,
    65333,65334,65335,65336,65337,65338,0,0,0,0,0,0,65345,65346,65347,65348,
    65349,65350,65351,65352,65353,65354,65355,65356,65357,65358,65359,65360,65361,65362,65363,65364,
    65365,65366,65367,65368,65369,65370,0,0,0,0,12353,12354,12355,12356,12357,12358,
    12359,12360,12361,12362,12363,12364,12365,12366,12367,12368,12369,12370,12371,12372,12373,12374,
    12375,12376,12377,12378,12379,12380,12381,12382,12383,12384,12385,12386,12387,12388,12389,12390,
    12391,12392,12393,12394,12395,12396,12397,12398,12399,12400,12401,12402,12403,12404,12405,12406,
    12407,12408,12409,12410,12411,12412,12413,12414,12415,12416,12417,12418,12419,12420,12421,12422,
    12423,12424,12425,12426,12427,12428,12429,12430,12431,12432,12433,12434,12435,0,0,0,
    0,0,0,0,0,0,0,0,12449,12450,12451,12452,12453,12454,12455,12456,
    12457,12458,12459,12460,12461,12462,12463,12464,12465,12466,12467,12468,12469,12470,12471,12472,
    12473,12474,12475,12476,12477,12478,12479,12480,12481,12482,12483,12484,12485,12486,12487,12488,
    12489,12490,12491,12492,12493,12494,12495,12496,12497,12498,12499,12500,12501,12502,12503,12504,
    12505,12506,12507,12508,12509,12510,12511,12512,12513,12514,12515,12516,12517,12518,12519,12520,
    12521,12522,12523,12524,12525,12526,12527,12528,12529,12530,12531,12532,12533,12534,0,0,
    0,0,0,0,0,0,913,914,915,916,917,918,919,920,921,922,
    923,924,925,926,927,928,929,931,932,933,934,935,936,937,0,0,
    0,0,0,0,0,0,945,946,947,948,949,950,951,952,953,954,
    955,956,957,958,959,960,961,963,964,965,966,967,968,969,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,1040,1041,1042,1043,1044,1045,1025,1046,1047,1048,1049,1050,
    1051,1052,1053,1054,1055,1056,1057,1058,1059,1060,1061,1062,1063,1064,1065,1066,
    1067,1068,1069,1070,1071,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,1072,1073,1074,1075,1076,1077,1105,1078,1079,1080,1081,1082,
    1083,1084,1085,1086,1087,1088,1089,1090,1091,1092,1093,1094,1095,1096,1097,1098,
    1099,1100,1101,1102,1103,0,0,0,0,0,0,0,0,0,0,0,
    0,0,9472,9474,9484,9488,9496,9492,9500,9516,9508,9524,9532,9473,9475,9487,
    9491,9499,9495,9507,9523,9515,9531,9547,9504,9519,9512,9527,9535,9501,9520,9509,
    9528,9538,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,9312,9313,9314,9315,9316,9317,9318,9319,
    9320,9321,9322,9323,9324,9325,9326,9327,9328,9329,9330,9331,8544,8545,8546,8547,
    8548,8549,8550,8551,8552,8553,0,13129,13076,13090,13133,13080,13095,13059,13110,13137,
    13143,13069,13094,13091,13099,13130,13115,13212,13213,13214,13198,13199,13252,13217,0,0,
    0,0,0,0,0,0,13179,12317,12319,8470,13261,8481,12964,12965,12966,12967,
    12968,12849,12850,12857,13182,13181,13180,8786,8801,8747,8750,8721,8730,8869,8736,8735,
    8895,8757,8745,8746,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,20124,21782,23043,38463,21696,24859,25384,23030,36898,33909,33564,31312,24746,25569,
    28197,26093,33894,33446,39925,26771,22311,26017,25201,23451,22992,34427,39156,32098,32190,39822,
    25110,31903,34999,23433,24245,25353,26263,26696,38343,38797,26447,20197,20234,20301,20381,20553,
    22258,22839,22996,23041,23561,24799,24847,24944,26131,26885,28858,30031,30064,31227,32173,32239,
    32963,33806,34915,35586,36949,36986,21307,20117,20133,22495,32946,37057,30959,19968,22769,28322,
    36920,31282,33576,33419,39983,20801,21360,21693,21729,22240,23035,24341,39154,28139,32996,34093,
    38498,38512,38560,38907,21515,21491,23431,28879,32701,36802,38632,21359,40284,31418,19985,30867,
    33276,28198,22040,21764,27421,34074,39995,23013,21417,28006,29916,38287,22082,20113,36939,38642,
    33615,39180,21473,21942,23344,24433,26144,26355,26628,27704,27891,27945,29787,30408,31310,38964,
    33521,34907,35424,37613,28082,30123,30410,39365,24742,35585,36234,38322,27022,21421,20870,22290,
    22576,22852,23476,24310,24616,25513,25588,27839,28436,28814,28948,29017,29141,29503,32257,33398,
    33489,34199,36960,37467,40219,22633,26044,27738,29989,20985,22830,22885,24448,24540,25276,26106,
    27178,27431,27572,29579,32705,35158,40236,40206,40644,23713,27798,33659,20740,23627,25014,33222,
    26742,29281,20057,20474,21368,24681,28201,31311,38899,19979,21270,20206,20309,20285,20385,20339,
    21152,21487,22025,22799,23233,23478,23521,31185,26247,26524,26550,27468,27827,28779,29634,31117,
    31166,31292,31623,33457,33499,33540,33655,33775,33747,34662,35506,22057,36008,36838,36942,38686,
    34442,20420,23784,25105,29273,30011,33253,33469,34558,36032,38597,39187,39381,20171,20250,35299,
    22238,22602,22730,24315,24555,24618,24724,24674,25040,25106,25296,25913,39745,26214,26800,28023,
    28784,30028,30342,32117,33445,34809,38283,38542,35997,20977,21182,22806,21683,23475,23830,24936,
    27010,28079,30861,33995,34903,35442,37799,39608,28012,39336,34521,22435,26623,34510,37390,21123,
    22151,21508,24275,25313,25785,26684,26680,27579,29554,30906,31339,35226,35282,36203,36611,37101,
    38307,38548,38761,23398,23731,27005,38989,38990,25499,31520,27179,27263,26806,39949,28511,21106,
    21917,24688,25324,27963,28167,28369,33883,35088,36676,19988,39993,21494,26907,27194,38788,26666,
    20828,31427,33970,37340,37772,22107,40232,26658,33541,33841,31909,21000,33477,29926,20094,20355,
    20896,23506,21002,21208,21223,24059,21914,22570,23014,23436,23448,23515,24178,24185,24739,24863,
    24931,25022,25563,25954,26577,26707,26874,27454,27475,27735,28450,28567,28485,29872,29976,30435,
    30475,31487,31649,31777,32233,32566,32752,32925,33382,33694,35251,35532,36011,36996,37969,38291,
    38289,38306,38501,38867,39208,33304,20024,21547,23736,24012,29609,30284,30524,23721,32747,36107,
    38593,38929,38996,39000,20225,20238,21361,21916,22120,22522,22855,23305,23492,23696,24076,24190,
    24524,25582,26426,26071,26082,26399,26827,26820,27231,24112,27589,27671,27773,30079,31048,23395,
    31232,32000,24509,35215,35352,36020,36215,36556,36637,39138,39438,39740,20096,20605,20736,22931,
    23452,25135,25216,25836,27450,29344,30097,31047,32681,34811,35516,35696,25516,33738,38816,21513,
    21507,21931,26708,27224,35440,30759,26485,40653,21364,23458,33050,34384,36870,19992,20037,20167,
    20241,21450,21560,23470,24339,24613,25937,26429,27714,27762,27875,28792,29699,31350,31406,31496,
    32026,31998,32102,26087,29275,21435,23621,24040,25298,25312,25369,28192,34394,35377,36317,37624,
    28417,31142,39770,20136,20139,20140,20379,20384,20689,20807,31478,20849,20982,21332,21281,21375,
    21483,21932,22659,23777,24375,24394,24623,24656,24685,25375,25945,27211,27841,29378,29421,30703,
    33016,33029,33288,34126,37111,37857,38911,39255,39514,20208,20957,23597,26241,26989,23616,26354,
    26997,29577,26704,31873,20677,21220,22343,24062,37670,26020,27427,27453,29748,31105,31165,31563,
    32202,33465,33740,34943,35167,35641,36817,37329,21535,37504,20061,20534,21477,21306,29399,29590,
    30697,33510,36527,39366,39368,39378,20855,24858,34398,21936,31354,20598,23507,36935,38533,20018,
    27355,37351,23633,23624,25496,31391,27795,38772,36705,31402,29066,38536,31874,26647,32368,26705,
    37740,21234,21531,34219,35347,32676,36557,37089,21350,34952,31041,20418,20670,21009,20804,21843,
    22317,29674,22411,22865,24418,24452,24693,24950,24935,25001,25522,25658,25964,26223,26690,28179,
    30054,31293,31995,32076,32153,32331,32619,33550,33610,34509,35336,35427,35686,36605,38938,40335,
    33464,36814,39912,21127,25119,25731,28608,38553,26689,20625,27424,27770,28500,31348,32080,34880,
    35363,26376,20214,20537,20518,20581,20860,21048,21091,21927,22287,22533,23244,24314,25010,25080,
    25331,25458,26908,27177,29309,29356,29486,30740,30831,32121,30476,32937,35211,35609,36066,36562,
    36963,37749,38522,38997,39443,40568,20803,21407,21427,24187,24358,28187,28304,29572,29694,32067,
    33335,35328,35578,38480,20046,20491,21476,21628,22266,22993,23396,24049,24235,24359,25144,25925,
    26543,28246,29392,31946,34996,32929,32993,33776,34382,35463,36328,37431,38599,39015,40723,20116,
    20114,20237,21320,21577,21566,23087,24460,24481,24735,26791,27278,29786,30849,35486,35492,35703,
    37264,20062,39881,20132,20348,20399,20505,20502,20809,20844,21151,21177,21246,21402,21475,21521,
    21518,21897,22353,22434,22909,23380,23389,23439,24037,24039,24055,24184,24195,24218,24247,24344,
    24658,24908,25239,25304,25511,25915,26114,26179,26356,26477,26657,26775,27083,27743,27946,28009,
    28207,28317,30002,30343,30828,31295,31968,32005,32024,32094,32177,32789,32771,32943,32945,33108,
    33167,33322,33618,34892,34913,35611,36002,36092,37066,37237,37489,30783,37628,38308,38477,38917,
    39321,39640,40251,21083,21163,21495,21512,22741,25335,28640,35946,36703,40633,20811,21051,21578,
    22269,31296,37239,40288,40658,29508,28425,33136,29969,24573,24794,39592,29403,36796,27492,38915,
    20170,22256,22372,22718,23130,24680,25031,26127,26118,26681,26801,28151,30165,32058,33390,39746,
    20123,20304,21449,21766,23919,24038,24046,26619,27801,29811,30722,35408,37782,35039,22352,24231,
    25387,20661,20652,20877,26368,21705,22622,22971,23472,24425,25165,25505,26685,27507,28168,28797,
    37319,29312,30741,30758,31085,25998,32048,33756,35009,36617,38555,21092,22312,26448,32618,36001,
    20916,22338,38442,22586,27018,32948,21682,23822,22524,30869,40442,20316,21066,21643,25662,26152,
    26388,26613,31364,31574,32034,37679,26716,39853,31545,21273,20874,21047,23519,25334,25774,25830,
    26413,27578,34217,38609,30352,39894,25420,37638,39851,30399,26194,19977,20632,21442,23665,24808,
    25746,25955,26719,29158,29642,29987,31639,32386,34453,35715,36059,37240,39184,26028,26283,27531,
    20181,20180,20282,20351,21050,21496,21490,21987,22235,22763,22987,22985,23039,23376,23629,24066,
    24107,24535,24605,25351,25903,23388,26031,26045,26088,26525,27490,27515,27663,29509,31049,31169,
    31992,32025,32043,32930,33026,33267,35222,35422,35433,35430,35468,35566,36039,36060,38604,39164,
    27503,20107,20284,20365,20816,23383,23546,24904,25345,26178,27425,28363,27835,29246,29885,30164,
    30913,31034,32780,32819,33258,33940,36766,27728,40575,24335,35672,40235,31482,36600,23437,38635,
    19971,21489,22519,22833,23241,23460,24713,28287,28422,30142,36074,23455,34048,31712,20594,26612,
    33437,23649,34122,32286,33294,20889,23556,25448,36198,26012,29038,31038,32023,32773,35613,36554,
    36974,34503,37034,20511,21242,23610,26451,28796,29237,37196,37320,37675,33509,23490,24369,24825,
    20027,21462,23432,25163,26417,27530,29417,29664,31278,33131,36259,37202,39318,20754,21463,21610,
    23551,25480,27193,32172,38656,22234,21454,21608,23447,23601,24030,20462,24833,25342,27954,31168,
    31179,32066,32333,32722,33261,33311,33936,34886,35186,35728,36468,36655,36913,37195,37228,38598,
    37276,20160,20303,20805,21313,24467,25102,26580,27713,28171,29539,32294,37325,37507,21460,22809,
    23487,28113,31069,32302,31899,22654,29087,20986,34899,36848,20426,23803,26149,30636,31459,33308,
    39423,20934,24490,26092,26991,27529,28147,28310,28516,30462,32020,24033,36981,37255,38918,20966,
    21021,25152,26257,26329,28186,24246,32210,32626,26360,34223,34295,35576,21161,21465,22899,24207,
    24464,24661,37604,38500,20663,20767,21213,21280,21319,21484,21736,21830,21809,22039,22888,22974,
    23100,23477,23558,23567,23569,23578,24196,24202,24288,24432,25215,25220,25307,25484,25463,26119,
    26124,26157,26230,26494,26786,27167,27189,27836,28040,28169,28248,28988,28966,29031,30151,30465,
    30813,30977,31077,31216,31456,31505,31911,32057,32918,33750,33931,34121,34909,35059,35359,35388,
    35412,35443,35937,36062,37284,37478,37758,37912,38556,38808,19978,19976,19998,20055,20887,21104,
    22478,22580,22732,23330,24120,24773,25854,26465,26454,27972,29366,30067,31331,33976,35698,37304,
    37664,22065,22516,39166,25325,26893,27542,29165,32340,32887,33394,35302,39135,34645,36785,23611,
    20280,20449,20405,21767,23072,23517,23529,24515,24910,25391,26032,26187,26862,27035,28024,28145,
    30003,30137,30495,31070,31206,32051,33251,33455,34218,35242,35386,36523,36763,36914,37341,38663,
    20154,20161,20995,22645,22764,23563,29978,23613,33102,35338,36805,38499,38765,31525,35535,38920,
    37218,22259,21416,36887,21561,22402,24101,25512,27700,28810,30561,31883,32736,34928,36930,37204,
    37648,37656,38543,29790,39620,23815,23913,25968,26530,36264,38619,25454,26441,26905,33733,38935,
    38592,35070,28548,25722,23544,19990,28716,30045,26159,20932,21046,21218,22995,24449,24615,25104,
    25919,25972,26143,26228,26866,26646,27491,28165,29298,29983,30427,31934,32854,22768,35069,35199,
    35488,35475,35531,36893,37266,38738,38745,25993,31246,33030,38587,24109,24796,25114,26021,26132,
    26512,30707,31309,31821,32318,33034,36012,36196,36321,36447,30889,20999,25305,25509,25666,25240,
    35373,31363,31680,35500,38634,32118,33292,34633,20185,20808,21315,21344,23459,23554,23574,24029,
    25126,25159,25776,26643,26676,27849,27973,27927,26579,28508,29006,29053,26059,31359,31661,32218,
    32330,32680,33146,33307,33337,34214,35438,36046,36341,36984,36983,37549,37521,38275,39854,21069,
    21892,28472,28982,20840,31109,32341,33203,31950,22092,22609,23720,25514,26366,26365,26970,29401,
    30095,30094,30990,31062,31199,31895,32032,32068,34311,35380,38459,36961,40736,20711,21109,21452,
    21474,20489,21930,22766,22863,29245,23435,23652,21277,24803,24819,25436,25475,25407,25531,25805,
    26089,26361,24035,27085,27133,28437,29157,20105,30185,30456,31379,31967,32207,32156,32865,33609,
    33624,33900,33980,34299,35013,36208,36865,36973,37783,38684,39442,20687,22679,24974,33235,34101,
    36104,36896,20419,20596,21063,21363,24687,25417,26463,28204,36275,36895,20439,23646,36042,26063,
    32154,21330,34966,20854,25539,23384,23403,23562,25613,26449,36956,20182,22810,22826,27760,35409,
    21822,22549,22949,24816,25171,26561,33333,26965,38464,39364,39464,20307,22534,23550,32784,23729,
    24111,24453,24608,24907,25140,26367,27888,28382,32974,33151,33492,34955,36024,36864,36910,38538,
    40667,39899,20195,21488,22823,31532,37261,38988,40441,28381,28711,21331,21828,23429,25176,25246,
    25299,27810,28655,29730,35351,37944,28609,35582,33592,20967,34552,21482,21481,20294,36948,36784,
    22890,33073,24061,31466,36799,26842,35895,29432,40008,27197,35504,20025,21336,22022,22374,25285,
    25506,26086,27470,28129,28251,28845,30701,31471,31658,32187,32829,32966,34507,35477,37723,22243,
    22727,24382,26029,26262,27264,27573,30007,35527,20516,30693,22320,24347,24677,26234,27744,30196,
    31258,32622,33268,34584,36933,39347,31689,30044,31481,31569,33988,36880,31209,31378,33590,23265,
    30528,20013,20210,23449,24544,25277,26172,26609,27880,34411,34935,35387,37198,37619,39376,27159,
    28710,29482,33511,33879,36015,19969,20806,20939,21899,23541,24086,24115,24193,24340,24373,24427,
    24500,25074,25361,26274,26397,28526,29266,30010,30522,32884,33081,33144,34678,35519,35548,36229,
    36339,37530,38263,38914,40165,21189,25431,30452,26389,27784,29645,36035,37806,38515,27941,22684,
    26894,27084,36861,37786,30171,36890,22618,26626,25524,27131,20291,28460,26584,36795,34086,32180,
    37716,26943,28528,22378,22775,23340,32044,29226,21514,37347,40372,20141,20302,20572,20597,21059,
    35998,21576,22564,23450,24093,24213,24237,24311,24351,24716,25269,25402,25552,26799,27712,30855,
    31118,31243,32224,33351,35330,35558,36420,36883,37048,37165,37336,40718,27877,25688,25826,25973,
    28404,30340,31515,36969,37841,28346,21746,24505,25764,36685,36845,37444,20856,22635,22825,23637,
    24215,28155,32399,29980,36028,36578,39003,28857,20253,27583,28593,30000,38651,20814,21520,22581,
    22615,22956,23648,24466,26007,26460,28193,30331,33759,36077,36884,37117,37709,30757,30778,21162,
    24230,22303,22900,24594,20498,20826,20908,20941,20992,21776,22612,22616,22871,23445,23798,23947,
    24764,25237,25645,26481,26691,26812,26847,30423,28120,28271,28059,28783,29128,24403,30168,31095,
    31561,31572,31570,31958,32113,21040,33891,34153,34276,35342,35588,35910,36367,36867,36879,37913,
    38518,38957,39472,38360,20685,21205,21516,22530,23566,24999,25758,27934,30643,31461,33012,33796,
    36947,37509,23776,40199,21311,24471,24499,28060,29305,30563,31167,31716,27602,29420,35501,26627,
    27233,20984,31361,26932,23626,40182,33515,23493,37193,28702,22136,23663,24775,25958,27788,35930,
    36929,38931,21585,26311,37389,22856,37027,20869,20045,20970,34201,35598,28760,25466,37707,26978,
    39348,32260,30071,21335,26976,36575,38627,27741,20108,23612,24336,36841,21250,36049,32905,34425,
    24319,26085,20083,20837,22914,23615,38894,20219,22922,24525,35469,28641,31152,31074,23527,33905,
    29483,29105,24180,24565,25467,25754,29123,31896,20035,24316,20043,22492,22178,24745,28611,32013,
    33021,33075,33215,36786,35223,34468,24052,25226,25773,35207,26487,27874,27966,29750,30772,23110,
    32629,33453,39340,20467,24259,25309,25490,25943,26479,30403,29260,32972,32954,36649,37197,20493,
    22521,23186,26757,26995,29028,29437,36023,22770,36064,38506,36889,34687,31204,30695,33833,20271,
    21093,21338,25293,26575,27850,30333,31636,31893,33334,34180,36843,26333,28448,29190,32283,33707,
    39361,40614,20989,31665,30834,31672,32903,31560,27368,24161,32908,30033,30048,20843,37474,28300,
    30330,37271,39658,20240,32624,25244,31567,38309,40169,22138,22617,34532,38588,20276,21028,21322,
    21453,21467,24070,25644,26001,26495,27710,27726,29256,29359,29677,30036,32321,33324,34281,36009,
    31684,37318,29033,38930,39151,25405,26217,30058,30436,30928,34115,34542,21290,21329,21542,22915,
    24199,24444,24754,25161,25209,25259,26000,27604,27852,30130,30382,30865,31192,32203,32631,32933,
    34987,35513,36027,36991,38750,39131,27147,31800,20633,23614,24494,26503,27608,29749,30473,32654,
    40763,26570,31255,21305,30091,39661,24422,33181,33777,32920,24380,24517,30050,31558,36924,26727,
    23019,23195,32016,30334,35628,20469,24426,27161,27703,28418,29922,31080,34920,35413,35961,24287,
    25551,30149,31186,33495,37672,37618,33948,34541,39981,21697,24428,25996,27996,28693,36007,36051,
    38971,25935,29942,19981,20184,22496,22827,23142,23500,20904,24067,24220,24598,25206,25975,26023,
    26222,28014,29238,31526,33104,33178,33433,35676,36000,36070,36212,38428,38468,20398,25771,27494,
    33310,33889,34154,37096,23553,26963,39080,33914,34135,20239,21103,24489,24133,26381,31119,33145,
    35079,35206,28149,24343,25173,27832,20175,29289,39826,20998,21563,22132,22707,24996,25198,28954,
    22894,31881,31966,32027,38640,25991,32862,19993,20341,20853,22592,24163,24179,24330,26564,20006,
    34109,38281,38491,31859,38913,20731,22721,30294,30887,21029,30629,34065,31622,20559,22793,29255,
    31687,32232,36794,36820,36941,20415,21193,23081,24321,38829,20445,33303,37610,22275,25429,27497,
    29995,35036,36628,31298,21215,22675,24917,25098,26286,27597,31807,33769,20515,20472,21253,21574,
    22577,22857,23453,23792,23791,23849,24214,25265,25447,25918,26041,26379,27861,27873,28921,30770,
    32299,32990,33459,33804,34028,34562,35090,35370,35914,37030,37586,39165,40179,40300,20047,20129,
    20621,21078,22346,22952,24125,24536,24537,25151,26292,26395,26576,26834,20882,32033,32938,33192,
    35584,35980,36031,37502,38450,21536,38956,21271,20693,21340,22696,25778,26420,29287,30566,31302,
    37350,21187,27809,27526,22528,24140,22868,26412,32763,20961,30406,25705,30952,39764,40635,22475,
    22969,26151,26522,27598,21737,27097,24149,33180,26517,39850,26622,40018,26717,20134,20451,21448,
    25273,26411,27819,36804,20397,32365,40639,19975,24930,28288,28459,34067,21619,26410,39749,24051,
    31637,23724,23494,34588,28234,34001,31252,33032,22937,31885,27665,30496,21209,22818,28961,29279,
    30683,38695,40289,26891,23167,23064,20901,21517,21629,26126,30431,36855,37528,40180,23018,29277,
    28357,20813,26825,32191,32236,38754,40634,25720,27169,33538,22916,23391,27611,29467,30450,32178,
    32791,33945,20786,26408,40665,30446,26466,21247,39173,23588,25147,31870,36016,21839,24758,32011,
    38272,21249,20063,20918,22812,29242,32822,37326,24357,30690,21380,24441,32004,34220,35379,36493,
    38742,26611,34222,37971,24841,24840,27833,30290,35565,36664,21807,20305,20778,21191,21451,23461,
    24189,24736,24962,25558,26377,26586,28263,28044,29494,29495,30001,31056,35029,35480,36938,37009,
    37109,38596,34701,22805,20104,20313,19982,35465,36671,38928,20653,24188,22934,23481,24248,25562,
    25594,25793,26332,26954,27096,27915,28342,29076,29992,31407,32650,32768,33865,33993,35201,35617,
    36362,36965,38525,39178,24958,25233,27442,27779,28020,32716,32764,28096,32645,34746,35064,26469,
    33713,38972,38647,27931,32097,33853,37226,20081,21365,23888,27396,28651,34253,34349,35239,21033,
    21519,23653,26446,26792,29702,29827,30178,35023,35041,37324,38626,38520,24459,29575,31435,33870,
    25504,30053,21129,27969,28316,29705,30041,30827,31890,38534,31452,40845,20406,24942,26053,34396,
    20102,20142,20698,20001,20940,23534,26009,26753,28092,29471,30274,30637,31260,31975,33391,35538,
    36988,37327,38517,38936,21147,32209,20523,21400,26519,28107,29136,29747,33256,36650,38563,40023,
    40607,29792,22593,28057,32047,39006,20196,20278,20363,20919,21169,23994,24604,29618,31036,33491,
    37428,38583,38646,38666,40599,40802,26278,27508,21015,21155,28872,35010,24265,24651,24976,28451,
    29001,31806,32244,32879,34030,36899,37676,21570,39791,27347,28809,36034,36335,38706,21172,23105,
    24266,24324,26391,27004,27028,28010,28431,29282,29436,31725,32769,32894,34635,37070,20845,40595,
    31108,32907,37682,35542,20525,21644,35441,27498,36036,33031,24785,26528,40434,20121,20120,39952,
    35435,34241,34152,26880,28286,30871,33109,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,24332,19984,19989,20010,20017,20022,20028,20031,20034,20054,20056,20098,20101,35947,
    20106,33298,24333,20110,20126,20127,20128,20130,20144,20147,20150,20174,20173,20164,20166,20162,
    20183,20190,20205,20191,20215,20233,20314,20272,20315,20317,20311,20295,20342,20360,20367,20376,
    20347,20329,20336,20369,20335,20358,20374,20760,20436,20447,20430,20440,20443,20433,20442,20432,
    20452,20453,20506,20520,20500,20522,20517,20485,20252,20470,20513,20521,20524,20478,20463,20497,
    20486,20547,20551,26371,20565,20560,20552,20570,20566,20588,20600,20608,20634,20613,20660,20658,
    20681,20682,20659,20674,20694,20702,20709,20717,20707,20718,20729,20725,20745,20737,20738,20758,
    20757,20756,20762,20769,20794,20791,20796,20795,20799,20800,20818,20812,20820,20834,31480,20841,
    20842,20846,20864,20866,22232,20876,20873,20879,20881,20883,20885,20886,20900,20902,20898,20905,
    20906,20907,20915,20913,20914,20912,20917,20925,20933,20937,20955,20960,34389,20969,20973,20976,
    20981,20990,20996,21003,21012,21006,21031,21034,21038,21043,21049,21071,21060,21067,21068,21086,
    21076,21098,21108,21097,21107,21119,21117,21133,21140,21138,21105,21128,21137,36776,36775,21164,
    21165,21180,21173,21185,21197,21207,21214,21219,21222,39149,21216,21235,21237,21240,21241,21254,
    21256,30008,21261,21264,21263,21269,21274,21283,21295,21297,21299,21304,21312,21318,21317,19991,
    21321,21325,20950,21342,21353,21358,22808,21371,21367,21378,21398,21408,21414,21413,21422,21424,
    21430,21443,31762,38617,21471,26364,29166,21486,21480,21485,21498,21505,21565,21568,21548,21549,
    21564,21550,21558,21545,21533,21582,21647,21621,21646,21599,21617,21623,21616,21650,21627,21632,
    21622,21636,21648,21638,21703,21666,21688,21669,21676,21700,21704,21672,21675,21698,21668,21694,
    21692,21720,21733,21734,21775,21780,21757,21742,21741,21754,21730,21817,21824,21859,21836,21806,
    21852,21829,21846,21847,21816,21811,21853,21913,21888,21679,21898,21919,21883,21886,21912,21918,
    21934,21884,21891,21929,21895,21928,21978,21957,21983,21956,21980,21988,21972,22036,22007,22038,
    22014,22013,22043,22009,22094,22096,29151,22068,22070,22066,22072,22123,22116,22063,22124,22122,
    22150,22144,22154,22176,22164,22159,22181,22190,22198,22196,22210,22204,22209,22211,22208,22216,
    22222,22225,22227,22231,22254,22265,22272,22271,22276,22281,22280,22283,22285,22291,22296,22294,
    21959,22300,22310,22327,22328,22350,22331,22336,22351,22377,22464,22408,22369,22399,22409,22419,
    22432,22451,22436,22442,22448,22467,22470,22484,22482,22483,22538,22486,22499,22539,22553,22557,
    22642,22561,22626,22603,22640,27584,22610,22589,22649,22661,22713,22687,22699,22714,22750,22715,
    22712,22702,22725,22739,22737,22743,22745,22744,22757,22748,22756,22751,22767,22778,22777,22779,
    22780,22781,22786,22794,22800,22811,26790,22821,22828,22829,22834,22840,22846,31442,22869,22864,
    22862,22874,22872,22882,22880,22887,22892,22889,22904,22913,22941,20318,20395,22947,22962,22982,
    23016,23004,22925,23001,23002,23077,23071,23057,23068,23049,23066,23104,23148,23113,23093,23094,
    23138,23146,23194,23228,23230,23243,23234,23229,23267,23255,23270,23273,23254,23290,23291,23308,
    23307,23318,23346,23248,23338,23350,23358,23363,23365,23360,23377,23381,23386,23387,23397,23401,
    23408,23411,23413,23416,25992,23418,23424,23427,23462,23480,23491,23495,23497,23508,23504,23524,
    23526,23522,23518,23525,23531,23536,23542,23539,23557,23559,23560,23565,23571,23584,23586,23592,
    23608,23609,23617,23622,23630,23635,23632,23631,23409,23660,23662,20066,23670,23673,23692,23697,
    23700,22939,23723,23739,23734,23740,23735,23749,23742,23751,23769,23785,23805,23802,23789,23948,
    23786,23819,23829,23831,23900,23839,23835,23825,23828,23842,23834,23833,23832,23884,23890,23886,
    23883,23916,23923,23926,23943,23940,23938,23970,23965,23980,23982,23997,23952,23991,23996,24009,
    24013,24019,24018,24022,24027,24043,24050,24053,24075,24090,24089,24081,24091,24118,24119,24132,
    24131,24128,24142,24151,24148,24159,24162,24164,24135,24181,24182,24186,40636,24191,24224,24257,
    24258,24264,24272,24271,24278,24291,24285,24282,24283,24290,24289,24296,24297,24300,24305,24307,
    24304,24308,24312,24318,24323,24329,24413,24412,24331,24337,24342,24361,24365,24376,24385,24392,
    24396,24398,24367,24401,24406,24407,24409,24417,24429,24435,24439,24451,24450,24447,24458,24456,
    24465,24455,24478,24473,24472,24480,24488,24493,24508,24534,24571,24548,24568,24561,24541,24755,
    24575,24609,24672,24601,24592,24617,24590,24625,24603,24597,24619,24614,24591,24634,24666,24641,
    24682,24695,24671,24650,24646,24653,24675,24643,24676,24642,24684,24683,24665,24705,24717,24807,
    24707,24730,24708,24731,24726,24727,24722,24743,24715,24801,24760,24800,24787,24756,24560,24765,
    24774,24757,24792,24909,24853,24838,24822,24823,24832,24820,24826,24835,24865,24827,24817,24845,
    24846,24903,24894,24872,24871,24906,24895,24892,24876,24884,24893,24898,24900,24947,24951,24920,
    24921,24922,24939,24948,24943,24933,24945,24927,24925,24915,24949,24985,24982,24967,25004,24980,
    24986,24970,24977,25003,25006,25036,25034,25033,25079,25032,25027,25030,25018,25035,32633,25037,
    25062,25059,25078,25082,25076,25087,25085,25084,25086,25088,25096,25097,25101,25100,25108,25115,
    25118,25121,25130,25134,25136,25138,25139,25153,25166,25182,25187,25179,25184,25192,25212,25218,
    25225,25214,25234,25235,25238,25300,25219,25236,25303,25297,25275,25295,25343,25286,25812,25288,
    25308,25292,25290,25282,25287,25243,25289,25356,25326,25329,25383,25346,25352,25327,25333,25424,
    25406,25421,25628,25423,25494,25486,25472,25515,25462,25507,25487,25481,25503,25525,25451,25449,
    25534,25577,25536,25542,25571,25545,25554,25590,25540,25622,25652,25606,25619,25638,25654,25885,
    25623,25640,25615,25703,25711,25718,25678,25898,25749,25747,25765,25769,25736,25788,25818,25810,
    25797,25799,25787,25816,25794,25841,25831,33289,25824,25825,25260,25827,25839,25900,25846,25844,
    25842,25850,25856,25853,25880,25884,25861,25892,25891,25899,25908,25909,25911,25910,25912,30027,
    25928,25942,25941,25933,25944,25950,25949,25970,25976,25986,25987,35722,26011,26015,26027,26039,
    26051,26054,26049,26052,26060,26066,26075,26073,26080,26081,26097,26482,26122,26115,26107,26483,
    26165,26166,26164,26140,26191,26180,26185,26177,26206,26205,26212,26215,26216,26207,26210,26224,
    26243,26248,26254,26249,26244,26264,26269,26305,26297,26313,26302,26300,26308,26296,26326,26330,
    26336,26175,26342,26345,26352,26357,26359,26383,26390,26398,26406,26407,38712,26414,26431,26422,
    26433,26424,26423,26438,26462,26464,26457,26467,26468,26505,26480,26537,26492,26474,26508,26507,
    26534,26529,26501,26551,26607,26548,26604,26547,26601,26552,26596,26590,26589,26594,26606,26553,
    26574,26566,26599,27292,26654,26694,26665,26688,26701,26674,26702,26803,26667,26713,26723,26743,
    26751,26783,26767,26797,26772,26781,26779,26755,27310,26809,26740,26805,26784,26810,26895,26765,
    26750,26881,26826,26888,26840,26914,26918,26849,26892,26829,26836,26855,26837,26934,26898,26884,
    26839,26851,26917,26873,26848,26863,26920,26922,26906,26915,26913,26822,27001,26999,26972,27000,
    26987,26964,27006,26990,26937,26996,26941,26969,26928,26977,26974,26973,27009,26986,27058,27054,
    27088,27071,27073,27091,27070,27086,23528,27082,27101,27067,27075,27047,27182,27025,27040,27036,
    27029,27060,27102,27112,27138,27163,27135,27402,27129,27122,27111,27141,27057,27166,27117,27156,
    27115,27146,27154,27329,27171,27155,27204,27148,27250,27190,27256,27207,27234,27225,27238,27208,
    27192,27170,27280,27277,27296,27268,27298,27299,27287,34327,27323,27331,27330,27320,27315,27308,
    27358,27345,27359,27306,27354,27370,27387,27397,34326,27386,27410,27414,39729,27423,27448,27447,
    30428,27449,39150,27463,27459,27465,27472,27481,27476,27483,27487,27489,27512,27513,27519,27520,
    27524,27523,27533,27544,27541,27550,27556,27562,27563,27567,27570,27569,27571,27575,27580,27590,
    27595,27603,27615,27628,27627,27635,27631,40638,27656,27667,27668,27675,27684,27683,27742,27733,
    27746,27754,27778,27789,27802,27777,27803,27774,27752,27763,27794,27792,27844,27889,27859,27837,
    27863,27845,27869,27822,27825,27838,27834,27867,27887,27865,27882,27935,34893,27958,27947,27965,
    27960,27929,27957,27955,27922,27916,28003,28051,28004,27994,28025,27993,28046,28053,28644,28037,
    28153,28181,28170,28085,28103,28134,28088,28102,28140,28126,28108,28136,28114,28101,28154,28121,
    28132,28117,28138,28142,28205,28270,28206,28185,28274,28255,28222,28195,28267,28203,28278,28237,
    28191,28227,28218,28238,28196,28415,28189,28216,28290,28330,28312,28361,28343,28371,28349,28335,
    28356,28338,28372,28373,28303,28325,28354,28319,28481,28433,28748,28396,28408,28414,28479,28402,
    28465,28399,28466,28364,28478,28435,28407,28550,28538,28536,28545,28544,28527,28507,28659,28525,
    28546,28540,28504,28558,28561,28610,28518,28595,28579,28577,28580,28601,28614,28586,28639,28629,
    28652,28628,28632,28657,28654,28635,28681,28683,28666,28689,28673,28687,28670,28699,28698,28532,
    28701,28696,28703,28720,28734,28722,28753,28771,28825,28818,28847,28913,28844,28856,28851,28846,
    28895,28875,28893,28889,28937,28925,28956,28953,29029,29013,29064,29030,29026,29004,29014,29036,
    29071,29179,29060,29077,29096,29100,29143,29113,29118,29138,29129,29140,29134,29152,29164,29159,
    29173,29180,29177,29183,29197,29200,29211,29224,29229,29228,29232,29234,29243,29244,29247,29248,
    29254,29259,29272,29300,29310,29314,29313,29319,29330,29334,29346,29351,29369,29362,29379,29382,
    29380,29390,29394,29410,29408,29409,29433,29431,20495,29463,29450,29468,29462,29469,29492,29487,
    29481,29477,29502,29518,29519,40664,29527,29546,29544,29552,29560,29557,29563,29562,29640,29619,
    29646,29627,29632,29669,29678,29662,29858,29701,29807,29733,29688,29746,29754,29781,29759,29791,
    29785,29761,29788,29801,29808,29795,29802,29814,29822,29835,29854,29863,29898,29903,29908,29681,
    29920,29923,29927,29929,29934,29938,29936,29937,29944,29943,29956,29955,29957,29964,29966,29965,
    29973,29971,29982,29990,29996,30012,30020,30029,30026,30025,30043,30022,30042,30057,30052,30055,
    30059,30061,30072,30070,30086,30087,30068,30090,30089,30082,30100,30106,30109,30117,30115,30146,
    30131,30147,30133,30141,30136,30140,30129,30157,30154,30162,30169,30179,30174,30206,30207,30204,
    30209,30192,30202,30194,30195,30219,30221,30217,30239,30247,30240,30241,30242,30244,30260,30256,
    30267,30279,30280,30278,30300,30296,30305,30306,30312,30313,30314,30311,30316,30320,30322,30326,
    30328,30332,30336,30339,30344,30347,30350,30358,30355,30361,30362,30384,30388,30392,30393,30394,
    30402,30413,30422,30418,30430,30433,30437,30439,30442,34351,30459,30472,30471,30468,30505,30500,
    30494,30501,30502,30491,30519,30520,30535,30554,30568,30571,30555,30565,30591,30590,30585,30606,
    30603,30609,30624,30622,30640,30646,30649,30655,30652,30653,30651,30663,30669,30679,30682,30684,
    30691,30702,30716,30732,30738,31014,30752,31018,30789,30862,30836,30854,30844,30874,30860,30883,
    30901,30890,30895,30929,30918,30923,30932,30910,30908,30917,30922,30956,30951,30938,30973,30964,
    30983,30994,30993,31001,31020,31019,31040,31072,31063,31071,31066,31061,31059,31098,31103,31114,
    31133,31143,40779,31146,31150,31155,31161,31162,31177,31189,31207,31212,31201,31203,31240,31245,
    31256,31257,31264,31263,31104,31281,31291,31294,31287,31299,31319,31305,31329,31330,31337,40861,
    31344,31353,31357,31368,31383,31381,31384,31382,31401,31432,31408,31414,31429,31428,31423,36995,
    31431,31434,31437,31439,31445,31443,31449,31450,31453,31457,31458,31462,31469,31472,31490,31503,
    31498,31494,31539,31512,31513,31518,31541,31528,31542,31568,31610,31492,31565,31499,31564,31557,
    31605,31589,31604,31591,31600,31601,31596,31598,31645,31640,31647,31629,31644,31642,31627,31634,
    31631,31581,31641,31691,31681,31692,31695,31668,31686,31709,31721,31761,31764,31718,31717,31840,
    31744,31751,31763,31731,31735,31767,31757,31734,31779,31783,31786,31775,31799,31787,31805,31820,
    31811,31828,31823,31808,31824,31832,31839,31844,31830,31845,31852,31861,31875,31888,31908,31917,
    31906,31915,31905,31912,31923,31922,31921,31918,31929,31933,31936,31941,31938,31960,31954,31964,
    31970,39739,31983,31986,31988,31990,31994,32006,32002,32028,32021,32010,32069,32075,32046,32050,
    32063,32053,32070,32115,32086,32078,32114,32104,32110,32079,32099,32147,32137,32091,32143,32125,
    32155,32186,32174,32163,32181,32199,32189,32171,32317,32162,32175,32220,32184,32159,32176,32216,
    32221,32228,32222,32251,32242,32225,32261,32266,32291,32289,32274,32305,32287,32265,32267,32290,
    32326,32358,32315,32309,32313,32323,32311,32306,32314,32359,32349,32342,32350,32345,32346,32377,
    32362,32361,32380,32379,32387,32213,32381,36782,32383,32392,32393,32396,32402,32400,32403,32404,
    32406,32398,32411,32412,32568,32570,32581,32588,32589,32590,32592,32593,32597,32596,32600,32607,
    32608,32616,32617,32615,32632,32642,32646,32643,32648,32647,32652,32660,32670,32669,32666,32675,
    32687,32690,32697,32686,32694,32696,35697,32709,32710,32714,32725,32724,32737,32742,32745,32755,
    32761,39132,32774,32772,32779,32786,32792,32793,32796,32801,32808,32831,32827,32842,32838,32850,
    32856,32858,32863,32866,32872,32883,32882,32880,32886,32889,32893,32895,32900,32902,32901,32923,
    32915,32922,32941,20880,32940,32987,32997,32985,32989,32964,32986,32982,33033,33007,33009,33051,
    33065,33059,33071,33099,38539,33094,33086,33107,33105,33020,33137,33134,33125,33126,33140,33155,
    33160,33162,33152,33154,33184,33173,33188,33187,33119,33171,33193,33200,33205,33214,33208,33213,
    33216,33218,33210,33225,33229,33233,33241,33240,33224,33242,33247,33248,33255,33274,33275,33278,
    33281,33282,33285,33287,33290,33293,33296,33302,33321,33323,33336,33331,33344,33369,33368,33373,
    33370,33375,33380,33378,33384,33386,33387,33326,33393,33399,33400,33406,33421,33426,33451,33439,
    33467,33452,33505,33507,33503,33490,33524,33523,33530,33683,33539,33531,33529,33502,33542,33500,
    33545,33497,33589,33588,33558,33586,33585,33600,33593,33616,33605,33583,33579,33559,33560,33669,
    33690,33706,33695,33698,33686,33571,33678,33671,33674,33660,33717,33651,33653,33696,33673,33704,
    33780,33811,33771,33742,33789,33795,33752,33803,33729,33783,33799,33760,33778,33805,33826,33824,
    33725,33848,34054,33787,33901,33834,33852,34138,33924,33911,33899,33965,33902,33922,33897,33862,
    33836,33903,33913,33845,33994,33890,33977,33983,33951,34009,33997,33979,34010,34000,33985,33990,
    34006,33953,34081,34047,34036,34071,34072,34092,34079,34069,34068,34044,34112,34147,34136,34120,
    34113,34306,34123,34133,34176,34212,34184,34193,34186,34216,34157,34196,34203,34282,34183,34204,
    34167,34174,34192,34249,34234,34255,34233,34256,34261,34269,34277,34268,34297,34314,34323,34315,
    34302,34298,34310,34338,34330,34352,34367,34381,20053,34388,34399,34407,34417,34451,34467,34473,
    34474,34443,34444,34486,34479,34500,34502,34480,34505,34851,34475,34516,34526,34537,34540,34527,
    34523,34543,34578,34566,34568,34560,34563,34555,34577,34569,34573,34553,34570,34612,34623,34615,
    34619,34597,34601,34586,34656,34655,34680,34636,34638,34676,34647,34664,34670,34649,34643,34659,
    34666,34821,34722,34719,34690,34735,34763,34749,34752,34768,38614,34731,34756,34739,34759,34758,
    34747,34799,34802,34784,34831,34829,34814,34806,34807,34830,34770,34833,34838,34837,34850,34849,
    34865,34870,34873,34855,34875,34884,34882,34898,34905,34910,34914,34923,34945,34942,34974,34933,
    34941,34997,34930,34946,34967,34962,34990,34969,34978,34957,34980,34992,35007,34993,35011,35012,
    35028,35032,35033,35037,35065,35074,35068,35060,35048,35058,35076,35084,35082,35091,35139,35102,
    35109,35114,35115,35137,35140,35131,35126,35128,35148,35101,35168,35166,35174,35172,35181,35178,
    35183,35188,35191,35198,35203,35208,35210,35219,35224,35233,35241,35238,35244,35247,35250,35258,
    35261,35263,35264,35290,35292,35293,35303,35316,35320,35331,35350,35344,35340,35355,35357,35365,
    35382,35393,35419,35410,35398,35400,35452,35437,35436,35426,35461,35458,35460,35496,35489,35473,
    35493,35494,35482,35491,35524,35533,35522,35546,35563,35571,35559,35556,35569,35604,35552,35554,
    35575,35550,35547,35596,35591,35610,35553,35606,35600,35607,35616,35635,38827,35622,35627,35646,
    35624,35649,35660,35663,35662,35657,35670,35675,35674,35691,35679,35692,35695,35700,35709,35712,
    35724,35726,35730,35731,35734,35737,35738,35898,35905,35903,35912,35916,35918,35920,35925,35938,
    35948,35960,35962,35970,35977,35973,35978,35981,35982,35988,35964,35992,25117,36013,36010,36029,
    36018,36019,36014,36022,36040,36033,36068,36067,36058,36093,36090,36091,36100,36101,36106,36103,
    36111,36109,36112,40782,36115,36045,36116,36118,36199,36205,36209,36211,36225,36249,36290,36286,
    36282,36303,36314,36310,36300,36315,36299,36330,36331,36319,36323,36348,36360,36361,36351,36381,
    36382,36368,36383,36418,36405,36400,36404,36426,36423,36425,36428,36432,36424,36441,36452,36448,
    36394,36451,36437,36470,36466,36476,36481,36487,36485,36484,36491,36490,36499,36497,36500,36505,
    36522,36513,36524,36528,36550,36529,36542,36549,36552,36555,36571,36579,36604,36603,36587,36606,
    36618,36613,36629,36626,36633,36627,36636,36639,36635,36620,36646,36659,36667,36665,36677,36674,
    36670,36684,36681,36678,36686,36695,36700,36706,36707,36708,36764,36767,36771,36781,36783,36791,
    36826,36837,36834,36842,36847,36999,36852,36869,36857,36858,36881,36885,36897,36877,36894,36886,
    36875,36903,36918,36917,36921,36856,36943,36944,36945,36946,36878,36937,36926,36950,36952,36958,
    36968,36975,36982,38568,36978,36994,36989,36993,36992,37002,37001,37007,37032,37039,37041,37045,
    37090,37092,25160,37083,37122,37138,37145,37170,37168,37194,37206,37208,37219,37221,37225,37235,
    37234,37259,37257,37250,37282,37291,37295,37290,37301,37300,37306,37312,37313,37321,37323,37328,
    37334,37343,37345,37339,37372,37365,37366,37406,37375,37396,37420,37397,37393,37470,37463,37445,
    37449,37476,37448,37525,37439,37451,37456,37532,37526,37523,37531,37466,37583,37561,37559,37609,
    37647,37626,37700,37678,37657,37666,37658,37667,37690,37685,37691,37724,37728,37756,37742,37718,
    37808,37804,37805,37780,37817,37846,37847,37864,37861,37848,37827,37853,37840,37832,37860,37914,
    37908,37907,37891,37895,37904,37942,37931,37941,37921,37946,37953,37970,37956,37979,37984,37986,
    37982,37994,37417,38000,38005,38007,38013,37978,38012,38014,38017,38015,38274,38279,38282,38292,
    38294,38296,38297,38304,38312,38311,38317,38332,38331,38329,38334,38346,28662,38339,38349,38348,
    38357,38356,38358,38364,38369,38373,38370,38433,38440,38446,38447,38466,38476,38479,38475,38519,
    38492,38494,38493,38495,38502,38514,38508,38541,38552,38549,38551,38570,38567,38577,38578,38576,
    38580,38582,38584,38585,38606,38603,38601,38605,35149,38620,38669,38613,38649,38660,38662,38664,
    38675,38670,38673,38671,38678,38681,38692,38698,38704,38713,38717,38718,38724,38726,38728,38722,
    38729,38748,38752,38756,38758,38760,21202,38763,38769,38777,38789,38780,38785,38778,38790,38795,
    38799,38800,38812,38824,38822,38819,38835,38836,38851,38854,38856,38859,38876,38893,40783,38898,
    31455,38902,38901,38927,38924,38968,38948,38945,38967,38973,38982,38991,38987,39019,39023,39024,
    39025,39028,39027,39082,39087,39089,39094,39108,39107,39110,39145,39147,39171,39177,39186,39188,
    39192,39201,39197,39198,39204,39200,39212,39214,39229,39230,39234,39241,39237,39248,39243,39249,
    39250,39244,39253,39319,39320,39333,39341,39342,39356,39391,39387,39389,39384,39377,39405,39406,
    39409,39410,39419,39416,39425,39439,39429,39394,39449,39467,39479,39493,39490,39488,39491,39486,
    39509,39501,39515,39511,39519,39522,39525,39524,39529,39531,39530,39597,39600,39612,39616,39631,
    39633,39635,39636,39646,39647,39650,39651,39654,39663,39659,39662,39668,39665,39671,39675,39686,
    39704,39706,39711,39714,39715,39717,39719,39720,39721,39722,39726,39727,39730,39748,39747,39759,
    39757,39758,39761,39768,39796,39827,39811,39825,39830,39831,39839,39840,39848,39860,39872,39882,
    39865,39878,39887,39889,39890,39907,39906,39908,39892,39905,39994,39922,39921,39920,39957,39956,
    39945,39955,39948,39942,39944,39954,39946,39940,39982,39963,39973,39972,39969,39984,40007,39986,
    40006,39998,40026,40032,40039,40054,40056,40167,40172,40176,40201,40200,40171,40195,40198,40234,
    40230,40367,40227,40223,40260,40213,40210,40257,40255,40254,40262,40264,40285,40286,40292,40273,
    40272,40281,40306,40329,40327,40363,40303,40314,40346,40356,40361,40370,40388,40385,40379,40376,
    40378,40390,40399,40386,40409,40403,40440,40422,40429,40431,40445,40474,40475,40478,40565,40569,
    40573,40577,40584,40587,40588,40594,40597,40593,40605,40613,40617,40632,40618,40621,38753,40652,
    40654,40655,40656,40660,40668,40670,40669,40672,40677,40680,40687,40692,40694,40695,40697,40699,
    40700,40701,40711,40712,30391,40725,40737,40748,40766,40778,40786,40788,40803,40799,40800,40801,
    40806,40807,40812,40810,40823,40818,40822,40853,40860,40864,22575,27079,36953,29796,20956,29081,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    32394,35100,37704,37512,34012,20425,28859,26161,26824,37625,26363,24389,20008,20193,20220,20224,
    20227,20281,20310,20370,20362,20378,20372,20429,20544,20514,20479,20510,20550,20592,20546,20628,
    20724,20696,20810,20836,20893,20926,20972,21013,21148,21158,21184,21211,21248,21255,21284,21362,
    21395,21426,21469,64014,21660,21642,21673,21759,21894,22361,22373,22444,22472,22471,64015,64016,
    22686,22706,22795,22867,22875,22877,22883,22948,22970,23382,23488,29999,23512,23532,23582,23718,
    23738,23797,23847,23891,64017,23874,23917,23992,23993,24016,24353,24372,24423,24503,24542,24669,
    24709,24714,24798,24789,24864,24818,24849,24887,24880,24984,25107,25254,25589,25696,25757,25806,
    25934,26112,26133,26171,26121,26158,26142,26148,26213,26199,26201,64018,26227,26265,26272,26290,
    26303,26362,26382,63785,26470,26555,26706,26560,26625,26692,26831,64019,26984,64020,27032,27106,
    27184,27243,27206,27251,27262,27362,27364,27606,27711,27740,27782,27759,27866,27908,28039,28015,
    28054,28076,28111,28152,28146,28156,28217,28252,28199,28220,28351,28552,28597,28661,28677,28679,
    28712,28805,28843,28943,28932,29020,28998,28999,64021,29121,29182,29361,29374,29476,64022,29559,
    29629,29641,29654,29667,29650,29703,29685,29734,29738,29737,29742,29794,29833,29855,29953,30063,
    30338,30364,30366,30363,30374,64023,30534,21167,30753,30798,30820,30842,31024,64024,64025,64026,
    31124,64027,31131,31441,31463,64028,31467,31646,64029,32072,32092,32183,32160,32214,32338,32583,
    32673,64030,33537,33634,33663,33735,33782,33864,33972,34131,34137,34155,64031,34224,64032,64033,
    34823,35061,35346,35383,35449,35495,35518,35551,64034,35574,35667,35711,36080,36084,36114,36214,
    64035,36559,64036,64037,36967,37086,64038,37141,37159,37338,37335,37342,37357,37358,37348,37349,
    37382,37392,37386,37434,37440,37436,37454,37465,37457,37433,37479,37543,37495,37496,37607,37591,
    37593,37584,64039,37589,37600,37587,37669,37665,37627,64040,37662,37631,37661,37634,37744,37719,
    37796,37830,37854,37880,37937,37957,37960,38290,63964,64041,38557,38575,38707,38715,38723,38733,
    38735,38737,38741,38999,39013,64042,64043,39207,64044,39326,39502,39641,39644,39797,39794,39823,
    39857,39867,39936,40304,40299,64045,40473,40657,0,0,8560,8561,8562,8563,8564,8565,
    8566,8567,8568,8569,65506,65508,65287,65282,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,8560,8561,8562,8563,
    8564,8565,8566,8567,8568,8569,8544,8545,8546,8547,8548,8549,8550,8551,8552,8553,
    65506,65508,65287,65282,12849,8470,8481,8757,32394,35100,37704,37512,34012,20425,28859,26161,
    26824,37625,26363,24389,20008,20193,20220,20224,20227,20281,20310,20370,20362,20378,20372,20429,
    20544,20514,20479,20510,20550,20592,20546,20628,20724,20696,20810,20836,20893,20926,20972,21013,
    21148,21158,21184,21211,21248,21255,21284,21362,21395,21426,21469,64014,21660,21642,21673,21759,
    21894,22361,22373,22444,22472,22471,64015,64016,22686,22706,22795,22867,22875,22877,22883,22948,
    22970,23382,23488,29999,23512,23532,23582,23718,23738,23797,23847,23891,64017,23874,23917,23992,
    23993,24016,24353,24372,24423,24503,24542,24669,24709,24714,24798,24789,24864,24818,24849,24887,
    24880,24984,25107,25254,25589,25696,25757,25806,25934,26112,26133,26171,26121,26158,26142,26148,
    26213,26199,26201,64018,26227,26265,26272,26290,26303,26362,26382,63785,26470,26555,26706,26560,
    26625,26692,26831,64019,26984,64020,27032,27106,27184,27243,27206,27251,27262,27362,27364,27606,
    27711,27740,27782,27759,27866,27908,28039,28015,28054,28076,28111,28152,28146,28156,28217,28252,
    28199,28220,28351,28552,28597,28661,28677,28679,28712,28805,28843,28943,28932,29020,28998,28999,
    64021,29121,29182,29361,29374,29476,64022,29559,29629,29641,29654,29667,29650,29703,29685,29734,
    29738,29737,29742,29794,29833,29855,29953,30063,30338,30364,30366,30363,30374,64023,30534,21167,
    30753,30798,30820,30842,31024,64024,64025,64026,31124,64027,31131,31441,31463,64028,31467,31646,
    64029,32072,32092,32183,32160,32214,32338,32583,32673,64030,33537,33634,33663,33735,33782,33864,
    33972,34131,34137,34155,64031,34224,64032,64033,34823,35061,35346,35383,35449,35495,35518,35551,
    64034,35574,35667,35711,36080,36084,36114,36214,64035,36559,64036,64037,36967,37086,64038,37141,
    37159,37338,37335,37342,37357,37358,37348,37349,37382,37392,37386,37434,37440,37436,37454,37465,
    37457,37433,37479,37543,37495,37496,37607,37591,37593,37584,64039,37589,37600,37587,37669,37665,
    37627,64040,37662,37631,37661,37634,37744,37719,37796,37830,37854,37880,37937,37957,37960,38290,
    63964,64041,38557,38575,38707,38715,38723,38733,38735,38737,38741,38999,39013,64042,64043,39207,
    64044,39326,39502,39641,39644,39797,39794,39823,39857,39867,39936,40304,40299,64045,40473,40657,
];
pub static SJIS_PAGE: [u16; 3072] = [
    0,0,1,2,0,0,0,0,0,0,0,0,0,0,3,4,
    5,6,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    7,0,0,0,8,9,10,11,12,13,14,0,15,0,0,0,
    0,16,0,0,17,18,19,20,21,22,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    23,24,25,26,0,0,0,0,27,0,28,0,29,30,31,32,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,33,34,35,36,37,38,39,40,
    41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,
    57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,
    73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,
    89,90,91,92,93,94,95,96,97,98,99,100,101,102,103,104,
    105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,
    121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,
    137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,
    153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,
    169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,
    185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,
    201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,
    217,218,219,220,221,222,223,224,225,226,227,0,228,229,230,231,
    232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,
    248,249,250,251,252,253,254,255,256,257,258,259,260,261,262,263,
    264,265,266,267,268,269,270,271,272,273,274,275,276,277,278,0,
    279,280,281,282,283,284,285,286,287,288,289,290,291,292,293,294,
    295,296,297,298,299,300,301,302,303,304,305,306,307,308,309,310,
    311,312,313,0,0,314,315,316,317,318,319,320,321,322,323,324,
    325,326,327,328,329,330,331,332,333,334,335,336,337,338,339,340,
    341,342,0,343,344,345,346,347,348,349,350,351,352,353,354,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    355,356,357,358,359,360,361,362,363,364,365,366,367,368,369,370,
    371,372,373,374,375,376,377,378,379,380,381,382,383,384,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,385,0,0,386,387,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,388,389,390,391,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
];
pub static SJIS_ENC: [[u16; 64]; 392] = [
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[128,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,92,0,33176,33102,0,0,0,0,0,0,0,33163,33149,0,0,33100,0,33271,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33150,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33152,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33695,33696,33697,33698,33699,33700,33701,33702,33703,33704,33705,33706,33707,33708,33709,33710,33711,0,33712,33713,33714,33715,33716,33717,33718,0,0,0,0,0,0,0,33727,33728,33729,33730,33731,33732,33733,33734,33735,33736,33737,33738,33739,33740,33741],[33742,33743,0,33744,33745,33746,33747,33748,33749,33750,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,33862,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33856,33857,33858,33859,33860,33861,33863,33864,33865,33866,33867,33868,33869,33870,33871,33872,33873,33874,33875,33876,33877,33878,33879,33880,33881,33882,33883,33884,33885,33886,33887,33888,33904,33905,33906,33907,33908,33909,33911,33912,33913,33914,33915,33916,33917,33918,33920,33921],[33922,33923,33924,33925,33926,33927,33928,33929,33930,33931,33932,33933,33934,33935,33936,33937,0,33910,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33117,0,0,0,0,33116,0,0,33125,33126,0,0,33127,33128,0,0,33269,33270,0,0,0,33124,33123,0,0,0,0,0,0,0,0,0,33265,0,33164,33165,0,0,0,0,0,0,0,33190,0,0,126,0],[0,0,0,33166,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34690,0,0,0,0,0,0,0,0,0,0,34692,0,0,0,0,0,0,0,0,0,33264,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34644,34645,34646,34647,34648,34649,34650,34651,34652,34653,0,0,0,0,0,0,64064,64065,64066,64067,64068,64069,64070,64071,64072,64073,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33193,33194,33192,33195,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33227,0,33228,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[33229,0,33245,33230,0,0,0,33246,33208,0,0,33209,0,0,0,0,0,34708,33148,0,0,0,0,0,0,0,33251,0,0,33253,33159,34712,33242,0,0,0,0,33121,0,33224,33225,33215,33214,33255,33256,0,34707,0,0,0,0,0,33160,33254,0,0,0,0,0,0,0,33252,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33248,0,0,0,0,0,0,0,0,0,0,0,0,0,33154,33247,0,0,0,0,33157,33158,0,0,33249,33250,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,33212,33213,0,0,33210,33211,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33243,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34713],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33244,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34624,34625,34626,34627,34628,34629,34630,34631,34632,34633,34634,34635,34636,34637,34638,34639,34640,34641,34642,34643,0,0,0,0,0,0,0,0,0,0,0,0],[33951,33962,33952,33963,0,0,0,0,0,0,0,0,33953,0,0,33964,33954,0,0,33965,33956,0,0,33967,33955,0,0,33966,33957,33978,0,0,33973,0,0,33968,33959,33980,0,0,33975,0,0,33970,33958,0,0,33974,33979,0,0,33969,33960,0,0,33976,33981,0,0,33971,33961,0,0,33977],[0,0,33982,0,0,0,0,0,0,0,0,33972,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33185,33184,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33187,33186,0,0,0,0,0,0,0,0,33189,33188,0,0],[0,0,0,0,0,0,33183,33182,0,0,0,33179,0,0,33181,33180,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33276,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,33178,33177,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[33162,0,33161,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33268,0,0,33267,0,33266,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[33088,33089,33090,33110,0,33112,33113,33114,33137,33138,33139,33140,33141,33142,33143,33144,33145,33146,33191,33196,33131,33132,0,0,0,0,0,0,0,34688,0,34689,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,33439,33440,33441,33442,33443,33444,33445,33446,33447,33448,33449,33450,33451,33452,33453,33454,33455,33456,33457,33458,33459,33460,33461,33462,33463,33464,33465,33466,33467,33468,33469,33470,33471,33472,33473,33474,33475,33476,33477,33478,33479,33480,33481,33482,33483,33484,33485,33486,33487,33488,33489,33490,33491,33492,33493,33494,33495,33496,33497,33498,33499,33500,33501],[33502,33503,33504,33505,33506,33507,33508,33509,33510,33511,33512,33513,33514,33515,33516,33517,33518,33519,33520,33521,0,0,0,0,0,0,0,33098,33099,33108,33109,0,0,33600,33601,33602,33603,33604,33605,33606,33607,33608,33609,33610,33611,33612,33613,33614,33615,33616,33617,33618,33619,33620,33621,33622,33623,33624,33625,33626,33627,33628,33629,33630],[33631,33632,33633,33634,33635,33636,33637,33638,33639,33640,33641,33642,33643,33644,33645,33646,33647,33648,33649,33650,33651,33652,33653,33654,33655,33656,33657,33658,33659,33660,33661,33662,33664,33665,33666,33667,33668,33669,33670,33671,33672,33673,33674,33675,33676,33677,33678,33679,33680,33681,33682,33683,33684,33685,33686,0,0,0,0,33093,33115,33106,33107,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34698,34699,0,0,0,0,0,0,34700,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34693,34694,34695,34696,34697,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,34661,0,0,0,0,0,0,0,0,0,34665,0,0,0,0,0,0,34656,0,0,0,34659,0,0,0,0,0,0,0,0,0,34657,34667,0,0,34666,34660,0,0,0,34668,0,0,0,0,0,0,0,0,0,0,34662,0,0,0,0,34670,0,0,0,0],[0,0,0,0,0,0,0,0,0,34655,34669,0,0,34658,0,0,0,34663,0,0,0,0,0,34664,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,34686,34703,34702,34701,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,34674,34675,0,0,0,0,0,0,0,0,0,0,0,0,34671,34672,34673,0,0,34677,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,34676,0,0,0,0,0,0,0,0,34691,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[35050,37530,0,36533,0,0,0,38556,36836,36431,36835,35258,0,38259,38750,0,39072,35150,0,0,35470,39073,37026,39360,35701,38328,0,0,0,0,36837,0,0,38844,0,0,0,0,38336,0,64104,0,39074,0,0,37510,0,0,0,39075,35832,0,0,0,39076,0,35547,37455,0,36581,39077,0,0,39078],[0,0,39079,37972,0,35702,0,0,0,0,0,37974,0,37857,36033,38482,0,0,0,0,0,58728,39080,36838,39081,35251,0,0,0,35811,36078,38631,0,0,39844,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38800,0,37883,0,0,0,0,0,0,0,0,0,0,35491,0],[35668,0,39082,0,0,39083,38841,0,38748,37256,39085,36502,37873,0,39088,0,0,35165,36061,0,36060,35044,0,0,39018,39017,0,36273,34975,0,39089,39090,39091,38483,39092,0,36080,35045,38546,0,35740,0,0,35741,35742,37600,38842,0,39093,0,0,39094,0,0,39095,0,0,0,36972,0,0,0,0,0],[36697,36973,39100,0,39098,0,39099,35703,0,0,36257,35310,0,39097,39096,38311,0,0,0,0,36453,36452,37308,39101,38260,37093,0,0,0,33111,39102,39104,0,64105,0,37347,38879,35016,0,0,0,0,0,0,0,39103,35260,0,35778,0,37511,0,0,0,35983,39105,0,0,0,37955,64106,0,0,0],[64107,35561,0,64108,0,0,0,0,0,39106,35017,0,0,36062,35562,38298,38064,35704,0,0,0,0,0,0,0,0,35311,0,39141,37728,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38028,39108,0,0,0,38074,0,38880,0,36940,64109,36454,0,36503,35262,0,0],[0,0,0,37583,0,0,37441,39112,0,0,0,0,0,35018,37601,36698,36274,38723,0,37324,0,35261,64110,39111,0,38749,39107,39109,36332,39110,39747,0,0,0,0,0,0,0,0,0,0,39118,0,0,0,0,0,39121,39119,0,0,35264,0,38329,39113,0,0,0,0,39117,36081,0,0,36455],[0,0,0,35492,0,0,39122,0,39114,0,64112,38881,0,36504,0,39115,0,39120,64111,0,64114,0,39123,0,39116,0,64113,35743,0,35019,0,0,35744,35263,0,0,0,0,0,0,0,0,0,39748,0,38553,38286,36082,0,0,0,0,0,36942,38837,0,0,0,0,0,0,0,0,38358],[0,0,35927,37283,35298,0,0,0,0,64097,36722,0,0,64115,39127,0,39132,39130,0,0,39125,0,0,37293,39128,0,39131,39129,0,38363,0,39126,0,36941,0,38547,39133,39134,0,0,0,0,0,0,0,0,36675,39147,0,0,0,37999,0,38229,39142,0,38382,0,35252,0,0,0,39146,64118],[0,0,0,0,0,39140,39149,0,0,37233,0,36034,0,38011,0,57541,0,39148,37756,0,39137,0,36084,0,0,36083,39135,0,0,0,64119,36568,0,39143,64117,38381,37484,39139,35985,0,39136,39144,39138,38863,39145,39008,0,0,0,0,0,0,0,0,35812,0,0,35984,0,0,0,0,0,0],[64116,0,64122,39150,0,0,64120,39151,39155,35020,0,0,0,0,0,38350,39154,0,0,0,0,39153,39157,0,0,0,39156,0,37602,0,0,0,0,0,0,0,0,35986,0,0,0,0,0,0,39158,0,0,0,64121,0,36547,0,37284,37603,35828,0,39159,0,0,0,0,35669,0,0],[39160,0,0,0,0,39162,0,0,0,0,0,0,0,38484,0,0,0,35974,0,0,64123,0,0,0,36432,38133,39161,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36291,38754,0,0,0,0,39164,39234,39163,36290,0,36765,0,0,0,0,0,0,35928,0],[0,0,39235,0,0,35789,0,0,0,39232,39233,0,0,37805,0,37276,0,35745,0,0,0,38508,39236,0,64125,0,38843,0,0,0,39237,0,0,0,0,39240,0,39238,0,37229,0,0,0,0,0,39239,39241,0,0,0,0,0,64124,39243,0,0,0,39242,0,38342,0,0,0,0],[35670,39245,39246,0,35245,0,0,0,0,39244,0,0,0,0,0,0,0,0,36594,0,39249,39248,39247,0,39124,0,39250,0,0,0,0,36766,0,39251,0,0,0,0,0,0,0,0,38724,0,0,0,0,0,0,0,38615,0,0,0,0,39253,0,0,39252,39255,39254,0,0,39256],[39257,35058,0,36019,35930,36699,37531,35746,37094,36085,64126,36238,39259,38598,37733,0,36505,0,39258,0,39260,0,0,0,0,0,37757,0,35477,0,0,0,0,0,39261,0,64128,37884,0,0,37203,39263,39264,38058,36086,39002,39265,0,0,35748,0,0,0,38330,37300,35823,37716,0,0,0,35987,0,0,0],[39266,0,39267,0,0,37856,35198,0,0,39270,36347,0,39269,36292,0,39271,58348,39272,38496,39273,0,39274,39275,36839,0,36554,0,0,0,64129,0,0,35493,0,39278,0,39276,38587,39277,0,38265,39279,39280,39281,37758,0,0,0,39285,39283,39284,39282,36321,39286,38632,38882,0,0,0,0,0,39287,64130,0],
    [0,0,0,0,37030,39288,36729,0,0,39289,0,37532,38845,37760,0,0,0,0,0,0,0,0,39363,0,0,0,0,39290,60067,35779,0,0,39291,38525,0,0,0,0,36744,37370,0,39293,37858,0,64131,39294,0,0,39296,35405,0,0,0,39297,35749,0,37834,35226,36719,0,0,38047,39298,0],[37761,0,0,36974,39299,0,38314,37080,35488,0,35495,39300,0,0,39302,0,0,35929,0,0,39301,64132,0,38897,0,0,0,0,0,36745,0,0,0,0,0,0,38075,38346,0,39303,0,38808,39304,0,0,0,39305,0,37790,0,0,39306,0,0,37031,36348,35988,39307,36456,36239,0,0,0,0],[0,0,0,37604,39309,0,0,37285,0,0,36333,39310,39311,37199,0,39308,0,0,0,0,39313,0,38485,0,0,0,0,36228,0,0,39312,0,0,0,0,35989,36316,38029,0,0,0,39316,39314,0,0,0,0,38299,36840,39323,35460,39317,39315,37230,0,0,0,0,0,0,0,39319,0,39318],[0,0,0,35427,0,0,0,35968,39324,38827,0,0,0,39320,0,0,0,39325,39322,0,39321,0,0,0,0,0,0,38861,64133,0,0,36087,35265,0,0,38898,0,0,64134,0,0,36757,37751,36229,39328,39329,0,64375,0,38883,0,0,38986,39331,0,0,0,36088,0,0,39330,0,35406,0],[64135,39332,0,38517,0,37562,0,38725,0,38359,0,0,0,39333,0,0,0,0,59603,0,0,37806,0,39334,35496,38577,0,64136,0,36767,39335,38373,39339,0,37032,39336,35790,0,39337,35497,0,0,0,0,0,0,0,0,0,0,35917,39340,0,39341,0,0,39342,39343,36569,0,0,0,36089,38620],[64137,38630,37877,0,0,38383,39344,64138,39345,0,0,0,0,39347,0,39349,39348,0,0,0,0,39350,35259,38507,0,36346,39351,0,0,37240,0,0,36768,35751,0,39352,64139,0,0,0,0,0,38105,0,0,0,0,39353,0,39354,0,39355,0,0,0,0,39356,38211,35814,35043,0,0,0,37821],[39357,36700,0,37095,0,39359,39358,36769,36063,39361,38076,0,0,39362,0,0,0,38106,37298,37356,35750,0,0,37868,37456,0,38030,0,38509,0,39364,0,37096,0,0,0,0,0,35924,0,0,39365,0,0,0,0,39366,35147,35059,35563,64140,37286,35696,38801,0,39369,35253,0,0,39368,0,0,0,35752],[0,0,39370,0,38639,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64141,0,0,39371,0,38864,0,36090,0,0,0,0,36020,39372,0,0,0,0,39374,39373,0,36990,35160,0,0,0,35197,39375,0,39376,0,64142,36021,0,0,39377,0,0,0,0,35726,0,0,0,0],[0,0,36433,39378,0,0,0,0,38548,36275,35705,38726,37231,38077,36603,0,0,0,0,0,36710,0,36582,36595,0,36758,0,38078,0,64143,0,39381,0,35170,37232,36091,36035,35813,0,0,39385,37440,37372,35753,36770,39386,39384,35266,37348,36534,36458,35141,0,0,35472,36230,36457,0,39387,0,0,0,0,0],[0,39388,0,35688,35429,0,0,0,36231,35687,37597,35140,37807,38588,36160,38809,37734,36092,0,0,0,0,0,0,0,0,0,35918,0,39397,0,35809,38505,0,0,0,0,0,38107,0,0,39396,0,35548,39391,39392,39394,0,0,0,0,0,0,0,39395,0,35706,36993,0,38315,39393,39389,36065,0],[39390,0,38979,0,0,0,38384,0,37606,36064,36240,0,0,0,39398,0,0,37851,0,0,0,0,0,0,0,0,0,0,0,0,0,39402,0,0,0,0,0,0,0,0,36604,0,36596,0,0,0,0,0,39405,39403,0,38561,0,39400,39409,39404,0,0,0,39407,36036,38589,0,0],[39408,0,0,0,39410,0,39412,0,0,0,64146,36334,39009,0,39401,39399,39411,0,39406,0,0,0,0,0,0,0,0,0,64145,0,0,0,0,0,39414,0,39490,39416,0,0,39420,64147,0,39488,39417,0,0,39517,0,0,36327,35408,0,0,0,0,39415,0,0,0,39492,35060,39491,0],[34979,38249,39489,0,39418,0,0,39413,39419,36294,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39493,0,0,0,0,0,0,0,0,35061,39502,0,0,39494,39495,0,36771,38537,0,0,0,39500,39499,0,0,0,37710,0,0,0,0,0,0,0,39501,0,0,39498,0,64148],[0,0,0,0,35155,0,36276,36943,0,0,0,0,0,0,0,39496,37762,0,0,0,39497,0,34976,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39507,38722,0,36773,0,39513,0,0,0,0,39512,39503,0,0,0,0,37313,0],[39504,0,0,0,37357,39509,36772,0,0,0,0,0,39506,0,0,38626,0,0,0,35931,0,0,39510,39511,0,0,0,0,39508,39514,0,0,0,0,0,39505,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39520,39525,0,39521,0],[39516,0,0,39526,37200,0,64149,39528,0,36161,39518,37533,0,0,0,0,0,0,0,0,0,0,0,0,39522,39515,35499,0,35564,35461,39523,39519,0,0,0,0,0,0,0,35990,39529,39527,37234,35689,35754,0,39524,0,35826,0,0,0,0,0,35171,0,0,0,0,0,0,0,0,0],
    [0,0,0,0,39533,39531,0,39589,0,0,0,0,0,0,0,0,0,0,0,0,39536,0,0,0,0,0,39530,0,39534,0,0,39532,0,0,0,36459,39535,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39538,0,39543,0,0,0,39541,39540,0],[0,0,0,0,0,0,37457,0,0,35267,0,0,0,0,0,0,0,0,0,0,39537,0,39539,36774,35154,0,0,39542,0,0,0,0,0,0,0,0,0,0,0,0,0,35292,0,0,0,0,0,39554,0,36858,39549,0,39547,0,39548,0,39550,0,0,0,0,0,0,0],[0,0,35164,0,0,0,0,0,0,0,0,0,37208,0,39544,0,39545,0,0,0,0,0,0,0,0,0,0,35482,0,0,0,0,0,0,0,0,39553,0,0,0,35565,0,39556,39552,39555,0,0,0,0,0,0,0,38316,0,0,0,37843,0,38070,0,0,0,0,0],[39558,0,0,0,0,0,39557,35428,0,0,39559,0,0,0,0,39562,0,0,0,0,39561,0,0,0,0,0,0,0,0,0,0,0,39560,0,37976,0,0,39563,0,0,0,0,0,0,0,0,39564,0,0,0,0,0,39566,0,39565,0,0,0,0,0,39568,0,0,0],[39571,39569,39567,39570,0,0,0,0,39572,0,0,0,0,0,39573,0,0,39574,0,39575,0,0,0,39576,39268,0,36602,36460,0,0,35313,0,35062,0,0,37475,0,0,0,0,0,0,0,0,0,0,39577,0,36258,0,35021,36989,0,0,0,0,0,39578,36037,0,0,36241,0,39580],[39579,0,0,38366,39581,0,0,0,39583,39582,0,39584,0,39585,0,35991,0,0,35200,39586,0,0,39588,0,39587,0,0,0,39590,0,0,37753,0,0,0,0,0,0,39591,34995,36317,0,0,0,0,35932,0,0,37486,0,0,0,0,0,0,39592,39593,0,0,39595,0,0,0,0],[39596,0,36322,0,0,0,0,35791,0,0,38486,0,0,0,39594,39597,36287,36162,0,0,0,0,0,0,0,64150,0,0,0,0,0,0,0,39601,0,0,36259,64151,37458,0,0,39598,37592,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39602],[0,0,36994,0,0,0,0,0,39600,39603,0,35934,0,0,0,0,0,0,0,39604,0,0,0,0,0,0,0,0,0,0,0,0,39605,0,36163,35423,39607,0,0,0,0,0,39608,0,64152,0,0,0,39609,0,0,39606,0,0,0,0,0,0,0,0,0,0,0,0],[39599,0,0,39610,0,0,39611,64154,64153,0,0,38532,0,0,36841,0,0,0,39613,39614,39612,0,39616,0,0,0,0,0,37975,0,0,35046,38261,0,0,39617,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36859,0,0,36535,0,38012,35566,0,36329,0,0,0],[38520,0,37808,0,0,35992,37325,0,0,0,39615,39618,0,0,0,0,0,0,0,0,0,37314,0,0,0,39619,0,0,0,39620,0,0,0,39622,0,0,37607,0,0,0,0,0,35500,0,0,0,0,60063,35201,38385,0,0,36842,37735,0,0,0,0,36324,0,0,39628,0,0],[38331,38875,0,0,0,0,0,0,0,0,35314,39624,0,0,0,0,0,37209,39627,0,37763,0,0,37736,37764,38071,37579,0,0,0,36295,0,0,0,39623,0,0,0,0,0,0,35222,0,37717,0,0,0,0,39625,0,39621,0,0,36975,0,0,0,39629,0,0,0,0,36717,0],[0,0,0,35755,0,39630,0,0,0,0,0,0,0,0,0,0,0,0,0,38374,0,0,0,37277,0,0,0,0,37572,0,64157,39632,0,0,0,0,0,0,0,0,38510,0,0,39633,0,0,39638,0,0,0,64158,38317,0,0,0,0,39637,39631,39634,39636,0,0,36260,0],[0,38343,0,0,0,39639,0,37476,0,0,35315,0,36843,0,0,0,0,39641,0,39640,0,36232,0,39642,39644,39643,0,0,39646,0,39635,39648,0,0,0,0,39647,39645,0,0,0,0,0,36461,36976,0,37235,39649,37050,35051,38020,0,0,0,0,37593,0,39651,39650,39652,39653,39654,0,0],[0,0,39655,0,0,0,0,0,0,38351,39656,64159,0,0,0,35268,39657,0,0,0,0,38747,35407,0,39367,36711,37309,39658,38633,0,0,0,0,0,38578,0,0,39660,0,37349,0,37718,37310,38262,39661,39662,35227,0,0,36536,39663,0,0,0,0,35022,39664,0,0,0,0,0,39665,0],[0,0,0,0,35202,0,0,35567,37854,38386,0,0,0,0,39669,37236,39668,35935,0,64160,38522,39667,0,37765,39671,0,39670,64161,0,64162,0,0,39673,0,39672,64163,0,35228,0,39674,36775,39676,37444,0,39675,0,38321,0,0,0,0,36759,37754,0,0,0,39744,0,0,0,0,36164,0,0],[0,39745,37952,38108,38607,0,0,0,0,0,37956,0,0,39754,0,0,0,0,0,35671,0,0,38756,0,0,38573,0,39850,0,39746,0,0,0,0,0,39749,64164,37315,0,0,38487,0,0,0,37737,0,0,0,0,0,39750,0,0,0,0,0,0,38533,64165,36296,0,0,36776,0],
    [0,0,0,0,0,0,39751,0,0,36463,0,36462,0,0,0,0,34999,36038,0,37033,35023,0,0,0,0,39755,39756,0,39753,0,0,0,0,0,0,0,0,35159,35501,0,39752,0,38595,38224,0,0,0,0,0,0,0,0,0,0,34982,0,0,0,0,35063,0,0,0,36464],[0,35024,0,34977,0,0,0,0,0,39761,0,0,0,0,0,0,0,39759,0,0,0,0,0,0,38586,0,39762,0,39760,0,0,39758,36944,0,0,0,0,39757,0,0,0,38360,0,0,0,0,0,36066,0,0,0,0,0,39766,39767,0,0,0,0,0,36777,0,0,0],[39763,38987,0,0,0,0,37995,0,0,39765,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36261,0,0,0,0,0,0,0,39768,0,0,0,38263,0,0,0,39769,0,39764,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38585],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38013,0,0,0,0,0,0,0,39770,38225,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39771,39775,39772,0],[0,35269,39774,0,0,0,0,0,0,36537,0,39773,35993,0,0,0,39787,0,0,0,0,0,39780,39777,0,0,0,0,0,0,0,0,0,37508,0,39776,0,0,39778,0,0,39779,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39781,39782,0,0,0,0],[0,0,0,0,0,0,0,0,0,35568,0,39784,39783,0,0,0,0,0,0,0,0,0,39785,0,0,0,0,0,0,0,0,0,0,0,36844,0,0,0,0,0,0,0,39788,0,37594,0,0,0,35172,0,39786,0,0,0,39789,0,0,0,0,0,0,0,39790,0],[39793,0,0,39791,0,39792,0,0,0,0,0,0,0,0,0,0,36465,39794,0,0,36165,39795,64166,36506,37302,0,39796,39797,36473,36166,0,38608,0,0,0,35655,36039,39798,35447,0,0,39799,0,37303,0,0,0,0,39800,39841,0,39801,0,39802,0,0,39803,0,39805,0,0,0,0,0],[39806,0,0,39808,0,37358,0,35142,36583,35008,0,37238,35502,36531,0,36167,0,0,0,0,0,37766,0,36672,35503,37512,37608,34998,35672,38387,0,36544,0,0,35697,37097,36538,38727,39809,0,0,0,0,0,0,0,35707,0,36297,0,0,35409,35203,36778,35270,0,39810,38757,0,0,0,0,0,36712],[64167,0,36578,39811,35569,37840,38567,39812,0,39813,0,0,38264,0,0,0,39815,0,35494,35829,39814,0,0,0,64169,0,0,35504,0,36945,39819,36416,0,35271,39818,0,39816,39820,39817,37962,40651,36946,0,39821,64170,0,38846,0,39822,0,0,39824,0,37534,39823,0,37025,0,36507,0,0,0,37326,36597],[0,38293,37098,0,36555,39825,36779,39826,39827,35025,37304,36977,0,39828,37809,36780,0,36781,0,39829,0,0,37099,0,0,0,36782,0,0,0,64171,0,39830,0,39831,0,38622,0,0,0,39832,0,0,0,0,35780,0,0,0,36673,0,0,0,0,0,0,39833,39834,36570,36939,37874,36979,38134,37953],[35783,39835,0,0,0,35727,39836,0,35836,0,37837,35246,0,36466,39837,39840,39839,35835,0,39838,0,37719,0,0,0,0,0,0,0,0,37294,0,37738,36550,0,0,37239,38810,0,0,0,0,0,0,39842,0,39843,37844,0,36434,0,0,0,0,39845,0,0,39846,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,39847,0,0,0,35570,39848,0,0,39849,0,0,0,0,0,0,0,0,0,0,0,0,35242,0,0,0,0,64172,0,37210,35554,0,39851,38566,0,0,0,0,37328,0,35448,0,0,39853,39855,35549,0,64173,39852,39854,0,39857,0],[0,0,0,0,0,39856,0,39858,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,39859,0,0,0,0,0,0,37819,35756,0,0,0,0,0,0,35299,39860,39865,0,0,39863,0,38389,38388,0,0,0,0,64174,37767,0,0,0,39862,36723,0,39861,0,0],[0,0,0,0,0,0,0,37010,0,0,0,39866,0,0,36328,0,0,39872,0,0,39873,39867,35410,39868,39877,39876,39875,39871,0,0,0,39870,0,0,39874,0,0,0,0,64175,0,38390,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,64178,0,0,0,0,0,0,0,0,39881,39878,0,39880,0,38802,0,39879,64176,0,0,0,0,0,0,0,0,39869,0,0,0,0,0,0,0,0,0,0,0,0,37011,0,0,39882,64179,0,36277,0,0,0,39883,0,0,39884,0,0,0,0,0,0,0,0,0],[0,0,39887,0,39886,0,0,39885,0,0,0,37768,39864,0,0,0,39893,0,0,0,0,0,0,0,0,0,0,0,0,39889,0,0,0,0,39888,0,0,0,0,0,0,0,0,0,39890,0,39891,0,0,0,0,0,0,0,0,39894,64180,64181,38884,0,39895,39892,0,0],
    [0,0,0,0,0,0,0,0,0,39896,0,0,35550,39897,0,0,64182,0,39899,39898,0,0,39900,0,0,0,0,39901,0,37100,36674,0,0,36740,0,37251,0,36168,36278,36169,35728,0,0,39902,0,0,36279,0,0,36040,39903,38564,37986,39904,0,36170,0,0,0,35498,0,37446,35792,0],[0,0,36467,38266,0,0,38079,0,0,0,0,39905,35571,0,0,0,0,39908,0,0,0,0,37535,0,0,39907,39906,39909,0,37609,0,0,0,0,0,0,0,36995,0,0,0,0,0,36468,0,37064,0,37329,35649,0,0,37536,0,0,39910,39911,36845,0,0,0,0,38488,0,0],[39914,0,0,39913,39912,38301,0,39921,0,0,0,0,38521,0,39915,0,0,0,0,0,39917,38539,0,39916,0,0,0,0,0,0,0,39918,0,38054,39919,38332,39920,0,0,0,0,0,0,0,0,0,0,0,0,0,35505,38333,37966,39922,39923,0,36171,35506,39924,36022,38755,38728,35572,39926],[0,37537,0,36172,36783,0,0,38109,0,0,36784,0,0,0,0,36760,0,0,0,0,0,37610,38391,37720,0,0,36173,0,38267,0,0,0,39927,0,0,0,0,0,37752,36288,0,0,0,36041,0,37611,0,0,0,0,0,0,0,35009,36750,36174,38758,0,0,0,0,0,0,0],[0,39928,39929,38000,0,0,0,0,39930,38901,38988,0,0,0,0,39932,39931,0,0,35430,0,0,40000,0,0,0,40003,40004,0,40002,0,38239,36785,40006,40005,40001,0,0,0,0,40007,40008,0,0,40009,0,0,0,40012,40010,0,40011,40013,0,35204,37612,40014,0,35994,35316,37973,0,40015,37881],[0,38361,0,40016,38989,0,0,0,0,40017,38334,40020,39071,39087,0,36526,37875,40021,0,35708,37538,35064,40022,38308,36175,0,0,37487,0,0,0,37613,0,64183,0,0,0,38637,36023,36042,0,40023,0,0,0,40024,0,40030,0,36579,0,0,64184,37539,0,35757,40025,0,0,0,38218,0,37477,0],[0,40026,0,0,0,64103,0,0,40027,0,35758,0,40028,0,40029,0,0,40031,0,37782,0,0,40032,40033,0,40034,0,0,40019,40018,0,0,0,40035,35936,0,0,0,38214,64185,0,36298,38230,37540,38250,40036,0,0,36786,35173,0,40037,0,0,0,40038,0,38640,0,0,38110,0,0,40041],[35229,37034,40040,40039,35937,37330,0,40045,40043,0,40042,38821,36067,0,0,0,36761,40044,37739,36701,0,0,0,37822,40048,40047,0,0,0,0,40046,0,40049,36068,0,0,0,0,0,0,40050,38300,36730,0,0,40051,38135,0,0,0,0,37823,37541,0,0,64186,0,37711,0,0,40052,35658,0,0],[0,0,0,36947,0,38219,0,0,0,0,0,0,35573,37957,0,0,0,0,0,0,0,0,40053,36469,38489,38490,0,0,35230,40058,64187,0,37513,0,0,0,40055,0,0,0,0,0,0,35317,0,0,0,0,40107,40057,0,0,0,37967,0,0,40056,0,0,40054,0,36250,0,40060],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,40067,40073,40065,0,37755,0,0,40070,38268,0,0,40064,0,40069,38885,36470,0,0,37331,40061,0,0,0,35709,40072,37035,35205,40066,35318,40071,0,0,0,35759,0,40068,0,0,0,0,0,0,0,0,40074,0,0,0,0,0],[0,40076,40086,40084,0,0,40081,0,0,0,40080,38902,0,40082,0,0,35760,0,36176,0,0,36762,0,0,0,40089,40075,0,0,64188,0,40079,40062,0,35320,40083,40085,37488,0,0,36262,35254,40077,40088,40087,35761,0,37287,35462,0,0,0,0,35938,0,40078,0,0,0,0,0,0,0,0],[0,40090,0,40093,40095,64189,0,0,0,36539,64190,40101,37614,40091,0,0,0,0,40099,0,35319,0,40097,40098,0,0,40094,40096,0,0,0,36069,38729,0,0,35507,0,0,35192,40100,0,37977,34987,0,0,0,0,0,0,0,38111,40059,40106,40110,38627,0,40103,0,0,0,37769,40108,0,0],[0,0,0,0,0,36846,40109,37845,0,0,0,0,0,0,0,0,0,39014,0,40105,0,64192,0,0,40111,0,36251,0,37065,0,64191,35026,40104,40102,0,37241,0,0,0,40092,36435,0,0,0,0,0,0,0,37316,40123,64194,37242,40118,0,40115,40116,0,36580,40119,40122,0,0,0,0],[40117,36676,0,40120,0,0,40114,0,38650,38649,0,0,0,40124,40125,35027,0,64195,0,0,0,40113,0,0,0,0,35824,34980,0,0,0,35508,64193,40121,0,0,0,0,0,40129,40128,0,0,0,40133,0,0,0,64197,0,0,0,40134,0,0,64196,0,0,0,0,40132,40135,40127,40131],[0,0,40136,0,40137,0,0,40126,36508,0,40130,37332,36177,40112,36948,0,0,0,0,40150,0,38375,0,0,40140,40141,40142,0,0,40149,0,40148,0,0,38557,35509,0,40146,0,35940,35411,0,0,40143,0,0,38838,40145,35028,40147,0,40138,40144,40151,35939,40139,0,0,0,0,0,0,38780,0],[0,0,38730,0,0,0,0,40154,0,0,40158,0,0,0,37278,0,38903,40159,0,0,40156,0,40153,0,64198,40152,40157,0,0,0,0,0,0,0,0,0,38318,0,0,37810,0,35941,0,40160,40155,0,40161,0,0,0,35995,0,0,0,35247,0,0,0,40169,0,0,0,35510,0],
    [0,0,0,40167,0,0,40168,36263,40166,40164,40163,40170,40162,40172,0,0,35321,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40174,0,0,40173,0,0,0,0,0,0,0,0,0,0,0,37542,0,40177,0,40175,40165,35996,0,40176,0,40180,40179,40181,40178],[40182,0,0,0,0,0,0,0,40183,40184,38376,0,40186,40185,36702,0,37036,35300,35322,64199,40187,0,35005,0,0,0,37066,40188,0,59073,40256,35969,0,40257,0,0,0,0,37101,0,0,0,40258,0,0,0,40259,35673,40260,0,40261,40262,37333,0,0,0,36043,0,0,38623,0,0,0,38491],[36746,40263,0,0,0,0,0,37102,59323,38112,0,36584,0,36299,40264,0,0,0,0,37317,0,38309,0,0,37359,0,0,40267,0,0,40265,0,40268,0,0,40266,0,0,0,0,40269,0,0,0,0,0,38319,0,0,34997,0,0,0,0,38269,0,0,38113,0,0,40270,0,40273,36787],[35674,0,40271,40278,36788,0,0,0,0,40272,37987,0,0,0,0,0,0,38781,40274,40275,40279,37770,40276,36178,37084,0,0,40293,38066,0,37360,0,0,0,0,0,0,0,64200,0,0,0,0,38114,40363,0,0,0,0,38392,0,0,0,37615,0,0,0,38549,0,40282,35231,37514,0,0],[0,0,40291,0,0,37459,40285,40292,40287,40294,40290,0,40289,38031,0,40283,35323,40281,35729,37361,40277,0,0,40280,36179,37081,0,36789,40288,38001,0,0,35730,35431,0,0,0,0,0,0,0,0,0,0,35463,36928,40296,40301,0,40297,0,35997,0,40302,36417,36233,0,0,0,0,0,0,36677,40284],[0,36509,40299,0,0,0,0,36471,40300,35010,0,0,40295,0,0,0,0,37543,0,0,0,0,0,0,0,35731,0,0,0,0,0,35762,0,0,0,0,0,0,0,40298,34981,0,0,36289,0,0,0,36949,0,0,0,0,0,0,0,0,0,0,37616,0,0,38098,40304,37245],[0,0,0,0,0,0,0,0,0,37288,0,0,36426,40305,0,40307,40303,0,0,0,0,38367,0,37563,0,0,0,0,37243,0,0,0,0,0,0,0,0,0,0,38393,36556,40320,0,40318,0,0,37016,0,0,0,35998,0,0,0,40312,36791,0,0,37862,37968,0,0,0,0],[40310,0,0,37244,0,0,0,0,36598,40315,0,0,36790,0,40309,40314,0,0,38002,0,0,0,40308,0,35904,0,0,35452,0,0,0,40316,38825,36300,37460,40313,0,37082,0,36180,36996,35206,37211,40311,35684,0,0,0,0,0,35942,0,37581,40317,0,0,0,0,0,37246,0,0,40321,0],[40323,0,0,37301,40329,0,40324,0,0,40326,0,0,0,0,0,38240,37617,0,40327,0,0,0,38731,0,0,0,38759,35511,0,0,0,0,0,34988,0,40325,0,0,0,0,0,40322,0,0,0,0,35574,0,0,0,0,0,35207,64201,40328,0,0,0,38760,0,0,0,0,0],[0,0,0,0,0,0,40332,0,0,0,0,0,0,37305,0,40339,0,0,0,40333,0,0,40330,40337,0,0,0,0,40306,0,0,0,0,0,0,0,0,0,40334,0,40338,0,0,0,38080,37771,0,0,0,0,0,0,40331,0,40335,0,0,0,35943,0,0,0,36335,0],[0,0,37083,0,0,0,0,0,0,0,0,0,0,0,40343,0,0,0,0,0,0,0,0,0,37701,0,0,0,0,0,0,0,64202,0,0,0,0,0,0,40340,0,38528,0,0,0,0,0,40341,0,0,0,0,0,0,40342,0,38604,0,37024,0,0,0,0,0],[0,0,0,35970,0,0,0,0,40349,0,0,0,0,0,0,0,0,0,36436,40346,0,40345,0,0,0,0,37969,0,0,64203,37811,0,0,0,0,0,37712,40347,0,0,0,40348,0,38287,0,37988,36418,0,37103,0,38511,0,0,0,0,0,0,35432,0,40355,40350,0,0,0],[0,38761,40357,0,0,40353,0,40354,0,0,0,0,0,37248,64204,0,0,0,40352,0,40286,0,0,0,40356,0,40351,0,0,0,0,0,40361,40362,37702,40364,0,0,36419,40359,0,0,0,0,35675,0,0,40365,0,40358,40369,0,40368,0,40367,0,0,0,40370,0,0,40372,36847,0],[40371,0,0,0,0,40375,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40373,0,0,0,40374,40336,0,0,0,0,0,40377,40376,0,0,0,0,0,40344,40378,40366,0,0,36472,0,0,0,0,40379,40380,40382,40381,40383,35324,0,36181,0,0,38394,37037],[0,0,0,0,0,36044,0,0,40385,0,0,0,0,40388,64205,38257,0,35710,0,0,0,40387,40386,38003,40389,35763,0,0,0,40391,40390,0,0,0,35512,36437,0,0,37846,0,0,0,0,0,35944,0,0,0,37012,0,40392,0,37038,37703,0,38270,40393,0,0,0,0,0,0,0],[0,0,40394,40395,0,0,0,38326,39804,37060,0,0,38251,0,36310,0,38115,38081,0,0,0,0,0,37740,0,38847,0,40397,36558,0,0,40398,0,34996,0,0,35794,37067,0,38272,0,0,0,40399,36449,37478,0,36474,36950,0,0,0,0,0,0,40400,0,38395,0,0,35223,36475,0,0],
    [0,40403,0,40401,40404,38839,40402,0,0,0,0,37113,40405,0,0,37296,0,0,40406,0,0,0,0,35576,0,40408,0,40407,0,0,0,0,40409,40410,35577,0,0,37882,37461,35724,36476,37249,0,0,36731,34990,0,0,0,40411,0,0,0,0,0,0,0,0,35232,40415,0,0,0,0],[64206,0,36182,40414,0,0,36265,36792,0,64209,40413,0,36793,0,38590,36264,0,0,0,35029,37068,64207,0,0,0,0,0,0,40420,0,64211,37039,35174,0,0,0,64212,36724,0,38534,36336,0,0,0,0,36794,64210,37029,0,64099,0,0,40419,40417,40418,0,0,0,0,64208,37515,0,0,40517],[0,40424,36510,36183,40422,0,0,0,0,40423,0,36951,0,0,0,40421,0,0,36430,0,0,0,0,64214,0,64215,0,0,0,40426,40425,40430,0,0,40431,0,40427,64213,35393,40428,40429,38099,0,0,0,0,38273,35945,40432,0,0,64217,37040,0,36795,0,0,0,37489,0,0,0,0,0],[0,35781,0,40433,40437,0,0,35273,40434,40436,0,0,0,0,40435,0,0,36747,0,0,0,0,37479,35011,40438,64218,0,0,0,40439,0,0,64219,0,37544,0,0,0,38895,0,0,0,0,36450,0,0,38377,0,0,0,64220,0,38492,0,0,0,40513,40441,0,0,40444,0,40443,64221],[0,40440,0,0,40512,0,0,37852,0,40442,0,0,0,0,0,0,0,0,0,0,0,0,40514,0,0,36748,40515,0,38762,38040,0,0,40516,0,0,0,0,0,40518,0,0,40519,0,0,0,0,0,0,40520,0,35784,35175,36184,40521,0,40522,36753,37250,64222,64102,39382,37213,37212,37334],[36293,0,0,39152,0,0,0,0,35982,38732,0,38396,0,38302,64223,40523,0,0,0,0,36337,37565,40524,38990,0,0,0,38493,0,37545,40525,35578,0,0,0,0,0,0,40526,40527,38616,0,38562,38550,38523,36420,40529,0,0,36585,0,0,38512,0,40531,40534,40533,0,35575,0,0,35712,0,40530],[0,40532,0,0,0,0,40535,0,0,37017,0,0,0,0,38811,35015,36318,37306,0,36571,0,0,36849,0,0,40538,0,0,37741,0,40536,37289,40537,36848,38619,40539,40540,38792,64225,0,0,0,40545,0,0,36185,0,38004,40542,37772,40412,40416,0,35694,0,37990,0,0,0,0,40544,0,36796,38082],[0,0,0,0,0,40550,0,38136,0,40541,0,40547,40546,0,0,0,37069,0,0,0,0,38541,0,38865,0,0,38535,0,35274,36477,0,0,39015,40549,37013,0,0,0,40548,0,0,40543,0,0,0,0,0,36045,0,0,0,40555,40553,0,35275,40551,40557,40563,0,64226,0,0,0,0],[64228,37318,0,0,38335,0,40565,0,0,0,38209,0,0,0,40564,38032,38494,35513,0,37109,36703,0,0,0,37585,0,38733,0,0,40560,40559,0,0,0,40561,0,40558,0,0,40566,0,40556,0,0,40554,0,40562,40552,0,37516,0,38646,36548,36338,0,0,0,0,0,36280,0,0,38543,35424],[0,64229,37580,37832,35176,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37104,0,0,37042,35913,0,0,0,0,0,0,40568,0,0,36186,35484,0,0,0,0,0,0,40570,35476,40577,0,0,0,0,0,0,40573,0,37105,0,0,0,35434,36266,0,0,35433,36301,0,0],[40571,35973,35946,37773,64230,0,40569,0,35012,0,0,0,0,40572,40574,0,35787,35915,64227,35514,35690,0,0,0,0,40578,0,0,36343,38545,0,36438,0,0,0,40579,0,0,0,38223,0,0,0,0,0,0,0,0,0,0,0,0,40591,0,35249,40580,0,0,0,0,0,0,40597,40581],[0,38848,0,40588,0,38014,0,0,0,0,0,0,0,40596,0,40583,0,0,0,34994,40585,0,0,36187,0,0,0,40587,0,40586,0,40582,40593,0,36797,0,0,0,39659,36070,38812,0,0,0,0,40584,0,37618,35394,36267,0,40576,0,40592,35457,0,0,40590,40594,0,37774,0,0,0],[0,0,0,0,35580,0,40624,0,64100,38599,40599,35579,0,40606,0,64231,0,0,38495,0,40607,40609,0,40613,40601,0,37449,0,0,0,0,37775,40617,40604,0,40614,0,0,0,40608,0,0,0,0,0,0,36952,40618,0,0,37041,0,0,0,0,0,0,40616,35515,0,0,0,0,0],[39023,40598,0,0,40612,35030,0,0,40600,0,0,38584,40605,36929,37573,40595,0,0,40611,0,0,0,0,0,0,37018,40621,35473,35999,0,0,0,0,40623,40602,40622,0,40615,40603,0,40619,0,40620,0,0,0,0,0,40637,0,0,0,37836,0,40610,0,0,40633,0,0,0,40635,0,37590],[0,0,0,0,0,0,0,0,0,0,38763,0,0,0,0,0,0,0,0,38294,40630,37320,0,0,0,40636,37214,0,40627,40640,40639,0,37869,40638,37864,0,0,0,0,0,64233,0,40642,40629,0,35782,40632,36732,0,0,0,38016,40634,35785,0,40626,40628,40625,0,0,38991,35449,40631,0],[0,40641,35412,0,0,0,0,0,0,0,36325,0,0,0,35196,0,0,40658,0,0,38992,40661,0,0,64235,0,0,36953,40660,0,0,0,40659,0,0,0,0,0,0,40656,0,0,0,0,0,0,40644,0,0,40673,40643,0,40662,0,0,0,0,0,0,40654,0,0,40649,40646],
    [0,40647,0,40655,0,0,0,60064,0,0,40652,36188,37574,37252,40650,0,40645,0,0,40648,0,0,0,0,38764,38538,0,0,0,40653,40663,0,0,0,64236,0,0,0,0,40671,40664,0,0,40677,0,40675,0,0,0,0,40670,0,0,0,0,0,0,40669,0,37582,0,37253,0,40667],[0,0,40665,0,0,40672,0,0,0,0,40678,38131,40684,0,0,0,0,0,40679,40682,40676,0,0,37524,0,38231,0,40666,0,0,40674,36798,0,38605,40694,40681,0,0,0,0,0,36000,35233,35454,0,0,40657,0,64237,0,0,0,0,36799,40686,0,40693,36599,35474,0,0,37453,0,0],[0,0,0,0,40683,0,64239,40688,40692,0,0,35764,0,0,0,0,0,0,0,0,0,0,0,0,35691,40690,0,0,0,0,0,35648,0,37833,40689,0,0,0,40691,0,0,0,0,64238,0,0,0,0,0,0,40685,64240,0,0,0,0,40687,0,0,0,0,0,64241,35456],[37480,0,0,0,40698,0,0,0,0,0,0,0,0,40696,36071,0,40695,0,0,0,0,0,0,40768,0,0,0,0,40567,0,0,0,40697,0,40699,40700,0,0,0,0,0,0,40779,0,40775,0,40589,0,0,0,0,40774,0,0,0,0,40773,0,0,40770,0,0,0,0],[0,40680,40772,40771,0,0,0,0,0,0,0,0,0,0,0,0,0,40777,0,38981,0,0,0,0,0,0,40780,35833,0,0,40776,40778,0,0,64242,0,64243,0,0,0,38053,0,40781,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40785,40782,0,0,0,0],[0,0,0,0,38803,40783,0,0,0,0,40668,0,0,0,0,0,0,0,40786,0,0,0,40787,0,0,0,0,0,0,35156,0,40789,35975,36511,0,35795,0,0,0,35234,0,0,0,0,0,0,0,0,0,0,38782,0,0,0,0,40791,40790,40793,35676,0,0,35796,35516,0],[0,0,0,40796,0,0,0,40795,0,40797,0,0,35276,0,37462,0,40798,0,0,35517,40800,0,0,0,0,40799,0,40801,0,0,0,40802,0,40803,36478,37043,36255,0,38288,0,0,38368,39011,0,0,0,0,36501,0,0,0,36302,38896,0,0,0,40804,40805,0,36480,0,0,0,40806],[40807,0,0,40809,40808,0,38519,0,0,36733,36586,36451,0,40810,0,0,0,0,0,0,0,40812,36930,0,40811,0,0,0,0,0,40813,0,0,0,0,0,40814,0,0,0,0,0,40815,40816,0,0,0,40817,0,40819,40818,40820,35235,37481,0,40821,0,0,36421,35435,40822,0,0,37729],[39626,0,0,0,0,35650,40823,0,0,0,0,40824,0,38378,38536,0,0,0,37829,40825,38116,0,64244,0,38137,0,0,38609,0,0,0,40826,0,0,0,0,0,0,0,0,0,0,0,40828,40827,0,0,40830,0,0,0,40829,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,40833,0,0,0,0,0,0,36481,0,38575,0,40834,40835,0,0,35651,0,0,0,40836,0,0,0,0,0,0,0,40838,40837,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36997,0,0,38232,35177,0,0,0,0,0,38083,64245],[37619,36704,35713,0,0,0,0,0,0,0,0,0,0,0,38084,0,36524,0,0,0,0,40840,0,35518,0,0,35224,0,64246,37872,40839,36189,37490,0,40841,0,0,0,0,0,40849,0,40842,0,0,0,0,64248,37311,0,35714,40850,0,0,0,0,0,0,35976,0,0,35652,40848,0],[0,40846,40843,38784,0,0,64247,0,37566,0,0,0,37847,40844,0,0,40852,0,40851,35906,0,0,35243,0,0,36281,40845,40847,0,0,0,0,0,38518,37362,0,0,0,0,0,0,0,0,38551,0,0,40860,0,0,40861,0,35277,0,0,0,0,38310,38651,40863,36513,36800,40856,40862,35208],[0,35765,0,0,40853,40858,0,0,0,37106,38033,0,38117,0,0,0,0,0,0,40855,0,38464,0,40857,0,40866,64249,40864,0,40859,0,0,0,38465,37991,35715,0,37700,0,0,37517,0,40867,0,0,0,0,40865,37335,40854,0,35178,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,64250,0,0,0,0,0,0,38765,40878,0,0,0,0,0,40877,0,0,0,0,37108,0,40874,0,38796,0,0,37812,40868,0,0,0,0,0,37571,0,0,0,35179,36190,40871,0,0,0,0,0,0,36678,40876,0,40875,40870,0,40873,0,0,35464,0,40872,37992,0],[0,38828,0,0,36850,37107,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,40884,40882,0,38252,0,0,0,0,0,0,40879,40881,0,35161,0,0,36191,38993,0,35420,0,38274,64252,0,0,0,0,38785,0,0,35395,36954,40883,0,0,0,0,0,0],[0,0,0,0,0,40888,0,64251,36801,0,0,0,38735,0,40885,0,0,0,0,40880,0,40886,64320,0,0,38876,0,37779,37824,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64321,0,0,35413,0,0,35188,0,0,40892,0,0,40895,0,0,0,38849,0,0,0],
    [38788,0,0,0,0,40902,40896,40893,0,0,0,38866,40899,0,0,64322,0,36713,40901,0,0,40906,0,0,37777,40904,0,0,0,0,40898,0,0,37463,0,0,40905,0,40894,0,40900,0,40907,35066,40897,0,40908,0,0,36955,64324,36734,0,38307,0,36268,64323,40889,40903,37721,64325,0,0,0],[0,0,0,0,0,37044,0,35465,36303,36802,40891,36705,0,0,0,0,0,0,0,35947,0,40890,0,0,0,40912,36749,36024,0,40927,0,40921,35732,37742,0,40916,40925,34989,35153,64328,0,35255,0,40918,37290,40909,40911,36192,0,0,0,0,0,0,0,0,40928,64326,40923,0,64329,0,40915,0],[0,0,0,40922,0,0,0,0,0,0,38569,0,0,40920,40924,0,0,0,0,0,0,0,36046,0,36803,0,0,37464,64327,0,0,40914,0,0,0,0,0,0,0,38734,0,0,0,40917,0,0,40910,37778,0,0,40913,0,0,0,40919,0,0,0,0,0,0,0,39024,36540],[38558,0,40929,0,0,0,0,0,0,0,0,0,38060,0,0,40941,36025,0,0,0,0,0,36736,0,40931,0,0,0,38829,36193,0,40944,0,0,35052,0,0,40942,0,0,0,0,40930,0,0,0,0,40936,0,0,40938,0,0,0,38766,40933,0,0,37709,0,0,40935,0,64330],[0,0,40943,0,40937,38597,0,0,0,40932,0,36512,40956,0,0,0,0,35466,0,40934,40939,40940,0,0,0,0,0,0,0,37354,37336,0,0,0,0,0,0,0,0,0,0,0,0,0,40948,0,0,40954,0,0,40952,0,37704,0,0,57410,40949,0,0,0,0,0,40950,40926],[0,35737,38233,0,0,0,36541,0,0,36247,0,0,0,0,0,38994,0,40946,0,57409,35209,37254,0,0,0,0,0,0,0,0,0,0,38041,0,35519,38904,0,0,0,0,0,0,0,38559,37584,0,0,0,0,40953,40955,0,0,0,0,0,37201,0,0,0,0,0,57408,40951],[0,40945,0,0,0,35521,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35977,0,0,0,57422,0,0,57417,37110,0,0,35459,0,0,0,0,36737,0,57426,0,0,0,0,0,0,57419,37546,57416,37591,0,0,0,57451,0,0,0,57413,0,57412,0,57421,0,0,0],[57415,57414,57420,0,37023,0,57411,0,64331,0,0,0,0,0,57423,0,0,57424,0,0,0,0,0,35520,0,0,0,0,0,0,0,0,0,57429,0,57428,57430,0,0,0,0,0,57433,0,0,0,0,0,0,37730,0,57427,0,64332,0,0,0,57431,0,0,0,0,0,0],[35971,37367,57425,37978,0,0,57432,0,0,0,0,0,0,0,0,0,0,0,0,0,57437,57435,0,0,57438,0,0,57441,0,0,0,57434,36234,37959,0,0,40887,0,0,0,0,0,0,38804,57436,0,57440,37363,0,57439,0,57418,0,64333,59529,0,0,0,57444,0,0,0,57448,0],[0,57446,0,0,0,64334,0,64335,0,57442,0,57443,0,0,0,57447,0,57445,0,0,0,38253,0,0,57453,0,57450,57449,0,57452,37842,57454,0,0,0,0,0,0,37525,37355,64336,0,0,0,37027,0,0,0,57455,0,57457,0,0,0,0,0,0,0,0,0,0,0,57456,0],[0,0,0,0,0,0,0,0,0,0,0,0,40947,0,0,0,0,57458,0,0,0,0,0,0,37861,0,0,0,0,0,0,0,0,0,0,57459,0,0,0,0,0,0,0,35278,0,0,0,37780,35396,0,0,0,0,0,0,0,35716,0,0,0,36572,36304,0,0],[0,0,0,0,0,64337,0,0,0,38982,36998,0,0,0,35210,0,0,0,57461,0,0,0,0,0,0,57460,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64338,57464,37465,57467,57462,0,0,0,57466,0,0,0,0,57465,37727,35031,64098,0,0,0,0],[0,0,0,0,0,0,0,0,38899,0,0,57469,0,0,0,35143,0,0,0,0,0,0,0,0,0,57472,0,0,0,57470,0,57468,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57463,0,0,0,0,0,0,0,38466,0,0,0,57474,0,0],[0,0,0,0,64340,0,0,0,0,57473,0,0,0,0,0,64339,0,0,0,0,35211,0,0,0,0,57476,38320,0,57475,0,0,0,0,38579,0,0,0,0,36805,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37202,0,0,0,0,0,36804,0,0,0],[0,0,0,0,0,0,64342,64343,0,38905,0,0,57482,0,37111,0,0,0,0,0,0,57478,57483,0,0,35212,0,0,64341,0,0,0,0,0,57481,0,38017,57477,57480,36806,0,38095,0,0,57484,0,36559,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37112,0,0],[0,0,0,0,57487,0,0,0,57479,0,35910,0,0,0,0,57485,0,0,0,0,38767,57488,0,0,0,60068,0,0,0,0,0,36718,0,0,0,0,0,0,0,0,57489,0,0,0,57490,0,0,0,0,37965,0,0,0,0,0,0,0,57492,0,0,0,0,57493,0],
    [0,64345,0,37970,0,0,0,0,37781,57495,0,0,0,0,57497,0,38867,0,57494,0,57496,35213,0,57491,0,0,0,0,0,0,0,39546,57498,0,0,0,0,37255,36439,57500,0,0,0,0,57499,36931,39383,0,0,0,0,0,0,57501,0,0,0,57503,0,57486,57502,0,64346,57504],[0,0,0,0,0,0,38042,0,0,0,0,0,0,57505,0,0,57506,0,0,0,0,0,0,0,0,0,0,57507,0,0,0,0,0,0,0,0,0,0,0,0,57508,0,37596,0,57510,57509,0,0,57511,0,57512,0,0,36573,38275,0,0,0,38634,57513,57514,37237,36514,57515],[57516,0,0,0,0,0,57517,38352,38085,0,0,57518,38006,0,0,0,0,0,37547,0,0,0,0,0,57519,35301,0,35725,0,38596,0,38580,0,35250,38995,0,0,0,0,38513,0,38312,0,0,0,0,0,0,0,0,37045,0,57520,0,0,0,0,37825,0,0,0,36001,57521,0],[36306,57523,57522,0,0,0,0,57524,0,0,0,0,0,0,0,0,0,0,57525,0,0,0,57526,0,0,0,0,0,0,0,0,0,35677,0,57527,0,0,0,0,57528,0,0,0,0,36002,0,0,38086,0,64347,57530,0,0,0,36851,0,0,57529,0,0,0,0,64348,0],[0,0,35766,57531,57533,0,57532,0,0,0,0,0,0,0,57534,0,36047,0,57535,0,0,0,0,35815,0,37215,0,36253,0,0,0,0,57537,57538,57536,0,0,0,0,0,0,36587,0,0,37830,35767,0,0,0,0,0,0,0,0,0,57540,37451,57539,0,0,38996,38018,0,0],[0,0,0,0,0,0,0,0,0,0,57543,0,0,0,0,0,0,0,0,0,0,0,57545,57542,0,0,0,38610,57544,57546,0,38850,0,0,0,0,64349,57550,0,0,0,57549,37526,37964,0,0,36003,57548,0,0,0,0,57547,0,38736,38737,0,0,0,0,0,0,57551,35214],[0,0,0,0,36246,36482,0,0,0,0,0,0,0,0,57552,57553,0,0,0,0,0,0,0,57555,0,0,0,0,0,0,0,0,0,0,0,36706,0,0,0,0,57557,0,57556,0,0,0,0,0,57558,0,35436,0,0,57560,0,64351,57559,0,57562,57561,0,0,0,0],[0,0,0,0,36026,0,0,38822,0,35786,0,35236,0,0,0,0,0,0,0,0,0,0,35816,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35551,0,0,0,0,0,0,0,0,38886,57564,0,0,0,0,0,0,0,57566,0,64352,0,0],[57567,0,35279,0,0,0,0,0,57563,64353,36440,0,0,37567,57565,0,0,0,64356,0,0,0,64354,0,0,0,0,0,0,0,57570,0,36588,0,0,64355,0,57568,0,0,0,0,35933,0,0,38087,57569,0,0,57596,0,0,0,64358,0,0,57575,0,0,0,0,0,36027,0],[0,0,0,35717,0,57572,38813,64357,0,38830,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37364,0,0,57574,64359,0,0,64361,64360,0,0,0,64362,0,0,0,57576,38868,35797,38138,37993,0,0,0,57577,0,0,0,0,57579],[0,57582,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57578,0,0,0,57581,36072,35180,57583,0,37008,57580,38874,0,64363,57586,60066,0,0,0,0,57584,57587,0,0,0,0,57573,57585,0,0,36282,0,0,57588,0,0,0,0,0,0,0,57589,0],[0,0,0,38814,0,0,0,0,0,64364,0,57590,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57591,64365,0,0,57571,0,0,0,0,57592,0,0,0,0,0,0,0,0,35522,0,0,0,0,0,0,0,0,0,0,0,0,36515,0,0],[0,0,0,0,0,0,0,0,0,0,57593,0,0,0,0,57594,0,0,0,0,57595,0,0,0,0,0,0,0,35162,0,0,0,57664,0,38234,57665,0,0,35490,57666,0,57667,0,0,0,0,57668,0,57670,57671,57669,0,0,0,38258,57673,57672,0,0,0,0,0,0,0],[0,64366,0,57675,57674,57676,0,0,0,0,0,0,57677,57679,57678,0,0,36249,0,57681,0,57680,0,0,35523,0,36978,0,37723,0,57682,37046,0,0,0,36441,0,35225,57683,0,38768,0,0,38369,57684,0,0,64168,37731,38738,36194,36956,0,0,0,37482,39346,0,37548,35302,57685,0,0,0],[0,0,0,0,57686,0,57691,0,0,57689,57688,40384,35397,57687,0,35032,0,38056,0,0,38088,0,0,0,0,38831,57692,57690,37499,37028,0,0,38057,0,38220,0,57694,38826,35948,57695,0,57693,38100,57696,0,57697,0,64367,35033,0,0,36852,57702,0,57699,37867,57698,0,0,0,0,0,0,35653],[0,0,57705,0,0,0,57700,57701,0,57704,57703,38212,0,0,37217,37216,0,35678,0,0,57706,0,0,0,0,0,57707,0,0,57708,0,0,0,0,0,57710,0,57709,0,0,0,0,0,35189,0,0,0,0,0,57718,38118,57712,0,57714,0,0,57716,36957,0,0,57717,57715,36542,0],
    [0,0,57711,57713,0,38241,0,36807,0,0,57720,0,0,57719,0,0,0,0,57721,0,36516,36269,0,0,37783,57722,0,37577,0,0,57724,0,0,0,38815,57723,0,0,0,0,0,37257,0,0,0,0,0,0,57730,0,57732,57733,37491,0,0,0,0,0,57731,0,57728,0,57725,57726],[0,57729,0,0,0,0,0,0,0,57736,0,57734,0,57735,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57737,57739,57740,57741,0,57742,0,0,57738,0,0,0,0,0,0,0,0,57744,0,0,0,57743,0,0,0,0,0,0,57745,0,0,0,0],[0,0,38851,0,0,0,57748,57746,57747,0,0,0,35552,0,0,0,0,0,38652,0,0,0,38344,0,57750,0,0,0,57749,0,0,0,0,57751,57752,0,0,0,0,57756,57753,57754,57755,0,57757,0,0,0,57758,0,57759,0,0,0,57760,0,57761,0,38061,37743,57762,38034,38227,0],[57763,0,64368,57764,37705,0,35398,36195,57765,0,0,57766,0,0,57767,0,36424,0,0,57769,0,0,57768,0,0,57770,57771,64371,64369,0,64370,0,0,0,0,0,0,0,64372,0,0,0,0,0,0,0,38119,0,57772,0,0,0,57773,0,0,60041,57774,57775,57776,0,0,0,0,36429],[0,0,57777,38005,0,0,38526,0,35181,0,35190,0,0,57778,0,0,0,0,57780,0,0,0,57779,37776,0,0,0,37047,40792,0,57781,38591,0,57782,0,35524,38101,57783,0,57784,0,0,57785,0,0,0,38618,0,0,0,38611,0,37564,0,0,0,37258,0,0,57787,0,0,36738,0],[0,36808,0,0,57790,0,0,57789,57788,38139,0,35525,36007,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57796,0,0,57793,36958,38576,0,0,0,57792,57794,57795,0,0,57791,0,0,0,0,0,0,0,0,0,0,0,0,0,57797,57798,0,37549,0,35553,0,0,0],[37509,0,0,0,0,0,64374,57799,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57800,57803,0,0,0,0,0,36999,0,37826,0,57804,38514,0,57801,0,0,57802,0,0,0,0,0,0,0,0,0,0,0,0,0,57807,0,0,0,0,57806,57805],[0,0,0,0,0,0,0,0,0,0,0,57809,0,0,57808,0,0,57810,0,0,0,0,0,0,0,0,0,0,0,0,57812,0,57811,0,0,0,0,38347,0,0,0,0,0,0,36725,38852,0,0,57813,0,0,37813,0,0,57814,0,0,57815,0,57819,57817,57818,0,57816],[0,0,0,0,0,0,0,57820,0,0,0,0,0,57821,0,0,0,0,0,0,0,0,0,57822,0,0,57823,38581,57824,0,0,0,0,0,38638,57825,0,37485,0,38026,0,35817,0,0,0,37466,57826,35768,0,0,0,37070,0,0,0,0,0,0,0,0,57827,0,0,0],[0,0,36283,0,0,0,0,0,0,0,0,0,57828,0,0,0,0,0,57829,0,36004,36307,0,0,0,0,0,0,0,0,0,0,57831,64376,0,0,0,37749,36308,35693,0,0,0,0,0,0,0,0,0,0,38467,0,37994,0,0,0,0,0,37750,0,0,0,0,36219],[0,0,0,0,0,57833,0,0,0,0,0,0,0,0,64377,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36809,0,0,0,0,0,0,64378,0,0,0,0,0,0,38832,36196,0,0,36005,0,0,38049,0,57835,0,0,0,0,0,64379,0,57837,0,0,0],[0,36073,0,0,0,0,57836,37620,0,0,0,0,57839,35414,57834,0,0,38120,0,35151,0,36330,0,39025,0,0,57838,0,0,0,0,0,0,0,0,57840,0,0,0,38345,0,37079,57842,0,0,0,0,57843,0,0,0,0,0,57841,0,0,0,0,35437,0,57849,0,57848,0],[0,36517,0,0,0,57850,57845,0,0,0,57851,57846,0,0,0,0,38102,57844,0,0,57847,0,0,0,0,0,57921,0,0,0,0,0,0,0,0,0,0,0,0,57920,38529,0,0,0,57852,0,0,35049,0,0,0,0,57923,0,0,0,0,0,0,0,0,57922,0,0],[0,36810,0,0,0,0,0,57924,0,0,0,0,0,0,37218,0,0,57926,57925,0,0,0,0,0,0,57927,0,0,0,0,0,0,0,0,0,0,0,0,57830,0,0,0,57832,57929,57928,0,0,0,64380,0,0,0,0,0,0,0,0,0,36518,0,38887,0,36560,0],[57930,35926,0,0,0,0,0,35679,35654,36483,0,0,0,0,0,0,38739,0,0,57936,0,57935,37219,57932,0,0,57934,0,0,36714,36959,57933,57931,0,37961,0,0,36811,0,0,38235,0,0,0,0,36309,0,0,0,0,0,0,0,0,0,37784,0,0,57937,0,0,0,0,57938],[57960,35798,0,0,39004,37204,0,0,0,0,57939,0,0,35280,37621,38303,0,0,0,0,64385,0,0,0,0,0,0,64387,0,57940,0,0,0,0,0,0,0,0,35738,57941,0,0,57943,0,0,0,57944,0,37960,0,0,57945,0,0,0,0,0,57946,57947,0,0,35799,35281,37827],
    [36679,36484,0,0,0,0,0,0,0,57948,0,36680,0,0,0,0,0,35272,38242,0,0,57949,0,0,38121,0,0,0,0,0,0,37220,0,57952,0,57953,38025,0,36960,57950,0,37505,0,0,57951,0,0,0,36812,0,0,0,0,0,0,0,0,0,0,35034,0,0,0,0],[35656,0,0,0,0,0,0,0,57954,0,0,37622,0,57955,37061,0,0,0,0,0,38571,0,0,38210,57956,57957,37492,0,38853,0,0,57959,57958,0,0,0,0,0,0,0,0,0,0,0,0,0,36589,0,0,57961,35054,0,0,0,0,57964,0,0,0,57962,35282,35949,57963,36197],[36242,0,38372,57965,0,0,38515,0,0,57967,0,0,0,37071,35182,35256,34986,0,0,0,0,0,0,57966,0,0,0,0,0,0,0,0,0,57968,57969,36853,0,0,0,0,0,57970,0,35438,0,0,0,0,57972,0,0,0,35978,0,35718,0,0,57973,35827,0,0,57974,0,37114],[0,37835,0,37086,36339,0,0,0,57975,0,0,0,0,0,0,0,0,0,37506,37259,0,57977,57979,57976,57978,0,0,0,0,0,0,35905,0,0,0,0,0,0,0,0,0,57980,35909,0,0,0,35719,38769,57982,0,0,0,0,0,57984,0,0,0,35149,0,0,0,0,57987],[0,0,0,35478,57986,57985,0,57989,57981,0,57990,38823,0,57991,0,57992,0,64388,39666,57994,0,57993,0,0,0,57995,57996,0,38835,57997,0,59629,36813,57998,57999,36726,0,37814,58000,64389,0,0,37447,64391,0,58001,0,37467,58002,0,0,0,0,0,35747,0,39262,37500,36529,0,0,0,0,35526],[0,0,58003,0,58016,0,58006,0,35720,0,58005,58018,0,0,0,58004,0,36814,0,0,0,0,0,0,58008,58009,0,37706,0,0,58010,0,35453,0,0,0,0,36985,38276,0,58012,0,0,0,37350,0,0,0,0,0,0,58007,0,58011,58013,0,0,36345,0,0,0,0,0,0],[0,0,0,0,0,58020,38221,0,38052,37785,0,35800,58019,58017,0,38067,58014,37501,37787,0,37786,0,36340,0,0,0,0,0,0,58038,0,0,0,0,0,0,0,58022,0,58024,0,0,0,0,58027,0,58028,0,58025,58026,0,0,58023,58021,0,0,0,0,58015,0,0,0,0,0],[0,0,0,0,0,0,38349,35283,0,0,0,58035,0,58032,0,58037,0,0,58036,0,38035,38565,0,36442,58030,58039,58034,0,58033,58029,64392,58031,0,35527,0,0,0,0,0,0,0,0,37468,0,0,37115,0,0,0,38048,0,0,58044,0,0,0,38050,0,0,0,0,0,0,0],[37087,58041,0,0,38093,0,58045,38353,0,37498,0,58040,58042,0,0,58043,0,0,0,0,0,0,0,0,0,0,0,0,0,58046,0,0,36546,0,0,0,37828,58051,58050,0,0,58047,0,0,0,38997,0,0,0,0,0,58056,0,0,58060,58057,0,0,0,0,0,0,0,0],[58053,0,0,0,0,0,0,58054,0,0,0,0,0,58059,0,0,0,58048,39379,58055,58049,0,0,58058,0,0,0,0,0,0,0,58064,0,35528,0,58061,0,0,0,58062,0,0,58063,58066,0,0,0,0,0,0,0,0,0,0,0,58065,38132,0,0,0,0,58067,38906,38379],[58072,0,0,58069,0,0,0,0,0,0,0,0,58068,37072,0,58071,58073,0,0,0,58070,0,58077,0,58074,0,0,0,0,0,0,58075,58052,0,0,0,58076,58078,0,0,0,0,0,0,58079,0,0,0,0,0,0,38340,0,58080,0,0,0,0,0,0,0,0,38624,0],[0,35788,35912,58081,0,0,0,0,0,38322,0,37000,0,38574,0,0,58082,0,38833,0,0,38036,0,37221,37971,0,0,36716,0,0,0,35006,0,58087,58085,0,58083,35487,0,36815,58088,0,0,58086,0,58084,58092,0,0,58091,58090,58089,0,0,0,0,0,58093,0,0,0,58094,37048,0],[58095,0,58097,0,0,58096,0,0,0,0,36048,0,0,0,37207,0,0,0,58099,0,0,0,37788,0,58098,0,0,0,58100,0,38323,37260,36198,0,58101,0,0,0,0,38854,0,0,0,0,0,0,0,58103,0,0,58104,0,58105,0,58106,0,36485,0,58107,35950,0,0,35722,0],[35657,0,58176,0,38641,36199,58108,0,0,0,58179,38628,0,37979,0,0,38226,0,0,0,36739,58178,0,36561,36200,36486,35721,38324,58177,0,0,0,37222,38497,36341,0,0,0,0,0,0,0,0,36487,37595,0,58182,38877,36311,0,58183,36961,0,58185,0,0,0,36816,36270,0,0,0,0,58184],[0,0,36681,36028,37223,58180,58186,0,64394,0,0,58181,35951,0,58189,58193,35979,0,0,0,0,0,58188,0,0,0,0,58197,64395,0,36201,0,0,38797,35002,58194,0,0,35723,0,58191,0,0,0,0,0,58192,0,0,37789,58190,58187,0,35399,37090,0,0,36006,0,0,0,58199,0,0],[0,0,0,0,0,0,0,0,0,58196,0,0,0,0,0,58198,0,0,0,58195,0,0,0,0,0,35952,37297,58200,37262,0,0,58213,64397,0,58209,58203,0,0,0,0,0,0,0,58207,36600,35035,58202,58210,58214,36202,38612,0,37588,58204,0,64396,58212,0,58201,37469,0,58206,35003,38600],
    [0,0,0,0,0,0,0,58205,0,0,35801,38122,0,0,0,37261,0,38862,36751,0,0,58254,64398,0,58215,0,37116,0,58211,58216,58218,0,37623,58221,0,0,58217,0,0,0,38354,35529,0,0,38601,0,0,35036,0,0,58220,0,38907,0,0,0,0,0,0,58219,0,0,0,0],[0,35215,0,0,37866,58222,0,0,0,58229,58223,58230,0,0,0,0,0,0,58226,0,0,0,0,0,0,0,0,38043,0,0,36552,58228,0,58225,58231,58224,0,0,36707,0,0,0,0,38468,0,0,36715,0,0,58227,58240,0,0,58235,0,58238,0,58236,58241,58234,0,58208,37073,0],[0,38089,0,58237,0,0,58232,0,0,0,37184,35953,0,36682,0,0,0,0,64399,0,36932,37205,58244,0,0,58246,58247,0,0,58243,58245,0,0,0,0,0,0,0,58233,58242,0,58250,58249,0,0,38554,0,0,35914,0,0,0,0,0,0,0,0,58248,0,58252,58251,58255,0,58257],[0,0,36443,58253,0,0,0,0,58258,58259,64092,0,58260,0,58266,37722,58262,0,58261,58263,58264,0,58265,0,0,0,0,58267,58268,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35530,0,58269,0,58270,0,0,0,0,0],[0,0,0,0,0,58271,0,64400,0,0,0,0,58272,58273,58274,0,58275,58276,0,0,58278,58277,0,0,58279,0,0,0,0,0,0,58280,58281,0,0,0,0,0,0,58284,58282,58283,36319,35954,0,0,37493,0,38065,0,36752,0,0,37996,0,38123,58285,40171,0,0,0,0,0,0],[0,0,58286,58288,0,38789,58287,58290,58289,0,38770,0,58291,0,38140,0,0,0,0,0,58292,0,0,0,0,0,58295,0,0,58294,58293,0,0,64401,0,58296,35921,0,0,0,37185,35680,0,0,0,0,58300,58297,0,0,58298,0,0,0,58301,0,58302,58299,0,0,0,35144,0,0],[0,35237,0,0,0,58304,58305,0,0,0,58306,0,38786,0,0,0,0,0,36683,0,58308,58307,0,0,0,0,0,0,0,0,0,0,37001,58309,0,0,0,0,58310,0,0,58311,0,35555,0,0,0,0,35531,0,0,58312,0,0,0,0,0,58313,0,38524,38787,0,0,0],[38771,38998,0,36204,58316,36562,58315,0,0,0,0,58317,36519,0,0,0,37327,0,58318,0,0,36203,0,38613,58319,58320,0,0,58321,0,0,0,0,58322,0,0,0,0,0,0,58323,0,0,0,0,0,0,0,0,0,0,36520,0,0,38635,0,0,0,0,58325,0,37470,0,58324],[0,0,0,0,0,0,58327,0,0,0,58326,0,0,0,0,0,0,0,58328,0,0,0,37049,0,58329,0,58330,0,0,0,38327,58331,0,37263,58332,0,0,0,0,0,58333,0,0,0,0,0,0,38908,58336,0,58335,58334,37550,0,58337,36933,0,58338,0,0,0,58339,38999,58340],[0,0,0,0,58341,58343,58342,38051,0,37879,0,39005,38055,0,0,0,0,0,0,58345,0,0,36817,0,38217,0,58346,58344,0,35532,0,0,0,36050,36488,0,0,38124,0,0,0,36008,38498,0,58349,58347,0,36205,0,36206,35047,0,36326,0,0,0,0,0,38008,0,0,0,0,0],[0,0,0,35037,58354,0,37471,0,0,0,0,0,38007,0,37337,0,0,0,0,0,0,0,58356,0,0,58352,58355,58350,0,58353,38469,0,0,36051,0,0,35067,58351,0,0,0,0,0,0,0,0,0,58358,0,58359,0,0,37815,0,0,0,35769,0,0,0,58437,37980,0,0],[0,0,36489,0,0,35770,37062,39013,38572,58357,37074,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35698,58360,0,0,0,0,0,0,0,58362,0,0,0,0,0,58361,0,0,0,0,0,58363,0,37445,0,37981,0,0,0,0,0,37551,0,0,0,0,58434,0],[0,0,0,0,0,0,58433,0,0,0,0,58364,0,0,36980,0,38277,58436,0,58435,36207,39026,0,0,0,0,0,0,0,0,0,58452,0,0,0,0,0,58440,58441,0,0,0,0,36590,0,0,58439,0,36248,58438,0,0,58442,0,0,0,37552,38304,37186,0,0,0,0,37338],[58446,0,58447,58443,0,0,0,0,58444,0,58445,0,0,0,0,36208,0,0,0,58453,0,58449,0,0,0,0,38278,0,38540,38215,0,0,58448,0,0,58451,58450,0,0,0,38499,58454,0,0,0,0,0,0,58455,0,0,37206,0,58456,0,0,58458,0,58462,0,0,58459,58457,37982],[58460,0,58461,0,0,0,35248,0,58468,58463,0,0,0,58464,0,0,0,58465,0,37279,0,0,0,0,58467,58466,58469,0,0,0,0,58470,58471,0,0,36962,0,35303,0,58472,38869,0,36521,0,0,36684,0,0,0,0,0,36490,37494,0,0,0,0,0,58473,58474,35152,0,58475,0],
    [0,58476,58477,0,0,58478,0,58479,35771,40360,58480,0,37091,58481,36553,0,58482,0,39086,0,0,0,58483,38364,35546,0,0,37187,36727,0,38289,36685,0,0,0,0,0,0,0,0,0,58484,36209,58485,38090,0,58500,0,0,0,0,58487,0,37319,38037,36029,58486,37188,0,0,0,0,0,0],[58488,0,0,0,0,0,0,37624,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,58490,58489,58492,0,0,58491,0,58493,0,0,58496,0,58494,0,35533,0,58497,0,58498,58499,0,0,36271,38855,0,58501,36934,0,0,0,35216,58502,58503,0,0,0,0,0,58504,0],[0,0,0,0,0,0,0,0,0,0,0,35056,0,58505,0,0,0,0,58506,0,0,0,0,0,0,38279,0,0,0,36549,0,58508,0,0,0,0,0,35400,34992,0,0,0,0,58507,58510,37997,0,36963,0,35284,0,38470,0,0,0,0,35964,35802,0,58509,0,35304,0,0],[0,0,0,0,0,35489,0,0,0,0,0,0,0,0,0,0,0,35217,58514,38888,37339,0,0,38243,0,58526,0,35285,58524,0,58522,58513,0,58511,0,58512,0,36577,35818,37527,0,0,0,37839,0,0,0,0,0,35184,0,58516,58515,0,0,0,0,58521,58517,58520,0,0,0,0],[0,64403,38606,58519,35286,35485,58523,0,0,58525,0,0,0,0,35955,0,0,0,0,0,0,0,58529,58538,58539,0,0,0,34985,0,0,0,0,0,0,58546,0,0,0,0,35055,0,0,58537,0,0,0,58536,0,58531,58530,0,58528,58527,37507,0,37369,58533,0,0,0,0,0,0],[58532,0,0,0,0,58535,0,0,0,37264,35956,0,0,0,0,35168,58534,0,36210,0,0,0,0,0,37265,0,0,0,0,0,0,0,0,0,64404,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,58552,0,58553,0,35287,0,0,0,35244,58550,0,0,64405],[0,0,0,0,0,58540,0,58548,0,58555,58549,0,0,0,58547,0,0,0,0,58518,0,0,58545,0,0,0,58541,0,0,0,35534,58543,58554,0,58544,0,0,0,0,0,58556,0,58542,38044,0,0,0,0,0,38793,0,0,0,58551,0,0,0,0,0,0,0,58573,0,0],[0,58565,0,0,0,37019,0,64406,0,0,35685,0,35803,0,58560,0,0,0,0,35289,0,0,36818,0,58563,0,0,0,36312,0,0,37744,58568,0,0,0,0,0,0,0,0,38380,0,58559,0,0,0,35288,36052,38216,58569,0,58557,0,64407,58566,0,0,0,58576,0,58561,0,0],[0,0,0,58562,37816,0,0,58567,0,0,0,58564,38471,58570,35038,0,0,0,0,58558,0,0,0,0,0,0,0,0,0,0,0,0,58572,0,58571,0,0,0,0,0,0,38027,58578,0,58589,0,0,0,0,35486,0,0,0,58592,0,0,58574,0,0,0,58579,38798,0,0],[0,0,0,0,0,0,58588,0,64408,38772,0,0,0,0,38824,0,0,0,0,0,0,0,0,37528,0,0,0,35467,0,0,0,0,0,38290,58594,37791,0,0,34991,0,0,58587,0,58583,37266,58577,58585,58590,0,37963,0,0,0,34984,0,58582,0,58591,38296,0,0,0,0,0],[0,0,58586,0,58581,0,0,0,0,0,0,36819,0,0,0,0,36686,0,0,0,36522,0,0,0,0,38614,0,0,38246,0,0,58597,0,58606,0,0,0,0,0,0,0,0,0,0,0,58584,0,0,0,0,35479,0,64409,0,0,0,36854,58595,0,58600,37267,0,0,58596],[0,58603,0,0,37502,0,58604,0,0,38773,58593,35415,0,58599,0,0,58602,38570,0,0,0,0,58605,0,0,58598,58601,0,64096,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38472,0,38976,0,0,0,0,0,58609,0,0,0,0,0,0,0,58616,0,0,58608],[36545,0,0,0,0,0,58575,0,0,0,0,0,0,0,0,0,0,38348,0,38560,58615,58614,0,58610,58611,0,35157,0,0,0,0,58613,0,58607,0,0,0,0,37587,0,0,0,0,0,58612,35068,0,0,0,0,0,0,0,37280,0,0,0,0,0,0,0,38337,0,0],[58617,58688,0,38103,0,0,0,0,58620,36820,36551,58690,0,0,35772,0,0,0,0,64410,0,58691,0,38297,58619,64411,58580,0,0,0,0,0,0,0,0,58618,0,0,0,0,39022,37792,38291,64412,0,58698,0,0,0,0,0,0,0,0,0,58704,0,0,0,0,0,0,58705,0],[58692,0,0,0,38038,0,0,58702,58694,0,58696,0,0,0,0,0,58706,58695,0,0,58699,0,0,35218,0,37859,0,58700,58703,0,0,0,0,0,0,0,58693,0,37189,0,58697,36422,36964,35919,38642,0,38647,36754,64414,0,0,0,0,0,0,0,0,58710,58708,0,0,0,0,0],[0,39021,0,0,0,0,0,0,0,58707,0,0,0,38805,0,58709,58711,0,0,0,0,58712,0,0,0,0,0,0,58715,58713,0,0,0,0,0,0,37793,58714,0,0,0,38091,58701,0,0,0,0,0,0,0,0,0,0,0,0,36755,0,58716,58721,37268,0,0,58720,0],
    [0,0,58689,0,0,0,58722,37224,0,0,58717,58719,0,0,0,0,0,0,0,58718,0,0,40784,40769,0,0,58724,0,0,0,0,0,0,0,58723,0,0,0,0,0,0,0,0,0,0,38806,0,57786,58725,0,0,0,0,0,0,0,0,0,0,0,0,0,0,58726],[0,0,0,0,0,0,0,0,0,0,0,0,0,58727,36053,0,35699,0,0,0,58729,39292,0,0,0,0,35733,0,38840,0,35825,58730,0,0,0,0,0,0,0,58731,0,0,0,37518,0,0,0,0,0,58732,0,0,0,0,0,0,0,37880,0,35000,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,35297,58737,58738,0,0,0,0,0,0,58733,0,36444,0,0,0,0,0,0,0,0,0,0,0,0,0,58734,37985,0,0,0,0,58735,58736,58746,0,0,0,58740,58743,0,0,0,0,0,58739,0,0,0,0,0,0,0,0,0],[0,0,0,0,58741,0,58742,36566,0,58744,0,37472,0,35957,35425,0,0,0,0,0,58747,0,0,0,0,35422,0,58753,0,0,58748,58752,0,0,0,0,38072,0,0,0,0,58749,0,0,58750,38247,38104,58754,0,0,0,0,0,0,0,0,37371,58764,0,58760,0,0,35305,0],[58758,0,38473,58759,0,0,58756,0,58757,58762,58765,0,0,58763,0,0,0,58761,58755,0,0,0,0,0,37495,0,58772,0,38568,0,0,0,0,0,0,0,0,58770,0,0,0,58771,0,0,0,0,0,0,0,0,0,0,58766,0,0,58768,0,0,0,58769,0,0,0,58767],[0,0,0,0,0,0,0,0,0,37092,0,39000,58776,0,58777,0,0,0,0,58783,0,36937,0,58779,0,58782,0,0,0,0,0,58774,58773,0,0,58784,0,0,35290,0,58780,0,58785,0,0,0,58781,0,0,0,0,0,58778,0,37553,0,58775,0,0,0,0,0,0,38024],[0,0,58789,0,0,0,0,0,0,0,0,0,0,38746,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,58788,0,0,58787,0,0,0,0,0,0,0,0,58796,0,0,0,58790,0,0,0,58798,0,0,0,0,0,0,38790,58801,0,58792,0,0],[58793,0,0,0,58797,0,58800,58799,0,0,0,58791,0,0,0,0,58794,0,58811,0,0,0,0,0,0,0,0,0,0,0,0,0,58804,0,0,0,0,0,0,0,0,0,0,0,0,0,0,58802,0,0,58803,0,0,0,58808,58809,0,35401,0,35681,0,0,58807,0],[0,0,0,0,0,58786,0,64417,0,0,0,0,0,58806,58810,58805,0,58812,0,0,0,58814,58813,0,0,0,0,0,0,0,0,0,0,58816,58815,58745,0,0,0,58820,0,0,0,0,0,0,0,0,0,58817,0,0,0,0,58818,0,0,58819,0,58821,0,0,0,0],[35980,0,58823,0,58822,0,36687,0,0,0,0,0,36211,40869,0,0,0,0,58824,36720,0,0,0,35416,0,58825,0,35185,0,36821,58826,0,0,36212,58827,35039,0,0,0,0,38236,0,0,58828,0,0,0,0,37002,0,58835,0,0,58832,0,37519,0,0,0,0,0,58833,58830,35804],[0,58829,58836,0,0,0,0,0,35925,0,0,37340,0,58842,0,0,0,0,58838,0,0,0,37299,58837,0,58840,0,0,0,0,58831,0,0,0,58841,0,58843,0,0,0,0,0,0,38125,0,0,58839,0,58844,58846,0,0,36049,58834,0,35007,0,0,0,0,0,0,0,58845],[0,36313,38900,58847,58848,37269,0,0,0,0,0,0,0,0,0,38816,0,0,0,0,58849,38740,0,0,58850,58851,0,0,38370,58852,0,36286,0,38817,0,0,0,0,0,0,58857,0,0,0,0,0,0,0,0,0,58858,36822,58856,64418,0,0,38791,58853,0,0,58855,37051,37022,0],[0,0,58854,0,58859,0,0,38305,0,0,58861,0,58860,0,0,0,35468,0,38474,58862,0,0,0,0,0,0,0,0,64093,58874,58864,0,0,0,0,0,0,58865,0,0,0,0,58866,58867,0,0,0,0,0,0,0,0,0,0,58871,0,58872,0,0,58870,0,0,0,0],[0,58868,0,58863,58869,0,0,0,0,0,0,0,58873,59573,0,0,0,0,0,0,0,0,35238,0,0,0,0,0,0,0,58876,35805,58875,0,0,0,58945,0,58944,0,0,0,58947,0,0,58946,0,58948,0,0,36688,0,58949,0,0,58950,0,0,0,0,0,0,58951,37052],[0,38774,0,58952,0,0,38306,37989,58953,0,58954,36009,0,0,0,35659,0,0,0,58955,0,0,36491,37984,58956,0,35439,0,0,0,0,0,0,58957,0,0,0,0,58959,38807,0,58958,36965,0,58960,0,0,58961,0,0,58962,35535,0,0,0,0,0,0,58963,0,0,58964,0,58965],[58966,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,35440,0,0,0,0,0,0,0,58967,0,58968,58969,0,0,0,0,0,35312,0,0,36935,58970,0,0,0,0,0,0,0,0,0,0,0,0,58971,0,0,0,58972,0,0,0,0,0,0,0],
    [36030,0,37625,58973,0,0,0,0,35958,0,36981,0,58976,0,37794,0,58975,0,64419,35920,0,0,58974,37365,35660,0,0,58977,0,58978,0,36823,0,0,0,35981,0,58979,0,0,0,0,38475,0,0,37085,0,0,0,35734,0,38643,37225,0,58980,64420,0,0,36966,37520,36824,0,0,0],[0,58981,0,0,0,0,58984,0,58985,0,0,0,0,0,0,0,36284,37312,58983,0,36825,38237,0,0,0,0,0,58982,0,0,36492,0,35186,0,58989,35959,0,0,36494,0,0,36493,0,39020,58988,58987,37190,0,35692,39010,35417,36826,0,0,0,0,0,64421,0,0,58986,0,0,0],[0,0,58991,0,58992,58990,0,36054,0,38751,0,0,36495,37958,0,0,0,58995,0,37054,0,37473,0,0,38741,0,58998,0,0,0,36074,0,37053,58994,0,58999,36075,58996,58997,64422,58993,0,0,0,37088,37831,0,0,37454,0,35291,0,0,0,0,0,0,38126,0,0,35682,0,64423,37554],[0,0,59002,0,59000,0,0,37483,0,0,0,37055,35536,59001,0,36986,0,0,38856,0,0,0,39007,0,0,0,59003,59015,37555,0,59014,64424,59011,59019,59012,0,59008,0,37626,59006,0,0,0,59004,0,38720,36496,0,0,59009,0,59005,0,0,64426,59013,36756,0,36031,0,0,0,37368,0],[38500,35193,35040,0,37795,0,0,59017,0,0,0,0,59016,0,37860,0,59021,0,0,0,59010,0,59020,59022,0,36010,59018,36213,0,36563,0,0,59023,38775,0,0,0,0,59026,0,59029,0,0,59027,38228,0,0,0,0,0,0,59024,0,0,0,0,0,35806,0,0,0,0,59028,0],[0,59030,0,0,0,0,0,0,0,59034,0,0,59031,0,59033,59032,0,0,0,64427,0,0,59035,0,36527,0,59037,59036,38280,0,0,59039,0,0,0,0,0,0,35960,0,0,0,0,59038,59040,0,0,59041,35683,58303,36855,0,59042,0,0,36076,0,0,0,0,0,59043,0,64428],[59044,0,0,36445,0,0,0,0,0,0,40396,0,59045,0,59046,0,36689,0,59047,59048,0,0,59049,0,0,59050,59051,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37450,0,0,59052,0,0,0,0,59054],[0,59053,0,0,0,0,37796,0,59055,0,38476,0,59056,0,59057,0,59058,0,0,0,0,59059,0,0,0,0,37848,0,0,0,0,0,0,36827,59060,0,0,0,0,0,0,0,36235,39084,59061,0,0,0,0,0,0,0,0,0,0,0,59062,38238,59063,0,59071,0,0,0],[0,0,59064,0,0,59066,0,0,0,59065,59067,0,38501,59068,59069,0,0,0,0,0,59070,0,0,0,59072,0,0,0,0,35404,37605,0,38281,36320,36214,0,0,0,0,38254,35293,38092,59075,35537,37075,59074,59079,37529,38625,0,59077,59078,35661,0,59080,38019,37341,0,0,38127,37724,59076,0,38502],[35306,59082,38983,37568,39012,0,0,36497,59081,0,37295,0,0,59098,37191,0,0,37878,0,38255,0,0,0,0,0,0,59085,36446,36498,0,36828,0,38021,0,36011,59084,59083,0,38282,0,0,0,36543,0,0,37745,0,0,64429,0,0,0,64430,0,0,0,0,0,59087,59088,36215,59086,0,0],[0,0,0,0,59089,59090,0,59092,37281,0,59091,35556,0,59094,0,59093,59095,0,64431,59097,59099,0,59100,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37076,0,36557,59101,0,0,0,35441,0,59102,0,0,37270,59103,0,59104,38283,0,64432,35662,0,0,0,0,0,0,0,0],[0,59105,0,0,0,37556,0,0,0,0,35194,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59106,0,0,0,0,0,0,0,0,0,36591,0,0,0,0,37014,0,0,0,0,0,0,0,0,0,0,37291,0,0,0,0,0,0,59109,0,0,0,59108,0],[0,0,59107,0,0,0,0,0,0,0,0,59115,59113,0,0,59110,0,0,0,0,0,0,59112,0,0,0,59111,59114,0,35735,0,59118,0,37077,0,59119,0,0,0,0,36055,0,59116,59117,0,0,0,38984,0,0,0,37557,0,37192,0,0,0,0,0,0,59120,0,0,59123],[0,0,0,0,0,0,0,0,59121,59122,38776,0,0,0,0,37797,59126,0,0,0,0,0,0,0,0,0,0,0,0,59124,59125,59127,0,0,0,0,0,0,0,0,0,0,59208,0,0,0,0,0,59130,0,0,0,59131,59129,0,0,0,0,0,0,0,0,0,0],
    [0,0,59128,0,37627,0,0,59200,59204,59201,59132,0,59202,0,0,0,59203,0,0,0,0,59210,0,0,0,59205,0,0,0,0,0,37078,59207,0,0,59209,59206,0,0,0,0,0,0,0,0,0,0,0,0,0,59212,0,36690,0,59211,0,0,0,0,0,59213,0,0,0],[0,59214,0,0,59217,59216,0,59215,0,0,59219,59218,0,38644,0,0,0,59221,0,59220,59222,0,0,0,0,59223,0,0,0,0,0,0,0,59225,0,0,0,0,0,0,0,0,59224,36967,59226,0,0,35819,59227,59229,0,0,0,0,0,0,0,0,0,0,0,0,59230,0],[0,0,0,0,0,59231,59228,0,59232,0,36564,59233,35663,35922,0,64434,0,0,36012,0,0,0,0,0,0,0,0,59234,0,0,0,37870,0,0,37725,59235,0,0,0,0,0,0,0,59238,0,0,0,0,0,0,0,0,0,0,0,0,36530,0,0,59237,59236,35961,59239,0],[0,0,0,35442,0,59241,0,0,0,36314,59240,0,59249,0,0,0,0,0,59243,59245,38371,59242,0,0,0,59244,0,59248,59246,35664,0,59247,0,0,0,0,0,0,59250,0,0,38009,38870,0,0,0,0,36691,0,0,0,59251,0,0,0,0,38721,59253,0,59252,0,0,59256,38752],[0,0,59255,0,35469,59254,59259,0,0,59258,0,0,59257,37713,59260,0,0,0,0,0,0,0,0,59261,0,0,0,0,59262,0,0,36236,0,35908,59264,59265,59266,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36968,59267,0,36523,59268,0,0,0,59269,0,0,0,39327,39326,0,0,0,0,59270,58256,59271,37443,36938,37983,0,0,0,0,59272,0,0,38355,37586,36254,0,0,37448],[0,0,35145,0,38552,36982,0,0,0,0,0,0,0,0,35965,0,0,35807,0,0,38356,0,0,0,0,0,59273,0,0,0,0,0,0,0,59275,0,0,59274,35294,0,0,37876,59276,38039,0,37714,0,59277,36721,0,0,0,59279,0,0,38592,59294,59281,59282,0,0,37575,0,0],[37342,37271,0,37798,0,59280,35700,0,0,0,0,59289,0,59286,59299,37799,37504,59283,0,37628,37746,59284,59288,36992,0,38023,37578,0,0,37056,59287,37292,37282,59285,34983,38977,0,0,0,59290,0,0,0,0,0,0,37343,0,0,36692,36969,0,0,59292,59291,0,35053,59293,0,0,38222,0,59301,0],[0,37849,37003,0,0,37496,0,35830,0,59300,38742,35166,0,38357,35295,59295,59296,59297,59298,37817,37442,35041,59302,0,59303,60065,0,0,37307,0,59304,0,35219,37227,0,36013,0,38777,0,64437,59305,37707,0,0,0,37272,36565,59306,0,0,59309,0,0,36741,59307,37194,37193,0,35042,0,38857,59311,0,38128],[59313,59312,59310,57988,35538,0,0,59278,0,59315,59314,0,0,0,0,59316,0,38743,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37855,0,0,38477,0,59317,0,36567,0,0,0,0,59318,0,59319,0,0,0,59320,0,0,37696,0,0,0,0,0,0,0],[0,35048,0,0,0,0,0,0,0,0,36216,0,0,0,39001,0,0,0,0,0,0,0,0,0,0,0,0,59324,0,0,64438,0,0,35923,59321,0,59322,0,0,0,38292,0,0,0,0,35443,0,0,0,0,0,0,0,38744,0,35773,0,0,0,0,0,37747,0,0],[0,0,59325,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59326,0,0,64440,0,0,0,59327,0,0,0,0,0,0,0,0,0,0,0,0,0,64441,0,0,0,0,0,37697,0,0,59329,0,59328,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,37841,59330,36693,36574,38010,37521,0,0,0,36592,0,37004,0,59331,0,59332,0,0,0,0,0,0,0,0,0,36988,59333,0,59334,0,0,0,59335,38799,0,36694,0,0,0,0,0,59337,59336,0,36217,0,36243,36447,0,0,0,0,0,0,0],[0,0,59340,0,0,0,0,36742,0,59339,0,59338,0,37351,0,0,36077,0,37057,0,0,0,0,38062,0,0,0,0,36696,0,0,0,0,0,59341,0,36829,0,0,0,0,0,59344,59342,0,0,0,59343,0,0,0,0,59346,59345,0,0,36856,0,59347,0,0,0,0,0],[59348,59349,0,0,0,0,38094,36305,36575,59350,0,59351,38818,36708,38636,38858,59352,35808,0,0,0,0,59353,64443,37698,0,64442,59356,35480,36970,64444,59354,0,59355,0,37598,64447,64448,38516,35834,0,0,0,0,0,64445,64446,0,0,0,0,0,0,59358,59359,0,0,0,0,0,59357,0,0,59361],[0,0,0,0,0,0,64449,0,0,0,64451,0,0,37853,35426,0,64450,59365,0,0,59362,59364,0,0,0,0,0,0,0,0,59360,0,0,0,0,0,0,0,0,0,0,59502,0,0,59363,0,0,0,0,0,0,0,38889,0,0,36056,0,64458,64452,0,64454,0,0,59373],
    [64453,0,0,0,37715,59368,0,0,59371,59369,0,59374,0,0,64455,0,59375,64457,0,0,0,0,0,59367,0,64456,59380,35220,0,0,59366,0,0,0,38059,0,59370,0,36830,64459,0,0,0,0,0,0,0,0,0,36218,0,0,0,0,0,64461,64462,0,0,0,0,0,38503,0],[35810,0,0,36709,0,37818,0,0,64095,0,0,0,0,0,0,0,0,37196,0,59378,0,59372,59377,0,38593,0,37558,59379,59376,0,0,0,0,0,0,0,0,0,0,64460,0,0,0,0,0,37195,0,0,0,0,0,0,0,0,0,59383,0,59382,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59381,64466,0,38478,64470,0,64468,0,64464,0,64465,0,0,0,0,0,0,64469,0,0,0,36763,0,0,64463,0,59384,38365,0,0,35187,0,0,0,0,38245,37522,0,0,0,0,35736,64101,59386,64473,36220,0,0,64476],[0,0,64478,0,0,0,36427,0,0,0,0,0,0,0,0,59385,37005,0,0,0,0,0,0,0,37006,59456,59458,0,0,64477,64475,0,36857,64472,59457,59459,0,64471,35793,0,38244,0,0,36576,38978,0,59388,36342,0,0,39006,0,0,59461,0,0,0,0,59460,59462,0,0,0,0],[0,0,0,0,59387,0,0,0,64094,0,0,37863,0,37748,0,0,0,0,0,0,37589,0,59467,64480,0,0,0,37474,59463,0,0,0,59464,0,0,0,0,0,0,0,0,0,0,0,35916,0,59466,0,64479,0,0,0,0,36014,0,0,0,0,0,0,59465,0,36831,0],[0,0,0,0,0,0,0,0,0,0,0,0,35481,0,0,0,0,0,0,0,59471,0,36285,37273,0,0,37576,0,0,0,0,0,0,0,0,0,64481,0,0,35418,0,0,0,0,59469,59470,37569,0,59468,0,0,0,0,0,0,0,0,59472,0,0,0,0,0,0],[0,0,0,59478,0,0,64482,0,59481,0,0,0,0,0,0,0,59480,37708,0,0,0,0,59473,59474,59477,0,0,0,0,59479,64483,0,0,35774,0,0,59482,59476,0,0,59475,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64484,0,0,0,0,0,0,0],[0,0,0,59486,0,0,0,59487,0,0,0,0,0,0,0,0,59488,0,0,59485,59484,0,0,0,36832,37800,59483,0,0,0,0,0,0,59492,0,0,0,0,0,0,0,0,0,59490,0,0,0,0,0,64485,0,0,0,59491,59489,0,37366,0,59493,0,0,0,0,0],[0,59494,0,0,59496,64486,0,0,64487,0,0,0,0,0,0,0,0,35539,59495,38648,0,0,0,0,0,0,59507,59497,0,0,59500,0,59498,0,59499,0,0,0,0,0,0,0,59501,0,0,0,0,0,59503,0,0,0,0,59504,0,59505,0,0,0,0,59508,59506,59509,59511],[0,59510,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37559,0,0,0,0,0,0,0,0],[38629,0,59512,37197,0,0,0,59513,0,38338,59514,35402,0,0,0,35163,0,35541,64488,35540,59515,0,59516,0,59517,59518,0,0,0,0,0,0,59520,0,35542,35444,36221,38068,0,59522,59521,0,0,0,0,59523,0,0,0,0,35195,0,0,0,0,0,0,59526,0,59525,59524,0,59527,0],[0,0,0,59530,0,0,0,35013,0,0,59528,0,59532,59531,0,0,0,0,0,0,59534,59533,59535,0,37804,0,0,0,59536,0,0,0,0,59537,59539,0,0,59538,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38284,0,0,0,0,59540,0,0,0,0,0,0,59541,0,36323,0,0,0,59542,59543,0,0,38504,0,0,0,0,0,0,0,0,37226,0,0,0,34978],[37321,0,59544,0,38285,0,0,0,0,0,0,59547,59545,36222,0,59546,36032,0,0,0,0,0,0,0,0,0,0,38339,59549,59551,59550,59552,0,0,35136,36983,36764,35543,59553,0,0,0,38022,0,59555,0,0,0,35137,0,59554,37570,0,38859,37801,59548,38820,0,36015,0,0,38778,0,0],[0,0,0,0,0,35831,38834,0,35911,0,37344,58432,0,59556,35403,37007,0,0,0,0,35445,59558,0,59559,59557,35972,0,36315,36833,64491,0,0,35138,0,0,38871,0,0,0,59561,59308,0,59560,0,0,0,0,64492,59564,59562,59563,0,59565,0,59566,38890,59567,59568,0,37063,38073,0,0,0],
    [37021,35557,0,0,38745,35307,36695,36057,0,59571,0,59570,36499,59572,59569,0,0,36423,0,0,0,59576,58795,0,0,39380,0,37015,59574,0,0,0,0,0,38819,37871,0,0,0,0,35146,0,37089,36532,0,0,0,0,38325,0,35167,0,0,0,38891,38795,0,59577,0,37732,0,0,0,0],[36601,0,0,0,59578,0,59579,36971,59580,0,38892,0,0,59575,59582,59584,0,59583,0,59581,0,0,59585,0,0,59586,0,0,37274,0,35296,0,0,0,0,0,59587,0,0,38582,0,0,59588,0,0,0,0,0,59589,0,38985,64493,0,0,0,0,40528,59590,0,64494,0,59591,59592,0],[0,0,59596,64495,59593,0,59594,0,59595,59597,0,0,0,64496,0,64497,0,64498,37058,0,0,64499,38645,0,0,37059,0,0,59598,0,38129,0,59599,60018,38602,0,59600,0,59601,0,59602,35446,0,59604,0,36984,0,0,0,59605,0,0,35907,0,0,0,0,59606,59610,0,59608,0,0,0],[0,59609,0,0,35475,59607,59611,0,0,0,0,59612,0,35014,0,59613,59614,0,0,0,0,0,0,0,36834,0,0,0,59615,0,0,0,35686,0,0,59618,0,0,59617,0,59616,0,0,59025,0,38362,0,0,0,0,0,59619,59620,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,59621,0,0,59622,0,59623,0,0,59624,0,0,0,0,0,0,0,35544,0,0,0,0,0,0,0,0,59625,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59626,37954,0,0,0,59628,35257,0,59631,59630,0,0,0,0,35139,0,0,0,35775],[0,38341,37560,36256,0,36224,36743,0,36987,0,0,0,59633,0,0,59632,38753,35558,38096,37850,0,0,0,37020,38860,0,35962,0,0,0,0,0,0,59636,0,0,59635,0,0,0,0,0,0,0,38506,37802,0,0,0,0,0,0,35183,0,0,59637,59634,0,0,38256,38794,59638,0,0],[0,0,0,0,0,0,59639,0,0,0,0,59641,37352,35450,35451,59640,0,0,0,0,35559,36016,0,64500,35560,0,0,37726,0,0,38878,0,0,0,0,0,0,64501,0,36058,0,0,0,59642,0,0,0,59643,59644,59712,0,59714,59713,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38295,0,59715,0,0,0,0,59716,0,59717,0,0,0,0,59718,0,0,0,0,0,0,0,0,0],[0,0,0,59720,59719,0,59721,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38130,58314,0,0,36936,0,0,35665,0,0,0,0,0,0,59722,0,59723,0,39338,40794,38097,0,0,35065,0,35001,0,0,0,0,0,0,0,36500,38479,36860,0],[0,0,0,59724,0,38621,0,0,0,59725,38779,0,35169,0,0,0,36448,0,59726,35308,59727,0,0,0,59728,0,0,0,0,59730,59731,0,59733,59729,0,0,59732,0,0,64504,35545,0,0,0,59734,0,59735,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59736,59737,0],[0,0,59738,0,0,59740,0,0,0,59739,0,59742,59745,0,0,0,59741,59743,59744,0,0,59746,0,35776,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36593,59747,59748,36225,0,0,0,0,64506,0,0,0,0,0,0,59749,0,0,35421,0,0,0,37998,59750,59751,0,0,0,0,37497,37865,0,0,0,0,0,0,0,59752,0,0,0],[0,38045,0,0,37322,35191,35820,0,35821,0,0,0,0,0,0,0,37523,59757,35822,0,0,35309,0,0,59756,0,0,59754,0,59755,0,59753,0,0,59767,0,0,0,0,0,0,0,0,0,0,59758,59759,0,0,59760,59761,0,0,0,0,0,59763,0,0,59762,0,0,0,36728],[0,59764,0,0,0,59766,0,0,0,0,0,0,0,0,35666,59765,0,0,37275,36017,0,0,0,0,0,59768,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37323,0,0,59769,0,0,0,0,37803,0,0,0,0,0,0,59770,0,0,0,0,0,0,59776,0],[59773,0,59772,59774,0,59771,0,0,0,0,0,0,0,59778,64507,0,0,0,0,0,0,59777,0,59780,0,0,35777,59779,0,0,0,59781,0,0,59782,0,59784,59783,0,0,0,59785,59787,59786,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36252,0,0,0,0,59788,0,0,59789,0,0,0,0,0,0,0,35419,0,0,0,59790,0,0,0],
    [59791,0,0,0,37009,0,0,0,0,0,0,0,0,0,0,59792,0,59793,0,59794,59795,0,0,0,36226,64508,0,0,64576,0,59796,59797,0,0,59798,59799,0,0,59800,0,0,0,38063,59802,0,38213,59803,59801,0,59805,0,0,59804,0,0,59806,0,0,0,59807,0,0,0,0],[0,0,0,0,0,0,59808,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59809,0,59810,0,0,0,0,59811,0,0,59812,59813,0,59814,0,59815,59816,59817,59818,0,0,0,59819,59820,0,40788,59821,0,0,0,0,0,0,0,0,58102,35667,0,0,0],[0,35392,36272,59823,59822,38563,0,0,0,0,0,0,0,59825,59826,59824,0,59827,0,0,38530,0,0,0,59828,0,35739,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38980,0,0,64578,0,59829,64577,0,0,0,0,0,0,0,0,0,0],[0,0,0,59831,0,0,0,0,0,0,0,0,0,0,35004,64579,0,59832,38313,59830,0,0,59833,59834,0,0,0,0,0,0,0,59835,59836,0,0,0,0,0,0,0,59837,0,38542,36428,0,36344,37198,0,0,64580,0,0,59838,0,0,0,0,59841,0,64581,0,0,0,0],[59839,0,0,0,0,0,59842,0,0,36079,59840,0,0,0,0,59843,0,59844,59845,0,59849,0,36425,0,0,0,0,37346,0,0,0,0,0,59850,59847,59846,59848,0,0,0,35966,0,0,0,0,0,0,0,59854,59853,59852,0,0,34993,0,0,0,0,0,0,0,0,0,0],[64582,0,0,0,59864,0,59860,0,59861,59857,59863,0,59859,35458,0,0,39019,0,59862,59858,59856,59855,0,0,0,0,0,59866,0,0,0,0,0,59869,0,0,59868,59867,0,0,0,0,0,0,0,38248,59865,35057,59870,0,59872,0,0,0,0,0,0,35471,59851,35158,0,0,59874,0],[0,0,0,0,0,0,59873,59871,37452,0,0,0,0,0,0,0,0,0,38544,0,0,0,0,38872,0,0,59875,0,0,0,0,0,59876,0,0,0,0,0,0,59877,0,0,0,0,0,0,0,0,0,0,0,0,0,0,59878,0,59879,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,37561,0,59880,0,38069,0,59885,59881,0,0,0,59882,0,0,38480,38594,0,37838,0,0,0,0,0,0,0,0,0],[0,0,0,59886,0,0,59887,37820,59884,59883,0,0,0,0,35240,0,0,0,59895,0,0,59894,0,0,0,0,0,35221,0,0,0,59892,0,0,0,59891,0,0,59889,0,35483,0,59888,36528,35239,0,0,0,0,0,0,0,0,0,0,0,0,0,0,36227,0,0,59898,59897],[0,59896,0,0,59893,0,59899,0,59900,0,0,0,0,0,0,0,59972,59971,0,0,0,0,0,0,0,59973,0,0,35148,59968,59969,0,36244,38583,0,0,59970,0,0,0,0,0,0,64584,38481,0,0,59978,64583,0,59974,0,0,0,0,0,0,0,59979,0,0,0,0,0],[0,0,0,0,0,0,0,59976,0,59975,0,0,0,0,0,35963,0,0,0,0,0,0,0,0,0,0,59980,0,0,0,0,0,0,0,0,0,59981,0,0,0,0,59982,0,59977,0,0,0,59890,0,0,59983,0,37599,0,0,0,59987,0,59988,59986,0,0,0,0],[0,59985,59991,0,59984,0,59989,0,0,0,0,0,0,0,0,59990,0,0,0,59993,0,0,0,0,0,59992,0,0,0,0,0,0,0,0,0,0,0,0,59995,0,0,0,0,0,0,59996,0,59997,0,0,39016,0,0,0,0,0,59994,37353,36331,0,0,59998,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64586,59999,60000,0,0,60001,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,60002,0,0,36018,60003,0,0,0,60004,0,36525],[0,60005,0,0,0,0,0,0,60006,0,0,60007,60008,0,0,0,0,60011,60009,39003,0,60010,0,38893,0,0,0,0,0,60012,0,38873,0,0,0,0,0,60013,38046,0,0,60014,60016,0,0,60017,0,0,0,0,0,0,0,0,0,0,60015,36237,38603,38531,39925,0,40832,38555],[0,0,0,0,35241,0,0,0,0,0,0,0,60019,35695,60020,60021,60022,64587,36245,0,60023,0,0,0,57554,38617,0,37345,60024,60026,60025,0,60027,0,0,0,0,60028,0,0,60029,0,0,0,0,0,0,60030,0,0,0,0,60032,0,60033,60034,0,60035,0,60036,60037,60038,0,0],
    [0,0,0,0,0,0,0,60039,60040,0,0,0,0,0,37699,0,0,0,0,36059,0,60042,0,0,0,0,0,0,0,0,0,0,37228,60043,0,0,0,0,0,0,0,0,0,0,60044,0,0,0,0,0,0,0,0,0,0,0,0,0,0,38208,0,0,60045,0],[0,0,0,0,0,0,0,0,0,0,60046,57942,0,0,59096,59627,0,0,60047,0,60048,0,0,0,0,0,0,0,0,0,0,60050,60051,60052,38894,60049,0,0,60053,60054,0,0,60056,0,60055,0,0,0,0,0,60058,0,0,0,60059,60057,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,38836,0,0,0,0,0,0,0,60060,0,0,0,0,0,0,60061,57971,0,0,60062,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[61504,61505,61506,61507,61508,61509,61510,61511,61512,61513,61514,61515,61516,61517,61518,61519,61520,61521,61522,61523,61524,61525,61526,61527,61528,61529,61530,61531,61532,61533,61534,61535,61536,61537,61538,61539,61540,61541,61542,61543,61544,61545,61546,61547,61548,61549,61550,61551,61552,61553,61554,61555,61556,61557,61558,61559,61560,61561,61562,61563,61564,61565,61566,61568],[61569,61570,61571,61572,61573,61574,61575,61576,61577,61578,61579,61580,61581,61582,61583,61584,61585,61586,61587,61588,61589,61590,61591,61592,61593,61594,61595,61596,61597,61598,61599,61600,61601,61602,61603,61604,61605,61606,61607,61608,61609,61610,61611,61612,61613,61614,61615,61616,61617,61618,61619,61620,61621,61622,61623,61624,61625,61626,61627,61628,61629,61630,61631,61632],[61633,61634,61635,61636,61637,61638,61639,61640,61641,61642,61643,61644,61645,61646,61647,61648,61649,61650,61651,61652,61653,61654,61655,61656,61657,61658,61659,61660,61661,61662,61663,61664,61665,61666,61667,61668,61669,61670,61671,61672,61673,61674,61675,61676,61677,61678,61679,61680,61681,61682,61683,61684,61685,61686,61687,61688,61689,61690,61691,61692,61760,61761,61762,61763],[61764,61765,61766,61767,61768,61769,61770,61771,61772,61773,61774,61775,61776,61777,61778,61779,61780,61781,61782,61783,61784,61785,61786,61787,61788,61789,61790,61791,61792,61793,61794,61795,61796,61797,61798,61799,61800,61801,61802,61803,61804,61805,61806,61807,61808,61809,61810,61811,61812,61813,61814,61815,61816,61817,61818,61819,61820,61821,61822,61824,61825,61826,61827,61828],[61829,61830,61831,61832,61833,61834,61835,61836,61837,61838,61839,61840,61841,61842,61843,61844,61845,61846,61847,61848,61849,61850,61851,61852,61853,61854,61855,61856,61857,61858,61859,61860,61861,61862,61863,61864,61865,61866,61867,61868,61869,61870,61871,61872,61873,61874,61875,61876,61877,61878,61879,61880,61881,61882,61883,61884,61885,61886,61887,61888,61889,61890,61891,61892],[61893,61894,61895,61896,61897,61898,61899,61900,61901,61902,61903,61904,61905,61906,61907,61908,61909,61910,61911,61912,61913,61914,61915,61916,61917,61918,61919,61920,61921,61922,61923,61924,61925,61926,61927,61928,61929,61930,61931,61932,61933,61934,61935,61936,61937,61938,61939,61940,61941,61942,61943,61944,61945,61946,61947,61948,62016,62017,62018,62019,62020,62021,62022,62023],[62024,62025,62026,62027,62028,62029,62030,62031,62032,62033,62034,62035,62036,62037,62038,62039,62040,62041,62042,62043,62044,62045,62046,62047,62048,62049,62050,62051,62052,62053,62054,62055,62056,62057,62058,62059,62060,62061,62062,62063,62064,62065,62066,62067,62068,62069,62070,62071,62072,62073,62074,62075,62076,62077,62078,62080,62081,62082,62083,62084,62085,62086,62087,62088],[62089,62090,62091,62092,62093,62094,62095,62096,62097,62098,62099,62100,62101,62102,62103,62104,62105,62106,62107,62108,62109,62110,62111,62112,62113,62114,62115,62116,62117,62118,62119,62120,62121,62122,62123,62124,62125,62126,62127,62128,62129,62130,62131,62132,62133,62134,62135,62136,62137,62138,62139,62140,62141,62142,62143,62144,62145,62146,62147,62148,62149,62150,62151,62152],[62153,62154,62155,62156,62157,62158,62159,62160,62161,62162,62163,62164,62165,62166,62167,62168,62169,62170,62171,62172,62173,62174,62175,62176,62177,62178,62179,62180,62181,62182,62183,62184,62185,62186,62187,62188,62189,62190,62191,62192,62193,62194,62195,62196,62197,62198,62199,62200,62201,62202,62203,62204,62272,62273,62274,62275,62276,62277,62278,62279,62280,62281,62282,62283],[62284,62285,62286,62287,62288,62289,62290,62291,62292,62293,62294,62295,62296,62297,62298,62299,62300,62301,62302,62303,62304,62305,62306,62307,62308,62309,62310,62311,62312,62313,62314,62315,62316,62317,62318,62319,62320,62321,62322,62323,62324,62325,62326,62327,62328,62329,62330,62331,62332,62333,62334,62336,62337,62338,62339,62340,62341,62342,62343,62344,62345,62346,62347,62348],[62349,62350,62351,62352,62353,62354,62355,62356,62357,62358,62359,62360,62361,62362,62363,62364,62365,62366,62367,62368,62369,62370,62371,62372,62373,62374,62375,62376,62377,62378,62379,62380,62381,62382,62383,62384,62385,62386,62387,62388,62389,62390,62391,62392,62393,62394,62395,62396,62397,62398,62399,62400,62401,62402,62403,62404,62405,62406,62407,62408,62409,62410,62411,62412],[62413,62414,62415,62416,62417,62418,62419,62420,62421,62422,62423,62424,62425,62426,62427,62428,62429,62430,62431,62432,62433,62434,62435,62436,62437,62438,62439,62440,62441,62442,62443,62444,62445,62446,62447,62448,62449,62450,62451,62452,62453,62454,62455,62456,62457,62458,62459,62460,62528,62529,62530,62531,62532,62533,62534,62535,62536,62537,62538,62539,62540,62541,62542,62543],[62544,62545,62546,62547,62548,62549,62550,62551,62552,62553,62554,62555,62556,62557,62558,62559,62560,62561,62562,62563,62564,62565,62566,62567,62568,62569,62570,62571,62572,62573,62574,62575,62576,62577,62578,62579,62580,62581,62582,62583,62584,62585,62586,62587,62588,62589,62590,62592,62593,62594,62595,62596,62597,62598,62599,62600,62601,62602,62603,62604,62605,62606,62607,62608],
    [62609,62610,62611,62612,62613,62614,62615,62616,62617,62618,62619,62620,62621,62622,62623,62624,62625,62626,62627,62628,62629,62630,62631,62632,62633,62634,62635,62636,62637,62638,62639,62640,62641,62642,62643,62644,62645,62646,62647,62648,62649,62650,62651,62652,62653,62654,62655,62656,62657,62658,62659,62660,62661,62662,62663,62664,62665,62666,62667,62668,62669,62670,62671,62672],[62673,62674,62675,62676,62677,62678,62679,62680,62681,62682,62683,62684,62685,62686,62687,62688,62689,62690,62691,62692,62693,62694,62695,62696,62697,62698,62699,62700,62701,62702,62703,62704,62705,62706,62707,62708,62709,62710,62711,62712,62713,62714,62715,62716,62784,62785,62786,62787,62788,62789,62790,62791,62792,62793,62794,62795,62796,62797,62798,62799,62800,62801,62802,62803],[62804,62805,62806,62807,62808,62809,62810,62811,62812,62813,62814,62815,62816,62817,62818,62819,62820,62821,62822,62823,62824,62825,62826,62827,62828,62829,62830,62831,62832,62833,62834,62835,62836,62837,62838,62839,62840,62841,62842,62843,62844,62845,62846,62848,62849,62850,62851,62852,62853,62854,62855,62856,62857,62858,62859,62860,62861,62862,62863,62864,62865,62866,62867,62868],[62869,62870,62871,62872,62873,62874,62875,62876,62877,62878,62879,62880,62881,62882,62883,62884,62885,62886,62887,62888,62889,62890,62891,62892,62893,62894,62895,62896,62897,62898,62899,62900,62901,62902,62903,62904,62905,62906,62907,62908,62909,62910,62911,62912,62913,62914,62915,62916,62917,62918,62919,62920,62921,62922,62923,62924,62925,62926,62927,62928,62929,62930,62931,62932],[62933,62934,62935,62936,62937,62938,62939,62940,62941,62942,62943,62944,62945,62946,62947,62948,62949,62950,62951,62952,62953,62954,62955,62956,62957,62958,62959,62960,62961,62962,62963,62964,62965,62966,62967,62968,62969,62970,62971,62972,63040,63041,63042,63043,63044,63045,63046,63047,63048,63049,63050,63051,63052,63053,63054,63055,63056,63057,63058,63059,63060,63061,63062,63063],[63064,63065,63066,63067,63068,63069,63070,63071,63072,63073,63074,63075,63076,63077,63078,63079,63080,63081,63082,63083,63084,63085,63086,63087,63088,63089,63090,63091,63092,63093,63094,63095,63096,63097,63098,63099,63100,63101,63102,63104,63105,63106,63107,63108,63109,63110,63111,63112,63113,63114,63115,63116,63117,63118,63119,63120,63121,63122,63123,63124,63125,63126,63127,63128],[63129,63130,63131,63132,63133,63134,63135,63136,63137,63138,63139,63140,63141,63142,63143,63144,63145,63146,63147,63148,63149,63150,63151,63152,63153,63154,63155,63156,63157,63158,63159,63160,63161,63162,63163,63164,63165,63166,63167,63168,63169,63170,63171,63172,63173,63174,63175,63176,63177,63178,63179,63180,63181,63182,63183,63184,63185,63186,63187,63188,63189,63190,63191,63192],[63193,63194,63195,63196,63197,63198,63199,63200,63201,63202,63203,63204,63205,63206,63207,63208,63209,63210,63211,63212,63213,63214,63215,63216,63217,63218,63219,63220,63221,63222,63223,63224,63225,63226,63227,63228,63296,63297,63298,63299,63300,63301,63302,63303,63304,63305,63306,63307,63308,63309,63310,63311,63312,63313,63314,63315,63316,63317,63318,63319,63320,63321,63322,63323],[63324,63325,63326,63327,63328,63329,63330,63331,63332,63333,63334,63335,63336,63337,63338,63339,63340,63341,63342,63343,63344,63345,63346,63347,63348,63349,63350,63351,63352,63353,63354,63355,63356,63357,63358,63360,63361,63362,63363,63364,63365,63366,63367,63368,63369,63370,63371,63372,63373,63374,63375,63376,63377,63378,63379,63380,63381,63382,63383,63384,63385,63386,63387,63388],[63389,63390,63391,63392,63393,63394,63395,63396,63397,63398,63399,63400,63401,63402,63403,63404,63405,63406,63407,63408,63409,63410,63411,63412,63413,63414,63415,63416,63417,63418,63419,63420,63421,63422,63423,63424,63425,63426,63427,63428,63429,63430,63431,63432,63433,63434,63435,63436,63437,63438,63439,63440,63441,63442,63443,63444,63445,63446,63447,63448,63449,63450,63451,63452],[63453,63454,63455,63456,63457,63458,63459,63460,63461,63462,63463,63464,63465,63466,63467,63468,63469,63470,63471,63472,63473,63474,63475,63476,63477,63478,63479,63480,63481,63482,63483,63484,63552,63553,63554,63555,63556,63557,63558,63559,63560,63561,63562,63563,63564,63565,63566,63567,63568,63569,63570,63571,63572,63573,63574,63575,63576,63577,63578,63579,63580,63581,63582,63583],[63584,63585,63586,63587,63588,63589,63590,63591,63592,63593,63594,63595,63596,63597,63598,63599,63600,63601,63602,63603,63604,63605,63606,63607,63608,63609,63610,63611,63612,63613,63614,63616,63617,63618,63619,63620,63621,63622,63623,63624,63625,63626,63627,63628,63629,63630,63631,63632,63633,63634,63635,63636,63637,63638,63639,63640,63641,63642,63643,63644,63645,63646,63647,63648],[63649,63650,63651,63652,63653,63654,63655,63656,63657,63658,63659,63660,63661,63662,63663,63664,63665,63666,63667,63668,63669,63670,63671,63672,63673,63674,63675,63676,63677,63678,63679,63680,63681,63682,63683,63684,63685,63686,63687,63688,63689,63690,63691,63692,63693,63694,63695,63696,63697,63698,63699,63700,63701,63702,63703,63704,63705,63706,63707,63708,63709,63710,63711,63712],[63713,63714,63715,63716,63717,63718,63719,63720,63721,63722,63723,63724,63725,63726,63727,63728,63729,63730,63731,63732,63733,63734,63735,63736,63737,63738,63739,63740,63808,63809,63810,63811,63812,63813,63814,63815,63816,63817,63818,63819,63820,63821,63822,63823,63824,63825,63826,63827,63828,63829,63830,63831,63832,63833,63834,63835,63836,63837,63838,63839,63840,63841,63842,63843],[63844,63845,63846,63847,63848,63849,63850,63851,63852,63853,63854,63855,63856,63857,63858,63859,63860,63861,63862,63863,63864,63865,63866,63867,63868,63869,63870,63872,63873,63874,63875,63876,63877,63878,63879,63880,63881,63882,63883,63884,63885,63886,63887,63888,63889,63890,63891,63892,63893,63894,63895,63896,63897,63898,63899,63900,63901,63902,63903,63904,63905,63906,63907,63908],[63909,63910,63911,63912,63913,63914,63915,63916,63917,63918,63919,63920,63921,63922,63923,63924,63925,63926,63927,63928,63929,63930,63931,63932,63933,63934,63935,63936,63937,63938,63939,63940,63941,63942,63943,63944,63945,63946,63947,63948,63949,63950,63951,63952,63953,63954,63955,63956,63957,63958,63959,63960,63961,63962,63963,63964,63965,63966,63967,63968,63969,63970,63971,63972],
    [63973,63974,63975,63976,63977,63978,63979,63980,63981,63982,63983,63984,63985,63986,63987,63988,63989,63990,63991,63992,63993,63994,63995,63996,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64224,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64489,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,64144,64155,64156,64177,64216,64232,64234,64344,64350,64373,64381,64382,64384,64386,64390,64393,64402,64413,64415,64416,64425,64433,64435,64436,64439,64467,64474,64490,64502,64503,64505,64585,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,33097,64087,33172,33168,33171,33173,64086,33129,33130,33174,33147,33091,33148,33092,33118,33359,33360,33361,33362,33363,33364,33365,33366,33367,33368,33094,33095,33155,33153,33156,33096,33175,33376,33377,33378,33379,33380,33381,33382,33383,33384,33385,33386,33387,33388,33389,33390,33391,33392,33393,33394,33395,33396,33397,33398,33399,33400,33401,33133,33119,33134,33103,33105],[33101,33409,33410,33411,33412,33413,33414,33415,33416,33417,33418,33419,33420,33421,33422,33423,33424,33425,33426,33427,33428,33429,33430,33431,33432,33433,33434,33135,33122,33136,33120,0,0,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191],[192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,33169,33170,33226,33104,64085,33167,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],
];
