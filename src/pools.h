/* Six code points of each kind that the algorithms distinguish, from `mon pools` (families: 0-3 breaks, 4 bidi, 5 case). */
static const struct { unsigned char fam, kind; uint_least32_t cp[6]; } pools[] = {
	{ 0, 0, { 0x0, 0xE0C38, 0xE0A30, 0xE0ABD, 0xE0BF1, 0xE0641 } },
	{ 0, 1, { 0xA, 0xA, 0xA, 0xA, 0xA, 0xA } },
	{ 0, 2, { 0xD, 0xD, 0xD, 0xD, 0xD, 0xD } },
	{ 0, 3, { 0x20, 0xBF0E7, 0xCC8E2, 0xFBAB0, 0x5A69A, 0x55C6E } },
	{ 0, 4, { 0xA9, 0x1F058, 0x1F7EC, 0x1F28B, 0x1F435, 0x1FFC2 } },
	{ 0, 5, { 0x300, 0xE0133, 0x1DA47, 0x1344C, 0x10F50, 0x304 } },
	{ 0, 6, { 0x600, 0x70F, 0x11D46, 0x891, 0x11941, 0x11941 } },
	{ 0, 7, { 0x903, 0x115B0, 0x115B0, 0x93F, 0x119D2, 0xA3E } },
	{ 0, 8, { 0x1100, 0x1140, 0x1107, 0x1156, 0x1108, 0xA973 } },
	{ 0, 9, { 0x1160, 0x1181, 0x1181, 0xD7BA, 0x1165, 0xD7B8 } },
	{ 0, 10, { 0x11A8, 0x11CA, 0xD7EE, 0x11AD, 0xD7E8, 0xD7CC } },
	{ 0, 11, { 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D } },
	{ 0, 12, { 0xAC00, 0xD4B0, 0xD590, 0xB46C, 0xC6CC, 0xB00C } },
	{ 0, 13, { 0xAC01, 0xCDB9, 0xACBB, 0xBAB3, 0xC117, 0xC70F } },
	{ 0, 14, { 0x1F1E6, 0x1F1FF, 0x1F1F5, 0x1F1E6, 0x1F1EB, 0x1F1F7 } },
	{ 1, 0, { 0x0, 0xAB702, 0xB4F4A, 0xC9C78, 0x675DA, 0x48B4B } },
	{ 1, 1, { 0xA, 0xA, 0xA, 0xA, 0xA, 0xA } },
	{ 1, 2, { 0xB, 0x85, 0x2029, 0xB, 0xB, 0x2029 } },
	{ 1, 3, { 0xD, 0xD, 0xD, 0xD, 0xD, 0xD } },
	{ 1, 4, { 0x20, 0x2005, 0x2001, 0x2002, 0x3000, 0x2003 } },
	{ 1, 5, { 0x22, 0x22, 0x22, 0x22, 0x22, 0x22 } },
	{ 1, 6, { 0x27, 0x27, 0x27, 0x27, 0x27, 0x27 } },
	{ 1, 7, { 0x2C, 0xFE14, 0x2C, 0xFE50, 0x2C, 0xFE10 } },
	{ 1, 8, { 0x2E, 0x2E, 0xFE52, 0x2E, 0xFF0E, 0xFF0E } },
	{ 1, 9, { 0x30, 0x1A88, 0x1D7D9, 0x967, 0x16B58, 0x111D1 } },
	{ 1, 10, { 0x3A, 0xFF1A, 0x3A, 0xFE55, 0x2027, 0xFE13 } },
	{ 1, 11, { 0x41, 0xAB4B, 0xB4B6, 0xFB9A, 0x79C, 0xB152 } },
	{ 1, 12, { 0x5F, 0xFF3F, 0x203F, 0xFE34, 0x202F, 0x5F } },
	{ 1, 13, { 0xA9, 0x2615, 0x1F435, 0x1F642, 0x1F9C0, 0x1F433 } },
	{ 1, 14, { 0xAD, 0x13430, 0xAD, 0x180E, 0x13435, 0x13434 } },
	{ 1, 15, { 0x300, 0xE0032, 0xA8BE, 0x1122E, 0x11A59, 0xF78 } },
	{ 1, 16, { 0x5D0, 0xFB30, 0x5EF, 0xFB3C, 0xFB23, 0xFB4C } },
	{ 1, 17, { 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D } },
	{ 1, 18, { 0x2139, 0x1F170, 0x1F17F, 0x1F17F, 0x24C2, 0x24C2 } },
	{ 1, 19, { 0x3031, 0x30C3, 0x30C9, 0xFF6E, 0x30DE, 0x30A3 } },
	{ 1, 20, { 0x1F1E6, 0x1F1FD, 0x1F1E6, 0x1F1ED, 0x1F1F6, 0x1F1F3 } },
	{ 2, 0, { 0x0, 0xBDAEA, 0xD0821, 0x77893, 0x5BD14, 0x493BA } },
	{ 2, 1, { 0x9, 0xC, 0x20, 0x20, 0x2003, 0x2008 } },
	{ 2, 2, { 0xA, 0xA, 0xA, 0xA, 0xA, 0xA } },
	{ 2, 3, { 0xD, 0xD, 0xD, 0xD, 0xD, 0xD } },
	{ 2, 4, { 0x21, 0x1B5A, 0x2E54, 0x16E98, 0xA876, 0xFF61 } },
	{ 2, 5, { 0x22, 0x3008, 0x2E06, 0x22, 0x3019, 0x2E21 } },
	{ 2, 6, { 0x2C, 0x2013, 0xFE32, 0xFE32, 0xFE10, 0x2D } },
	{ 2, 7, { 0x2E, 0x2E, 0xFF0E, 0x2E, 0xFE52, 0x2024 } },
	{ 2, 8, { 0x30, 0x116C1, 0x968, 0x1E140, 0x1D7F4, 0x17E9 } },
	{ 2, 9, { 0x41, 0x1D67D, 0x182, 0x1D63C, 0x104B6, 0x413 } },
	{ 2, 10, { 0x61, 0x14B, 0x1D62D, 0x1044E, 0x10CC3, 0x1E925 } },
	{ 2, 11, { 0x85, 0x2028, 0x2028, 0x85, 0x85, 0x2028 } },
	{ 2, 12, { 0xAD, 0x180E, 0x13431, 0x605, 0x604, 0x1343F } },
	{ 2, 13, { 0x1BB, 0xD5ED, 0x206F0, 0x24D7C, 0xD59D, 0x645F } },
	{ 2, 14, { 0x300, 0x301, 0xC01, 0x11A3D, 0x119E4, 0xE019B } },
	{ 3, 0, { 0x0, 0x16F59, 0x1AC6, 0xE38, 0x94F, 0x1A67 } },
	{ 3, 1, { 0x9, 0x1C3F, 0x2000, 0xA92E, 0x11238, 0xAA5F } },
	{ 3, 2, { 0xA, 0xA, 0xA, 0xA, 0xA, 0xA } },
	{ 3, 3, { 0xB, 0xC, 0xC, 0xC, 0xB, 0xB } },
	{ 3, 4, { 0xD, 0xD, 0xD, 0xD, 0xD, 0xD } },
	{ 3, 5, { 0x20, 0x20, 0x20, 0x20, 0x20, 0x20 } },
	{ 3, 6, { 0x21, 0x2E2E, 0x2E53, 0x1944, 0x5C6, 0x2E54 } },
	{ 3, 7, { 0x22, 0x2E0C, 0xAB, 0x2E07, 0x2E00, 0x2E02 } },
	{ 3, 8, { 0x23, 0x1BE1E, 0xFF81A, 0xFBA77, 0x708E0, 0x7EB3D } },
	{ 3, 9, { 0x24, 0xA4, 0x20CE, 0x20BD, 0x9FB, 0x20A1 } },
	{ 3, 10, { 0x25, 0x11FDD, 0x20C0, 0x2109, 0x1ECB0, 0xFF05 } },
	{ 3, 11, { 0x28, 0x2E18, 0xA1, 0x2772, 0x27E6, 0x1343C } },
	{ 3, 12, { 0x29, 0x5D, 0x29, 0x29, 0x5D, 0x5D } },
	{ 3, 13, { 0x2C, 0x60C, 0x7F8, 0x37E, 0x2E, 0xFE14 } },
	{ 3, 14, { 0x2D, 0x2D, 0x2D, 0x2D, 0x2D, 0x2D } },
	{ 3, 15, { 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F } },
	{ 3, 16, { 0x30, 0x11F50, 0xA9D3, 0x1E4F0, 0x16A64, 0xAA51 } },
	{ 3, 17, { 0x7D, 0x13287, 0x301B, 0xF3B, 0xFF0C, 0x27ED } },
	{ 3, 18, { 0x85, 0x85, 0x85, 0x85, 0x85, 0x85 } },
	{ 3, 19, { 0xA0, 0x13434, 0x360, 0x34F, 0x180E, 0x2011 } },
	{ 3, 20, { 0xB4, 0xFD1, 0x1166A, 0x11664, 0x11B04, 0x11C70 } },
	{ 3, 21, { 0x5D0, 0x5E7, 0x5D3, 0xFB4F, 0x5DE, 0x5D7 } },
	{ 3, 22, { 0x1100, 0x1129, 0xA96E, 0x1114, 0x112B, 0x1110 } },
	{ 3, 23, { 0x1160, 0xD7BA, 0x11A4, 0x1160, 0x11A1, 0x11A1 } },
	{ 3, 24, { 0x11A8, 0x11F0, 0x11CB, 0x11E5, 0x11CD, 0xD7D3 } },
	{ 3, 25, { 0x17D6, 0x31FA, 0x31FD, 0x3049, 0x17D6, 0xFE55 } },
	{ 3, 26, { 0x200B, 0x200B, 0x200B, 0x200B, 0x200B, 0x200B } },
	{ 3, 27, { 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D } },
	{ 3, 28, { 0x2014, 0x2E3B, 0x2014, 0x2E3A, 0x2E3B, 0x2014 } },
	{ 3, 29, { 0x2024, 0x2026, 0x2024, 0x2026, 0x10AF6, 0x10AF6 } },
	{ 3, 30, { 0x2060, 0x2060, 0xFEFF, 0x2060, 0x2060, 0xFEFF } },
	{ 3, 31, { 0x231A, 0x2FF13, 0x49DC, 0x39629, 0x34622, 0x252E9 } },
	{ 3, 32, { 0x2329, 0xFF5F, 0x3010, 0x2329, 0x2329, 0xFE5B } },
	{ 3, 33, { 0x261D, 0x1F936, 0x1FAF8, 0x1F443, 0x1F482, 0x1F3C7 } },
	{ 3, 34, { 0xAC00, 0xC49C, 0xB15C, 0xCB9C, 0xC074, 0xD184 } },
	{ 3, 35, { 0xAC01, 0xCEE5, 0xC405, 0xACEA, 0xB272, 0xAE29 } },
	{ 3, 36, { 0xFFFC, 0xFFFC, 0xFFFC, 0xFFFC, 0xFFFC, 0xFFFC } },
	{ 3, 37, { 0x1F02C, 0x1F2CD, 0x1FEC6, 0x1FA57, 0x1FDFB, 0x1FD5C } },
	{ 3, 38, { 0x1F1E6, 0x1F1F9, 0x1F1EB, 0x1F1FA, 0x1F1EA, 0x1F1F6 } },
	{ 3, 39, { 0x1F3FB, 0x1F3FE, 0x1F3FF, 0x1F3FC, 0x1F3FB, 0x1F3FF } },
	{ 4, 0, { 0x0, 0xE05F8, 0xE0424, 0xE02EA, 0xE05B3, 0xE0005 } },
	{ 4, 1, { 0x9, 0x9, 0xB, 0x1F, 0xB, 0xB } },
	{ 4, 2, { 0xA, 0xA, 0x2029, 0x1C, 0x1E, 0x85 } },
	{ 4, 3, { 0xC, 0x2002, 0x2005, 0x20, 0x1680, 0x2006 } },
	{ 4, 4, { 0x21, 0x1FB6C, 0x2BF9, 0xA4BC, 0x1F9A6, 0x1F632 } },
	{ 4, 5, { 0x23, 0x23, 0x20CD, 0x20BD, 0x20A1, 0xFFE5 } },
	{ 4, 6, { 0x28, 0x2E28, 0x298F, 0xF3C, 0x2E57, 0x2E57 } },
	{ 4, 7, { 0x29, 0xF3B, 0x2E27, 0x2990, 0x2994, 0xF3B } },
	{ 4, 8, { 0x2B, 0xFF0D, 0xFF0B, 0x207B, 0x208A, 0x208A } },
	{ 4, 9, { 0x2C, 0xFF0E, 0xFE52, 0x2F, 0x3A, 0xFF0F } },
	{ 4, 10, { 0x30, 0x1D7DA, 0x1D7E3, 0x1FBF7, 0x1D7F1, 0x248D } },
	{ 4, 11, { 0x3C, 0x2220, 0x22DA, 0x22E8, 0x2AF7, 0x2E04 } },
	{ 4, 12, { 0x41, 0x1B6F3, 0x170C9, 0xDD6F0, 0xD22C9, 0x5B5A } },
	{ 4, 13, { 0x300, 0x114B7, 0x1A5C, 0x747, 0xE01B2, 0x112E5 } },
	{ 4, 14, { 0x590, 0x1E996, 0x1E97B, 0x1EF87, 0x1EB55, 0x1ECEB } },
	{ 4, 15, { 0x600, 0x10E6A, 0x669, 0x6DD, 0x10D34, 0x10E68 } },
	{ 4, 16, { 0x608, 0xFD0B, 0x1EEB0, 0x1ED02, 0xFD3A, 0x751 } },
	{ 4, 17, { 0x202A, 0x202A, 0x202A, 0x202A, 0x202A, 0x202A } },
	{ 4, 18, { 0x202B, 0x202B, 0x202B, 0x202B, 0x202B, 0x202B } },
	{ 4, 19, { 0x202C, 0x202C, 0x202C, 0x202C, 0x202C, 0x202C } },
	{ 4, 20, { 0x202D, 0x202D, 0x202D, 0x202D, 0x202D, 0x202D } },
	{ 4, 21, { 0x202E, 0x202E, 0x202E, 0x202E, 0x202E, 0x202E } },
	{ 4, 22, { 0x2066, 0x2066, 0x2066, 0x2066, 0x2066, 0x2066 } },
	{ 4, 23, { 0x2067, 0x2067, 0x2067, 0x2067, 0x2067, 0x2067 } },
	{ 4, 24, { 0x2068, 0x2068, 0x2068, 0x2068, 0x2068, 0x2068 } },
	{ 4, 25, { 0x2069, 0x2069, 0x2069, 0x2069, 0x2069, 0x2069 } },
	{ 4, 26, { 0x2329, 0x2329, 0x2329, 0x2329, 0x2329, 0x2329 } },
	{ 4, 27, { 0x232A, 0x232A, 0x232A, 0x232A, 0x232A, 0x232A } },
	{ 5, 0, { 0x0, 0x4810E, 0x33719, 0x6255B, 0xFE38, 0x242F1 } },
	{ 5, 1, { 0xA, 0xA, 0xA, 0xA, 0xA, 0xA } },
	{ 5, 2, { 0xB, 0x2029, 0x85, 0x2028, 0x2028, 0x2029 } },
	{ 5, 3, { 0xD, 0xD, 0xD, 0xD, 0xD, 0xD } },
	{ 5, 4, { 0x20, 0x2003, 0x2005, 0x205F, 0x2009, 0x2008 } },
	{ 5, 5, { 0x22, 0x22, 0x22, 0x22, 0x22, 0x22 } },
	{ 5, 6, { 0x27, 0x27, 0x27, 0x27, 0x27, 0x27 } },
	{ 5, 7, { 0x2C, 0xFE10, 0x7F8, 0x7F8, 0x2C, 0xFE14 } },
	{ 5, 8, { 0x2E, 0xFF0E, 0x2019, 0x2019, 0x2019, 0xFF0E } },
	{ 5, 9, { 0x30, 0x111D1, 0xC6C, 0x1040, 0x1D7EC, 0x6F6 } },
	{ 5, 10, { 0x3A, 0xFE13, 0xFF1A, 0xFE55, 0x387, 0x55F } },
	{ 5, 11, { 0x41, 0x54D, 0x13AF, 0x118A4, 0x16E41, 0x3FA } },
	{ 5, 12, { 0x5E, 0xB8, 0xFBB8, 0xFBB5, 0x60, 0x1FC1 } },
	{ 5, 13, { 0x5F, 0x2040, 0x202F, 0xFF3F, 0xFE34, 0x5F } },
	{ 5, 14, { 0x61, 0xA64B, 0x16E74, 0xABB9, 0x105A5, 0x1F11 } },
	{ 5, 15, { 0xAA, 0x1D42C, 0x1D474, 0x1D52E, 0x1D65F, 0x1D4D5 } },
	{ 5, 16, { 0xAD, 0x1D178, 0x1343F, 0xFEFF, 0x6DD, 0x13437 } },
	{ 5, 17, { 0xDF, 0xDF, 0xFB05, 0x1E99, 0x1FB4, 0xFB13 } },
	{ 5, 18, { 0x130, 0x130, 0x130, 0x130, 0x130, 0x130 } },
	{ 5, 19, { 0x1BB, 0xC38, 0xC632, 0xD2AE, 0x14471, 0x6BC } },
	{ 5, 20, { 0x1C4, 0x1CA, 0x1F1, 0x1F1, 0x1C4, 0x1C4 } },
	{ 5, 21, { 0x1C5, 0x1F2, 0x1C5, 0x1C5, 0x1C8, 0x1CB } },
	{ 5, 22, { 0x2B0, 0x1D44, 0x1DA5, 0x1D3D, 0x1D64, 0x1E057 } },
	{ 5, 23, { 0x2B9, 0x2B9, 0xA718, 0xA718, 0x2BF, 0xA67F } },
	{ 5, 24, { 0x300, 0x309A, 0xFB7, 0x1CF10, 0x110B3, 0x316 } },
	{ 5, 25, { 0x345, 0x345, 0x345, 0x345, 0x345, 0x345 } },
	{ 5, 26, { 0x390, 0x1FC7, 0x1F52, 0x1F56, 0x1FD2, 0x1FE3 } },
	{ 5, 27, { 0x3A3, 0x3A3, 0x3A3, 0x3A3, 0x3A3, 0x3A3 } },
	{ 5, 28, { 0x5D0, 0x5F2, 0xFB41, 0x5E8, 0xFB49, 0xFB43 } },
	{ 5, 29, { 0x903, 0x1A70, 0x11D94, 0x16F5F, 0xBCC, 0xCBE } },
	{ 5, 30, { 0x10D0, 0x10DD, 0x10D7, 0x10F1, 0x10D5, 0x10EE } },
	{ 5, 31, { 0x1F80, 0x1FA6, 0x1FA3, 0x1F91, 0x1F95, 0x1F95 } },
	{ 5, 32, { 0x1F88, 0x1F88, 0x1F88, 0x1FAC, 0x1F8E, 0x1F9F } },
	{ 5, 33, { 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D } },
	{ 5, 34, { 0x3031, 0x1AFF7, 0x1AFF0, 0x1AFFA, 0x30FC, 0x309B } },
	{ 5, 35, { 0x30A0, 0x30A6, 0x30CD, 0x30AF, 0x3331, 0x30D4 } },
	{ 5, 36, { 0x1F1E6, 0x1F1F2, 0x1F1F1, 0x1F1FE, 0x1F1E6, 0x1F1EA } },
};
