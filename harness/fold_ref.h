/* Simple lower case of the letters up to U+024F whose lower case letter lies in
 * the Latin blocks too (from the Unicode character database; the 26 letters with
 * a lower case partner outside, e.g. U+0181/U+0253, are not folded). */
static const struct { uint16_t a, b; uint8_t step; int16_t delta; } ref_fold[] = {
	{ 0x0041, 0x005a, 1, 32 },
	{ 0x00c0, 0x00d6, 1, 32 },
	{ 0x00d8, 0x00de, 1, 32 },
	{ 0x0100, 0x012e, 2, 1 },
	{ 0x0132, 0x0136, 2, 1 },
	{ 0x0139, 0x0147, 2, 1 },
	{ 0x014a, 0x0176, 2, 1 },
	{ 0x0178, 0x0178, 1, -121 },
	{ 0x0179, 0x017d, 2, 1 },
	{ 0x0182, 0x0184, 2, 1 },
	{ 0x0187, 0x0187, 1, 1 },
	{ 0x018b, 0x018b, 1, 1 },
	{ 0x018e, 0x018e, 1, 79 },
	{ 0x0191, 0x0191, 1, 1 },
	{ 0x0198, 0x0198, 1, 1 },
	{ 0x01a0, 0x01a4, 2, 1 },
	{ 0x01a7, 0x01a7, 1, 1 },
	{ 0x01ac, 0x01ac, 1, 1 },
	{ 0x01af, 0x01af, 1, 1 },
	{ 0x01b3, 0x01b5, 2, 1 },
	{ 0x01b7, 0x01b7, 1, 219 },
	{ 0x01b8, 0x01b8, 1, 1 },
	{ 0x01bc, 0x01bc, 1, 1 },
	{ 0x01c4, 0x01c4, 1, 2 },
	{ 0x01c5, 0x01c5, 1, 1 },
	{ 0x01c7, 0x01c7, 1, 2 },
	{ 0x01c8, 0x01c8, 1, 1 },
	{ 0x01ca, 0x01ca, 1, 2 },
	{ 0x01cb, 0x01db, 2, 1 },
	{ 0x01de, 0x01ee, 2, 1 },
	{ 0x01f1, 0x01f1, 1, 2 },
	{ 0x01f2, 0x01f4, 2, 1 },
	{ 0x01f7, 0x01f7, 1, -56 },
	{ 0x01f8, 0x021e, 2, 1 },
	{ 0x0220, 0x0220, 1, -130 },
	{ 0x0222, 0x0232, 2, 1 },
	{ 0x023b, 0x023b, 1, 1 },
	{ 0x023d, 0x023d, 1, -163 },
	{ 0x0241, 0x0241, 1, 1 },
	{ 0x0243, 0x0243, 1, -195 },
	{ 0x0246, 0x024e, 2, 1 },
};
