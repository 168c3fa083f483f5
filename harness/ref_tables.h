/* generated by tools/gen_tables.py from the published formulas */
static const unsigned int REF_APT[21] = { 0, 325, 422, 459, 477, 488, 494, 499, 502, 505, 507, 508, 509, 510, 511, 512, 512, 512, 512, 512, 512 };
static const unsigned int REF_APT_P[21] = { 0, 355, 447, 479, 494, 502, 507, 510, 512, 512, 512, 512, 512, 512, 512, 512, 512, 512, 512, 512, 512 };
static const unsigned int REF_APT_NTG1[21] = { 0, 17, 71, 136, 191, 236, 272, 301, 325, 345, 361, 375, 388, 398, 407, 415, 422, 429, 434, 439, 444 };
static const unsigned int REF_APT_NTG1_P[21] = { 0, 26, 92, 162, 221, 267, 303, 332, 355, 375, 390, 404, 415, 425, 433, 440, 447, 453, 458, 462, 466 };
static const unsigned int REF_RCT[21] = { 0, 30, 60, 90, 120, 150, 180, 210, 240, 270, 300, 330, 360, 390, 420, 450, 480, 510, 540, 570, 600 };
static const unsigned int REF_RCT_P[21] = { 0, 60, 120, 180, 240, 300, 360, 420, 480, 540, 600, 660, 720, 780, 840, 900, 960, 1020, 1080, 1140, 1200 };
static const unsigned int REF_RCT_NTG1[21] = { 0, 4, 8, 12, 15, 19, 23, 27, 30, 34, 38, 42, 45, 49, 53, 57, 60, 64, 68, 72, 75 };
static const unsigned int REF_RCT_NTG1_P[21] = { 0, 8, 15, 23, 30, 38, 45, 53, 60, 68, 75, 83, 90, 98, 105, 113, 120, 128, 135, 143, 150 };
static const unsigned int REF_LAGG[21] = { 0, 66443, 93504, 104761, 110875, 114707, 117330, 119237, 120686, 121823, 122739, 123493, 124124, 124660, 125120, 125520, 125871, 126181, 126457, 126704, 126926 };
static const unsigned int REF_LAGG_P[21] = { 0, 66876, 93896, 105108, 111188, 114993, 117596, 119486, 120920, 122045, 122951, 123696, 124318, 124847, 125301, 125695, 126041, 126346, 126617, 126860, 127079 };
static const unsigned int REF_LAGL[21] = { 0, 38, 75, 111, 146, 181, 215, 250, 284, 318, 351, 385, 419, 452, 485, 518, 551, 584, 617, 650, 683 };
static const unsigned int REF_LAGL_P[21] = { 0, 60, 119, 177, 234, 291, 347, 404, 460, 516, 571, 627, 683, 738, 793, 848, 903, 958, 1013, 1068, 1123 };
static const unsigned int REF_RM[21] = { 0, 107, 214, 321, 428, 535, 642, 749, 856, 963, 1070, 1177, 1284, 1391, 1498, 1605, 1712, 1819, 1926, 2033, 2140 };
static const unsigned int REF_RM_P[21] = { 0, 108, 215, 322, 429, 536, 643, 750, 857, 964, 1071, 1178, 1285, 1392, 1499, 1606, 1713, 1820, 1927, 2034, 2141 };
static const unsigned int REF_RM_NTG1[21] = { 0, 4, 46, 134, 255, 399, 560, 733, 856, 963, 1070, 1177, 1284, 1391, 1498, 1605, 1712, 1819, 1926, 2033, 2140 };
static const unsigned int REF_RM_NTG1_P[21] = { 0, 5, 50, 142, 265, 410, 572, 746, 857, 964, 1071, 1178, 1285, 1392, 1499, 1606, 1713, 1820, 1927, 2034, 2141 };
