#define T0 0, 1, 2, 3, 4, 5, 6, 7, 8, 9
#define T1 T0, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19
#define T2 T1, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29
#define T3 T2, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39
#define T4 T3, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49
#define T5 T4, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59
#define T6 T5, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69
#define T7 T6, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79
#define T8 T7, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89
#define T9 T8, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99
#define T10 T9, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109
#define T11 T10, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119
#define T12 T11, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129
#define T13 T12, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139
#define T14 T13, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149
#define T15 T14, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159
#define T16 T15, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169
#define T17 T16, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179
#define T18 T17, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189
#define T19 T18, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199
#define T20 T19, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209
#define T21 T20, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219
#define T22 T21, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229
#define T23 T22, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239
#define T24 T23, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249
#define T25 T24, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259
#define T26 T25, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269
#define T27 T26, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279
#define T28 T27, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289
#define T29 T28, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299
#define T30 T29, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309
#define T31 T30, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319
#define T32 T31, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329
#define T33 T32, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339
#define T34 T33, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349
#define T35 T34, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359
#define T36 T35, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369
many({STDX_MAP(NEXT, T5, 60)}, 61);
many({STDX_MAP(NEXT, T5, 60, 61)}, 62);
many({STDX_MAP(NEXT, T5, 60, 61, 62)}, 63);
many({STDX_MAP(NEXT, T5, 60, 61, 62, 63)}, 64);
many({STDX_MAP(NEXT, T5, 60, 61, 62, 63, 64)}, 65);
many({STDX_MAP(NEXT, T5, 60, 61, 62, 63, 64, 65)}, 66);
many({STDX_MAP(NEXT, T5, 60, 61, 62, 63, 64, 65, 66)}, 67);
many({STDX_MAP(NEXT, T5, 60, 61, 62, 63, 64, 65, 66, 67)}, 68);
many({STDX_MAP(NEXT, T5, 60, 61, 62, 63, 64, 65, 66, 67, 68)}, 69);
many({STDX_MAP(NEXT, T6)}, 70);
many({STDX_MAP(NEXT, T6, 70)}, 71);
many({STDX_MAP(NEXT, T6, 70, 71)}, 72);
many({STDX_MAP(NEXT, T6, 70, 71, 72)}, 73);
many({STDX_MAP(NEXT, T6, 70, 71, 72, 73)}, 74);
many({STDX_MAP(NEXT, T6, 70, 71, 72, 73, 74)}, 75);
many({STDX_MAP(NEXT, T6, 70, 71, 72, 73, 74, 75)}, 76);
many({STDX_MAP(NEXT, T6, 70, 71, 72, 73, 74, 75, 76)}, 77);
many({STDX_MAP(NEXT, T6, 70, 71, 72, 73, 74, 75, 76, 77)}, 78);
many({STDX_MAP(NEXT, T6, 70, 71, 72, 73, 74, 75, 76, 77, 78)}, 79);
many({STDX_MAP(NEXT, T7)}, 80);
many({STDX_MAP(NEXT, T7, 80)}, 81);
many({STDX_MAP(NEXT, T7, 80, 81)}, 82);
many({STDX_MAP(NEXT, T7, 80, 81, 82)}, 83);
many({STDX_MAP(NEXT, T7, 80, 81, 82, 83)}, 84);
many({STDX_MAP(NEXT, T7, 80, 81, 82, 83, 84)}, 85);
many({STDX_MAP(NEXT, T7, 80, 81, 82, 83, 84, 85)}, 86);
many({STDX_MAP(NEXT, T7, 80, 81, 82, 83, 84, 85, 86)}, 87);
many({STDX_MAP(NEXT, T7, 80, 81, 82, 83, 84, 85, 86, 87)}, 88);
many({STDX_MAP(NEXT, T7, 80, 81, 82, 83, 84, 85, 86, 87, 88)}, 89);
many({STDX_MAP(NEXT, T8)}, 90);
many({STDX_MAP(NEXT, T8, 90)}, 91);
many({STDX_MAP(NEXT, T8, 90, 91)}, 92);
many({STDX_MAP(NEXT, T8, 90, 91, 92)}, 93);
many({STDX_MAP(NEXT, T8, 90, 91, 92, 93)}, 94);
many({STDX_MAP(NEXT, T8, 90, 91, 92, 93, 94)}, 95);
many({STDX_MAP(NEXT, T8, 90, 91, 92, 93, 94, 95)}, 96);
many({STDX_MAP(NEXT, T8, 90, 91, 92, 93, 94, 95, 96)}, 97);
many({STDX_MAP(NEXT, T8, 90, 91, 92, 93, 94, 95, 96, 97)}, 98);
many({STDX_MAP(NEXT, T8, 90, 91, 92, 93, 94, 95, 96, 97, 98)}, 99);
many({STDX_MAP(NEXT, T9)}, 100);
many({STDX_MAP(NEXT, T9, 100)}, 101);
many({STDX_MAP(NEXT, T9, 100, 101)}, 102);
many({STDX_MAP(NEXT, T9, 100, 101, 102)}, 103);
many({STDX_MAP(NEXT, T9, 100, 101, 102, 103)}, 104);
many({STDX_MAP(NEXT, T9, 100, 101, 102, 103, 104)}, 105);
many({STDX_MAP(NEXT, T9, 100, 101, 102, 103, 104, 105)}, 106);
many({STDX_MAP(NEXT, T9, 100, 101, 102, 103, 104, 105, 106)}, 107);
many({STDX_MAP(NEXT, T9, 100, 101, 102, 103, 104, 105, 106, 107)}, 108);
many({STDX_MAP(NEXT, T9, 100, 101, 102, 103, 104, 105, 106, 107, 108)}, 109);
many({STDX_MAP(NEXT, T10)}, 110);
many({STDX_MAP(NEXT, T10, 110)}, 111);
many({STDX_MAP(NEXT, T10, 110, 111)}, 112);
many({STDX_MAP(NEXT, T10, 110, 111, 112)}, 113);
many({STDX_MAP(NEXT, T10, 110, 111, 112, 113)}, 114);
many({STDX_MAP(NEXT, T10, 110, 111, 112, 113, 114)}, 115);
many({STDX_MAP(NEXT, T10, 110, 111, 112, 113, 114, 115)}, 116);
many({STDX_MAP(NEXT, T10, 110, 111, 112, 113, 114, 115, 116)}, 117);
many({STDX_MAP(NEXT, T10, 110, 111, 112, 113, 114, 115, 116, 117)}, 118);
many({STDX_MAP(NEXT, T10, 110, 111, 112, 113, 114, 115, 116, 117, 118)}, 119);
many({STDX_MAP(NEXT, T11)}, 120);
many({STDX_MAP(NEXT, T11, 120)}, 121);
many({STDX_MAP(NEXT, T11, 120, 121)}, 122);
many({STDX_MAP(NEXT, T11, 120, 121, 122)}, 123);
many({STDX_MAP(NEXT, T11, 120, 121, 122, 123)}, 124);
many({STDX_MAP(NEXT, T11, 120, 121, 122, 123, 124)}, 125);
many({STDX_MAP(NEXT, T11, 120, 121, 122, 123, 124, 125)}, 126);
many({STDX_MAP(NEXT, T11, 120, 121, 122, 123, 124, 125, 126)}, 127);
many({STDX_MAP(NEXT, T11, 120, 121, 122, 123, 124, 125, 126, 127)}, 128);
many({STDX_MAP(NEXT, T11, 120, 121, 122, 123, 124, 125, 126, 127, 128)}, 129);
many({STDX_MAP(NEXT, T12)}, 130);
many({STDX_MAP(NEXT, T12, 130)}, 131);
many({STDX_MAP(NEXT, T12, 130, 131)}, 132);
many({STDX_MAP(NEXT, T12, 130, 131, 132)}, 133);
many({STDX_MAP(NEXT, T12, 130, 131, 132, 133)}, 134);
many({STDX_MAP(NEXT, T12, 130, 131, 132, 133, 134)}, 135);
many({STDX_MAP(NEXT, T12, 130, 131, 132, 133, 134, 135)}, 136);
many({STDX_MAP(NEXT, T12, 130, 131, 132, 133, 134, 135, 136)}, 137);
many({STDX_MAP(NEXT, T12, 130, 131, 132, 133, 134, 135, 136, 137)}, 138);
many({STDX_MAP(NEXT, T12, 130, 131, 132, 133, 134, 135, 136, 137, 138)}, 139);
many({STDX_MAP(NEXT, T13)}, 140);
many({STDX_MAP(NEXT, T13, 140)}, 141);
many({STDX_MAP(NEXT, T13, 140, 141)}, 142);
many({STDX_MAP(NEXT, T13, 140, 141, 142)}, 143);
many({STDX_MAP(NEXT, T13, 140, 141, 142, 143)}, 144);
many({STDX_MAP(NEXT, T13, 140, 141, 142, 143, 144)}, 145);
many({STDX_MAP(NEXT, T13, 140, 141, 142, 143, 144, 145)}, 146);
many({STDX_MAP(NEXT, T13, 140, 141, 142, 143, 144, 145, 146)}, 147);
many({STDX_MAP(NEXT, T13, 140, 141, 142, 143, 144, 145, 146, 147)}, 148);
many({STDX_MAP(NEXT, T13, 140, 141, 142, 143, 144, 145, 146, 147, 148)}, 149);
many({STDX_MAP(NEXT, T14)}, 150);
many({STDX_MAP(NEXT, T14, 150)}, 151);
many({STDX_MAP(NEXT, T14, 150, 151)}, 152);
many({STDX_MAP(NEXT, T14, 150, 151, 152)}, 153);
many({STDX_MAP(NEXT, T14, 150, 151, 152, 153)}, 154);
many({STDX_MAP(NEXT, T14, 150, 151, 152, 153, 154)}, 155);
many({STDX_MAP(NEXT, T14, 150, 151, 152, 153, 154, 155)}, 156);
many({STDX_MAP(NEXT, T14, 150, 151, 152, 153, 154, 155, 156)}, 157);
many({STDX_MAP(NEXT, T14, 150, 151, 152, 153, 154, 155, 156, 157)}, 158);
many({STDX_MAP(NEXT, T14, 150, 151, 152, 153, 154, 155, 156, 157, 158)}, 159);
many({STDX_MAP(NEXT, T15)}, 160);
many({STDX_MAP(NEXT, T15, 160)}, 161);
many({STDX_MAP(NEXT, T15, 160, 161)}, 162);
many({STDX_MAP(NEXT, T15, 160, 161, 162)}, 163);
many({STDX_MAP(NEXT, T15, 160, 161, 162, 163)}, 164);
many({STDX_MAP(NEXT, T15, 160, 161, 162, 163, 164)}, 165);
many({STDX_MAP(NEXT, T15, 160, 161, 162, 163, 164, 165)}, 166);
many({STDX_MAP(NEXT, T15, 160, 161, 162, 163, 164, 165, 166)}, 167);
many({STDX_MAP(NEXT, T15, 160, 161, 162, 163, 164, 165, 166, 167)}, 168);
many({STDX_MAP(NEXT, T15, 160, 161, 162, 163, 164, 165, 166, 167, 168)}, 169);
many({STDX_MAP(NEXT, T16)}, 170);
many({STDX_MAP(NEXT, T16, 170)}, 171);
many({STDX_MAP(NEXT, T16, 170, 171)}, 172);
many({STDX_MAP(NEXT, T16, 170, 171, 172)}, 173);
many({STDX_MAP(NEXT, T16, 170, 171, 172, 173)}, 174);
many({STDX_MAP(NEXT, T16, 170, 171, 172, 173, 174)}, 175);
many({STDX_MAP(NEXT, T16, 170, 171, 172, 173, 174, 175)}, 176);
many({STDX_MAP(NEXT, T16, 170, 171, 172, 173, 174, 175, 176)}, 177);
many({STDX_MAP(NEXT, T16, 170, 171, 172, 173, 174, 175, 176, 177)}, 178);
many({STDX_MAP(NEXT, T16, 170, 171, 172, 173, 174, 175, 176, 177, 178)}, 179);
many({STDX_MAP(NEXT, T17)}, 180);
many({STDX_MAP(NEXT, T17, 180)}, 181);
many({STDX_MAP(NEXT, T17, 180, 181)}, 182);
many({STDX_MAP(NEXT, T17, 180, 181, 182)}, 183);
many({STDX_MAP(NEXT, T17, 180, 181, 182, 183)}, 184);
many({STDX_MAP(NEXT, T17, 180, 181, 182, 183, 184)}, 185);
many({STDX_MAP(NEXT, T17, 180, 181, 182, 183, 184, 185)}, 186);
many({STDX_MAP(NEXT, T17, 180, 181, 182, 183, 184, 185, 186)}, 187);
many({STDX_MAP(NEXT, T17, 180, 181, 182, 183, 184, 185, 186, 187)}, 188);
many({STDX_MAP(NEXT, T17, 180, 181, 182, 183, 184, 185, 186, 187, 188)}, 189);
many({STDX_MAP(NEXT, T18)}, 190);
many({STDX_MAP(NEXT, T18, 190)}, 191);
many({STDX_MAP(NEXT, T18, 190, 191)}, 192);
many({STDX_MAP(NEXT, T18, 190, 191, 192)}, 193);
many({STDX_MAP(NEXT, T18, 190, 191, 192, 193)}, 194);
many({STDX_MAP(NEXT, T18, 190, 191, 192, 193, 194)}, 195);
many({STDX_MAP(NEXT, T18, 190, 191, 192, 193, 194, 195)}, 196);
many({STDX_MAP(NEXT, T18, 190, 191, 192, 193, 194, 195, 196)}, 197);
many({STDX_MAP(NEXT, T18, 190, 191, 192, 193, 194, 195, 196, 197)}, 198);
many({STDX_MAP(NEXT, T18, 190, 191, 192, 193, 194, 195, 196, 197, 198)}, 199);
many({STDX_MAP(NEXT, T19)}, 200);
many({STDX_MAP(NEXT, T19, 200)}, 201);
many({STDX_MAP(NEXT, T19, 200, 201)}, 202);
many({STDX_MAP(NEXT, T19, 200, 201, 202)}, 203);
many({STDX_MAP(NEXT, T19, 200, 201, 202, 203)}, 204);
many({STDX_MAP(NEXT, T19, 200, 201, 202, 203, 204)}, 205);
many({STDX_MAP(NEXT, T19, 200, 201, 202, 203, 204, 205)}, 206);
many({STDX_MAP(NEXT, T19, 200, 201, 202, 203, 204, 205, 206)}, 207);
many({STDX_MAP(NEXT, T19, 200, 201, 202, 203, 204, 205, 206, 207)}, 208);
many({STDX_MAP(NEXT, T19, 200, 201, 202, 203, 204, 205, 206, 207, 208)}, 209);
many({STDX_MAP(NEXT, T20)}, 210);
many({STDX_MAP(NEXT, T20, 210)}, 211);
many({STDX_MAP(NEXT, T20, 210, 211)}, 212);
many({STDX_MAP(NEXT, T20, 210, 211, 212)}, 213);
many({STDX_MAP(NEXT, T20, 210, 211, 212, 213)}, 214);
many({STDX_MAP(NEXT, T20, 210, 211, 212, 213, 214)}, 215);
many({STDX_MAP(NEXT, T20, 210, 211, 212, 213, 214, 215)}, 216);
many({STDX_MAP(NEXT, T20, 210, 211, 212, 213, 214, 215, 216)}, 217);
many({STDX_MAP(NEXT, T20, 210, 211, 212, 213, 214, 215, 216, 217)}, 218);
many({STDX_MAP(NEXT, T20, 210, 211, 212, 213, 214, 215, 216, 217, 218)}, 219);
many({STDX_MAP(NEXT, T21)}, 220);
many({STDX_MAP(NEXT, T21, 220)}, 221);
many({STDX_MAP(NEXT, T21, 220, 221)}, 222);
many({STDX_MAP(NEXT, T21, 220, 221, 222)}, 223);
many({STDX_MAP(NEXT, T21, 220, 221, 222, 223)}, 224);
many({STDX_MAP(NEXT, T21, 220, 221, 222, 223, 224)}, 225);
many({STDX_MAP(NEXT, T21, 220, 221, 222, 223, 224, 225)}, 226);
many({STDX_MAP(NEXT, T21, 220, 221, 222, 223, 224, 225, 226)}, 227);
many({STDX_MAP(NEXT, T21, 220, 221, 222, 223, 224, 225, 226, 227)}, 228);
many({STDX_MAP(NEXT, T21, 220, 221, 222, 223, 224, 225, 226, 227, 228)}, 229);
many({STDX_MAP(NEXT, T22)}, 230);
many({STDX_MAP(NEXT, T22, 230)}, 231);
many({STDX_MAP(NEXT, T22, 230, 231)}, 232);
many({STDX_MAP(NEXT, T22, 230, 231, 232)}, 233);
many({STDX_MAP(NEXT, T22, 230, 231, 232, 233)}, 234);
many({STDX_MAP(NEXT, T22, 230, 231, 232, 233, 234)}, 235);
many({STDX_MAP(NEXT, T22, 230, 231, 232, 233, 234, 235)}, 236);
many({STDX_MAP(NEXT, T22, 230, 231, 232, 233, 234, 235, 236)}, 237);
many({STDX_MAP(NEXT, T22, 230, 231, 232, 233, 234, 235, 236, 237)}, 238);
many({STDX_MAP(NEXT, T22, 230, 231, 232, 233, 234, 235, 236, 237, 238)}, 239);
many({STDX_MAP(NEXT, T23)}, 240);
many({STDX_MAP(NEXT, T23, 240)}, 241);
many({STDX_MAP(NEXT, T23, 240, 241)}, 242);
many({STDX_MAP(NEXT, T23, 240, 241, 242)}, 243);
many({STDX_MAP(NEXT, T23, 240, 241, 242, 243)}, 244);
many({STDX_MAP(NEXT, T23, 240, 241, 242, 243, 244)}, 245);
many({STDX_MAP(NEXT, T23, 240, 241, 242, 243, 244, 245)}, 246);
many({STDX_MAP(NEXT, T23, 240, 241, 242, 243, 244, 245, 246)}, 247);
many({STDX_MAP(NEXT, T23, 240, 241, 242, 243, 244, 245, 246, 247)}, 248);
many({STDX_MAP(NEXT, T23, 240, 241, 242, 243, 244, 245, 246, 247, 248)}, 249);
many({STDX_MAP(NEXT, T24)}, 250);
many({STDX_MAP(NEXT, T24, 250)}, 251);
many({STDX_MAP(NEXT, T24, 250, 251)}, 252);
many({STDX_MAP(NEXT, T24, 250, 251, 252)}, 253);
many({STDX_MAP(NEXT, T24, 250, 251, 252, 253)}, 254);
many({STDX_MAP(NEXT, T24, 250, 251, 252, 253, 254)}, 255);
many({STDX_MAP(NEXT, T24, 250, 251, 252, 253, 254, 255)}, 256);
many({STDX_MAP(NEXT, T24, 250, 251, 252, 253, 254, 255, 256)}, 257);
many({STDX_MAP(NEXT, T24, 250, 251, 252, 253, 254, 255, 256, 257)}, 258);
many({STDX_MAP(NEXT, T24, 250, 251, 252, 253, 254, 255, 256, 257, 258)}, 259);
many({STDX_MAP(NEXT, T25)}, 260);
many({STDX_MAP(NEXT, T25, 260)}, 261);
many({STDX_MAP(NEXT, T25, 260, 261)}, 262);
many({STDX_MAP(NEXT, T25, 260, 261, 262)}, 263);
many({STDX_MAP(NEXT, T25, 260, 261, 262, 263)}, 264);
many({STDX_MAP(NEXT, T25, 260, 261, 262, 263, 264)}, 265);
many({STDX_MAP(NEXT, T25, 260, 261, 262, 263, 264, 265)}, 266);
many({STDX_MAP(NEXT, T25, 260, 261, 262, 263, 264, 265, 266)}, 267);
many({STDX_MAP(NEXT, T25, 260, 261, 262, 263, 264, 265, 266, 267)}, 268);
many({STDX_MAP(NEXT, T25, 260, 261, 262, 263, 264, 265, 266, 267, 268)}, 269);
many({STDX_MAP(NEXT, T26)}, 270);
many({STDX_MAP(NEXT, T26, 270)}, 271);
many({STDX_MAP(NEXT, T26, 270, 271)}, 272);
many({STDX_MAP(NEXT, T26, 270, 271, 272)}, 273);
many({STDX_MAP(NEXT, T26, 270, 271, 272, 273)}, 274);
many({STDX_MAP(NEXT, T26, 270, 271, 272, 273, 274)}, 275);
many({STDX_MAP(NEXT, T26, 270, 271, 272, 273, 274, 275)}, 276);
many({STDX_MAP(NEXT, T26, 270, 271, 272, 273, 274, 275, 276)}, 277);
many({STDX_MAP(NEXT, T26, 270, 271, 272, 273, 274, 275, 276, 277)}, 278);
many({STDX_MAP(NEXT, T26, 270, 271, 272, 273, 274, 275, 276, 277, 278)}, 279);
many({STDX_MAP(NEXT, T27)}, 280);
many({STDX_MAP(NEXT, T27, 280)}, 281);
many({STDX_MAP(NEXT, T27, 280, 281)}, 282);
many({STDX_MAP(NEXT, T27, 280, 281, 282)}, 283);
many({STDX_MAP(NEXT, T27, 280, 281, 282, 283)}, 284);
many({STDX_MAP(NEXT, T27, 280, 281, 282, 283, 284)}, 285);
many({STDX_MAP(NEXT, T27, 280, 281, 282, 283, 284, 285)}, 286);
many({STDX_MAP(NEXT, T27, 280, 281, 282, 283, 284, 285, 286)}, 287);
many({STDX_MAP(NEXT, T27, 280, 281, 282, 283, 284, 285, 286, 287)}, 288);
many({STDX_MAP(NEXT, T27, 280, 281, 282, 283, 284, 285, 286, 287, 288)}, 289);
many({STDX_MAP(NEXT, T28)}, 290);
many({STDX_MAP(NEXT, T28, 290)}, 291);
many({STDX_MAP(NEXT, T28, 290, 291)}, 292);
many({STDX_MAP(NEXT, T28, 290, 291, 292)}, 293);
many({STDX_MAP(NEXT, T28, 290, 291, 292, 293)}, 294);
many({STDX_MAP(NEXT, T28, 290, 291, 292, 293, 294)}, 295);
many({STDX_MAP(NEXT, T28, 290, 291, 292, 293, 294, 295)}, 296);
many({STDX_MAP(NEXT, T28, 290, 291, 292, 293, 294, 295, 296)}, 297);
many({STDX_MAP(NEXT, T28, 290, 291, 292, 293, 294, 295, 296, 297)}, 298);
many({STDX_MAP(NEXT, T28, 290, 291, 292, 293, 294, 295, 296, 297, 298)}, 299);
many({STDX_MAP(NEXT, T29)}, 300);
many({STDX_MAP(NEXT, T29, 300)}, 301);
many({STDX_MAP(NEXT, T29, 300, 301)}, 302);
many({STDX_MAP(NEXT, T29, 300, 301, 302)}, 303);
many({STDX_MAP(NEXT, T29, 300, 301, 302, 303)}, 304);
many({STDX_MAP(NEXT, T29, 300, 301, 302, 303, 304)}, 305);
many({STDX_MAP(NEXT, T29, 300, 301, 302, 303, 304, 305)}, 306);
many({STDX_MAP(NEXT, T29, 300, 301, 302, 303, 304, 305, 306)}, 307);
many({STDX_MAP(NEXT, T29, 300, 301, 302, 303, 304, 305, 306, 307)}, 308);
many({STDX_MAP(NEXT, T29, 300, 301, 302, 303, 304, 305, 306, 307, 308)}, 309);
many({STDX_MAP(NEXT, T30)}, 310);
many({STDX_MAP(NEXT, T30, 310)}, 311);
many({STDX_MAP(NEXT, T30, 310, 311)}, 312);
many({STDX_MAP(NEXT, T30, 310, 311, 312)}, 313);
many({STDX_MAP(NEXT, T30, 310, 311, 312, 313)}, 314);
many({STDX_MAP(NEXT, T30, 310, 311, 312, 313, 314)}, 315);
many({STDX_MAP(NEXT, T30, 310, 311, 312, 313, 314, 315)}, 316);
many({STDX_MAP(NEXT, T30, 310, 311, 312, 313, 314, 315, 316)}, 317);
many({STDX_MAP(NEXT, T30, 310, 311, 312, 313, 314, 315, 316, 317)}, 318);
many({STDX_MAP(NEXT, T30, 310, 311, 312, 313, 314, 315, 316, 317, 318)}, 319);
many({STDX_MAP(NEXT, T31)}, 320);
many({STDX_MAP(NEXT, T31, 320)}, 321);
many({STDX_MAP(NEXT, T31, 320, 321)}, 322);
many({STDX_MAP(NEXT, T31, 320, 321, 322)}, 323);
many({STDX_MAP(NEXT, T31, 320, 321, 322, 323)}, 324);
many({STDX_MAP(NEXT, T31, 320, 321, 322, 323, 324)}, 325);
many({STDX_MAP(NEXT, T31, 320, 321, 322, 323, 324, 325)}, 326);
many({STDX_MAP(NEXT, T31, 320, 321, 322, 323, 324, 325, 326)}, 327);
many({STDX_MAP(NEXT, T31, 320, 321, 322, 323, 324, 325, 326, 327)}, 328);
many({STDX_MAP(NEXT, T31, 320, 321, 322, 323, 324, 325, 326, 327, 328)}, 329);
many({STDX_MAP(NEXT, T32)}, 330);
many({STDX_MAP(NEXT, T32, 330)}, 331);
many({STDX_MAP(NEXT, T32, 330, 331)}, 332);
many({STDX_MAP(NEXT, T32, 330, 331, 332)}, 333);
many({STDX_MAP(NEXT, T32, 330, 331, 332, 333)}, 334);
many({STDX_MAP(NEXT, T32, 330, 331, 332, 333, 334)}, 335);
many({STDX_MAP(NEXT, T32, 330, 331, 332, 333, 334, 335)}, 336);
many({STDX_MAP(NEXT, T32, 330, 331, 332, 333, 334, 335, 336)}, 337);
many({STDX_MAP(NEXT, T32, 330, 331, 332, 333, 334, 335, 336, 337)}, 338);
many({STDX_MAP(NEXT, T32, 330, 331, 332, 333, 334, 335, 336, 337, 338)}, 339);
many({STDX_MAP(NEXT, T33)}, 340);
many({STDX_MAP(NEXT, T33, 340)}, 341);
many({STDX_MAP(NEXT, T33, 340, 341)}, 342);
many({STDX_MAP(NEXT, T33, 340, 341, 342)}, 343);
many({STDX_MAP(NEXT, T33, 340, 341, 342, 343)}, 344);
many({STDX_MAP(NEXT, T33, 340, 341, 342, 343, 344)}, 345);
many({STDX_MAP(NEXT, T33, 340, 341, 342, 343, 344, 345)}, 346);
many({STDX_MAP(NEXT, T33, 340, 341, 342, 343, 344, 345, 346)}, 347);
many({STDX_MAP(NEXT, T33, 340, 341, 342, 343, 344, 345, 346, 347)}, 348);
many({STDX_MAP(NEXT, T33, 340, 341, 342, 343, 344, 345, 346, 347, 348)}, 349);
many({STDX_MAP(NEXT, T34)}, 350);
many({STDX_MAP(NEXT, T34, 350)}, 351);
many({STDX_MAP(NEXT, T34, 350, 351)}, 352);
many({STDX_MAP(NEXT, T34, 350, 351, 352)}, 353);
many({STDX_MAP(NEXT, T34, 350, 351, 352, 353)}, 354);
many({STDX_MAP(NEXT, T34, 350, 351, 352, 353, 354)}, 355);
many({STDX_MAP(NEXT, T34, 350, 351, 352, 353, 354, 355)}, 356);
many({STDX_MAP(NEXT, T34, 350, 351, 352, 353, 354, 355, 356)}, 357);
many({STDX_MAP(NEXT, T34, 350, 351, 352, 353, 354, 355, 356, 357)}, 358);
many({STDX_MAP(NEXT, T34, 350, 351, 352, 353, 354, 355, 356, 357, 358)}, 359);
many({STDX_MAP(NEXT, T35)}, 360);
many({STDX_MAP(NEXT, T35, 360)}, 361);
many({STDX_MAP(NEXT, T35, 360, 361)}, 362);
many({STDX_MAP(NEXT, T35, 360, 361, 362)}, 363);
many({STDX_MAP(NEXT, T35, 360, 361, 362, 363)}, 364);
many({STDX_MAP(NEXT, T35, 360, 361, 362, 363, 364)}, 365);
