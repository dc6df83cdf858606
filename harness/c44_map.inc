mapped(TEXT(), {});
mapped(TEXT(0), upto(1));
mapped(TEXT(0, 1), upto(2));
mapped(TEXT(0, 1, 2), upto(3));
mapped(TEXT(0, 1, 2, 3), upto(4));
mapped(TEXT(0, 1, 2, 3, 4), upto(5));
mapped(TEXT(0, 1, 2, 3, 4, 5), upto(6));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6), upto(7));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7), upto(8));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8), upto(9));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9), upto(10));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), upto(11));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), upto(12));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), upto(13));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13), upto(14));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14), upto(15));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), upto(16));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16), upto(17));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17), upto(18));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18), upto(19));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19), upto(20));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20), upto(21));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21), upto(22));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22), upto(23));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23), upto(24));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24), upto(25));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25), upto(26));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26), upto(27));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27), upto(28));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28), upto(29));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29), upto(30));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30), upto(31));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31), upto(32));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32), upto(33));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33), upto(34));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34), upto(35));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35), upto(36));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36), upto(37));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37), upto(38));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38), upto(39));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39), upto(40));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40), upto(41));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41), upto(42));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42), upto(43));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43), upto(44));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44), upto(45));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45), upto(46));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46), upto(47));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47), upto(48));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48), upto(49));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49), upto(50));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50), upto(51));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51), upto(52));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52), upto(53));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53), upto(54));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54), upto(55));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55), upto(56));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56), upto(57));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57), upto(58));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58), upto(59));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59), upto(60));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79), upto(80));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99), upto(100));
mapped(TEXT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119), upto(120));
mapped(TEXT((a, b)), {"(a, b)"});
mapped(TEXT((x)), {"(x)"});
mapped(TEXT(f(a, b)), {"f(a, b)"});
mapped(TEXT((f)(a)), {"(f)(a)"});
mapped(TEXT("s, t"), {R"("s, t")"});
mapped(TEXT({}), {"{}"});
mapped(TEXT(-1), {"-1"});
mapped(TEXT(()), {"()"});
mapped(TEXT((a, b), 1), {"(a, b)", "1"});
mapped(TEXT((x), 1), {"(x)", "1"});
mapped(TEXT(f(a, b), 1), {"f(a, b)", "1"});
mapped(TEXT((f)(a), 1), {"(f)(a)", "1"});
mapped(TEXT("s, t", 1), {R"("s, t")", "1"});
mapped(TEXT({}, 1), {"{}", "1"});
mapped(TEXT(-1, 1), {"-1", "1"});
mapped(TEXT((), 1), {"()", "1"});
mapped(TEXT(0, (a, b)), {"0", "(a, b)"});
mapped(TEXT(0, (x)), {"0", "(x)"});
mapped(TEXT(0, f(a, b)), {"0", "f(a, b)"});
mapped(TEXT(0, (f)(a)), {"0", "(f)(a)"});
mapped(TEXT(0, "s, t"), {"0", R"("s, t")"});
mapped(TEXT(0, {}), {"0", "{}"});
mapped(TEXT(0, -1), {"0", "-1"});
mapped(TEXT(0, ()), {"0", "()"});
mapped(TEXT((a, b), 1, 2), {"(a, b)", "1", "2"});
mapped(TEXT((x), 1, 2), {"(x)", "1", "2"});
mapped(TEXT(f(a, b), 1, 2), {"f(a, b)", "1", "2"});
mapped(TEXT((f)(a), 1, 2), {"(f)(a)", "1", "2"});
mapped(TEXT("s, t", 1, 2), {R"("s, t")", "1", "2"});
mapped(TEXT({}, 1, 2), {"{}", "1", "2"});
mapped(TEXT(-1, 1, 2), {"-1", "1", "2"});
mapped(TEXT((), 1, 2), {"()", "1", "2"});
mapped(TEXT(0, (a, b), 2), {"0", "(a, b)", "2"});
mapped(TEXT(0, (x), 2), {"0", "(x)", "2"});
mapped(TEXT(0, f(a, b), 2), {"0", "f(a, b)", "2"});
mapped(TEXT(0, (f)(a), 2), {"0", "(f)(a)", "2"});
mapped(TEXT(0, "s, t", 2), {"0", R"("s, t")", "2"});
mapped(TEXT(0, {}, 2), {"0", "{}", "2"});
mapped(TEXT(0, -1, 2), {"0", "-1", "2"});
mapped(TEXT(0, (), 2), {"0", "()", "2"});
mapped(TEXT(0, 1, (a, b)), {"0", "1", "(a, b)"});
mapped(TEXT(0, 1, (x)), {"0", "1", "(x)"});
mapped(TEXT(0, 1, f(a, b)), {"0", "1", "f(a, b)"});
mapped(TEXT(0, 1, (f)(a)), {"0", "1", "(f)(a)"});
mapped(TEXT(0, 1, "s, t"), {"0", "1", R"("s, t")"});
mapped(TEXT(0, 1, {}), {"0", "1", "{}"});
mapped(TEXT(0, 1, -1), {"0", "1", "-1"});
mapped(TEXT(0, 1, ()), {"0", "1", "()"});
mapped(TEXT((a, b), 1, 2, 3), {"(a, b)", "1", "2", "3"});
mapped(TEXT((x), 1, 2, 3), {"(x)", "1", "2", "3"});
mapped(TEXT(f(a, b), 1, 2, 3), {"f(a, b)", "1", "2", "3"});
mapped(TEXT((f)(a), 1, 2, 3), {"(f)(a)", "1", "2", "3"});
mapped(TEXT("s, t", 1, 2, 3), {R"("s, t")", "1", "2", "3"});
mapped(TEXT({}, 1, 2, 3), {"{}", "1", "2", "3"});
mapped(TEXT(-1, 1, 2, 3), {"-1", "1", "2", "3"});
mapped(TEXT((), 1, 2, 3), {"()", "1", "2", "3"});
mapped(TEXT(0, (a, b), 2, 3), {"0", "(a, b)", "2", "3"});
mapped(TEXT(0, (x), 2, 3), {"0", "(x)", "2", "3"});
mapped(TEXT(0, f(a, b), 2, 3), {"0", "f(a, b)", "2", "3"});
mapped(TEXT(0, (f)(a), 2, 3), {"0", "(f)(a)", "2", "3"});
mapped(TEXT(0, "s, t", 2, 3), {"0", R"("s, t")", "2", "3"});
mapped(TEXT(0, {}, 2, 3), {"0", "{}", "2", "3"});
mapped(TEXT(0, -1, 2, 3), {"0", "-1", "2", "3"});
mapped(TEXT(0, (), 2, 3), {"0", "()", "2", "3"});
mapped(TEXT(0, 1, (a, b), 3), {"0", "1", "(a, b)", "3"});
mapped(TEXT(0, 1, (x), 3), {"0", "1", "(x)", "3"});
mapped(TEXT(0, 1, f(a, b), 3), {"0", "1", "f(a, b)", "3"});
mapped(TEXT(0, 1, (f)(a), 3), {"0", "1", "(f)(a)", "3"});
mapped(TEXT(0, 1, "s, t", 3), {"0", "1", R"("s, t")", "3"});
mapped(TEXT(0, 1, {}, 3), {"0", "1", "{}", "3"});
mapped(TEXT(0, 1, -1, 3), {"0", "1", "-1", "3"});
mapped(TEXT(0, 1, (), 3), {"0", "1", "()", "3"});
mapped(TEXT(0, 1, 2, (a, b)), {"0", "1", "2", "(a, b)"});
mapped(TEXT(0, 1, 2, (x)), {"0", "1", "2", "(x)"});
mapped(TEXT(0, 1, 2, f(a, b)), {"0", "1", "2", "f(a, b)"});
mapped(TEXT(0, 1, 2, (f)(a)), {"0", "1", "2", "(f)(a)"});
mapped(TEXT(0, 1, 2, "s, t"), {"0", "1", "2", R"("s, t")"});
mapped(TEXT(0, 1, 2, {}), {"0", "1", "2", "{}"});
mapped(TEXT(0, 1, 2, -1), {"0", "1", "2", "-1"});
mapped(TEXT(0, 1, 2, ()), {"0", "1", "2", "()"});
mapped(TEXT((a, b), 1, 2, 3, 4), {"(a, b)", "1", "2", "3", "4"});
mapped(TEXT((x), 1, 2, 3, 4), {"(x)", "1", "2", "3", "4"});
mapped(TEXT(f(a, b), 1, 2, 3, 4), {"f(a, b)", "1", "2", "3", "4"});
mapped(TEXT((f)(a), 1, 2, 3, 4), {"(f)(a)", "1", "2", "3", "4"});
mapped(TEXT("s, t", 1, 2, 3, 4), {R"("s, t")", "1", "2", "3", "4"});
mapped(TEXT({}, 1, 2, 3, 4), {"{}", "1", "2", "3", "4"});
mapped(TEXT(-1, 1, 2, 3, 4), {"-1", "1", "2", "3", "4"});
mapped(TEXT((), 1, 2, 3, 4), {"()", "1", "2", "3", "4"});
mapped(TEXT(0, (a, b), 2, 3, 4), {"0", "(a, b)", "2", "3", "4"});
mapped(TEXT(0, (x), 2, 3, 4), {"0", "(x)", "2", "3", "4"});
mapped(TEXT(0, f(a, b), 2, 3, 4), {"0", "f(a, b)", "2", "3", "4"});
mapped(TEXT(0, (f)(a), 2, 3, 4), {"0", "(f)(a)", "2", "3", "4"});
mapped(TEXT(0, "s, t", 2, 3, 4), {"0", R"("s, t")", "2", "3", "4"});
mapped(TEXT(0, {}, 2, 3, 4), {"0", "{}", "2", "3", "4"});
mapped(TEXT(0, -1, 2, 3, 4), {"0", "-1", "2", "3", "4"});
mapped(TEXT(0, (), 2, 3, 4), {"0", "()", "2", "3", "4"});
mapped(TEXT(0, 1, (a, b), 3, 4), {"0", "1", "(a, b)", "3", "4"});
mapped(TEXT(0, 1, (x), 3, 4), {"0", "1", "(x)", "3", "4"});
mapped(TEXT(0, 1, f(a, b), 3, 4), {"0", "1", "f(a, b)", "3", "4"});
mapped(TEXT(0, 1, (f)(a), 3, 4), {"0", "1", "(f)(a)", "3", "4"});
mapped(TEXT(0, 1, "s, t", 3, 4), {"0", "1", R"("s, t")", "3", "4"});
mapped(TEXT(0, 1, {}, 3, 4), {"0", "1", "{}", "3", "4"});
mapped(TEXT(0, 1, -1, 3, 4), {"0", "1", "-1", "3", "4"});
mapped(TEXT(0, 1, (), 3, 4), {"0", "1", "()", "3", "4"});
mapped(TEXT(0, 1, 2, (a, b), 4), {"0", "1", "2", "(a, b)", "4"});
mapped(TEXT(0, 1, 2, (x), 4), {"0", "1", "2", "(x)", "4"});
mapped(TEXT(0, 1, 2, f(a, b), 4), {"0", "1", "2", "f(a, b)", "4"});
mapped(TEXT(0, 1, 2, (f)(a), 4), {"0", "1", "2", "(f)(a)", "4"});
mapped(TEXT(0, 1, 2, "s, t", 4), {"0", "1", "2", R"("s, t")", "4"});
mapped(TEXT(0, 1, 2, {}, 4), {"0", "1", "2", "{}", "4"});
mapped(TEXT(0, 1, 2, -1, 4), {"0", "1", "2", "-1", "4"});
mapped(TEXT(0, 1, 2, (), 4), {"0", "1", "2", "()", "4"});
mapped(TEXT(0, 1, 2, 3, (a, b)), {"0", "1", "2", "3", "(a, b)"});
mapped(TEXT(0, 1, 2, 3, (x)), {"0", "1", "2", "3", "(x)"});
mapped(TEXT(0, 1, 2, 3, f(a, b)), {"0", "1", "2", "3", "f(a, b)"});
mapped(TEXT(0, 1, 2, 3, (f)(a)), {"0", "1", "2", "3", "(f)(a)"});
mapped(TEXT(0, 1, 2, 3, "s, t"), {"0", "1", "2", "3", R"("s, t")"});
mapped(TEXT(0, 1, 2, 3, {}), {"0", "1", "2", "3", "{}"});
mapped(TEXT(0, 1, 2, 3, -1), {"0", "1", "2", "3", "-1"});
mapped(TEXT(0, 1, 2, 3, ()), {"0", "1", "2", "3", "()"});
mapped(TEXT((a, b), 1, 2, 3, 4, 5), {"(a, b)", "1", "2", "3", "4", "5"});
mapped(TEXT((x), 1, 2, 3, 4, 5), {"(x)", "1", "2", "3", "4", "5"});
mapped(TEXT(f(a, b), 1, 2, 3, 4, 5), {"f(a, b)", "1", "2", "3", "4", "5"});
mapped(TEXT((f)(a), 1, 2, 3, 4, 5), {"(f)(a)", "1", "2", "3", "4", "5"});
mapped(TEXT("s, t", 1, 2, 3, 4, 5), {R"("s, t")", "1", "2", "3", "4", "5"});
mapped(TEXT({}, 1, 2, 3, 4, 5), {"{}", "1", "2", "3", "4", "5"});
mapped(TEXT(-1, 1, 2, 3, 4, 5), {"-1", "1", "2", "3", "4", "5"});
mapped(TEXT((), 1, 2, 3, 4, 5), {"()", "1", "2", "3", "4", "5"});
mapped(TEXT(0, (a, b), 2, 3, 4, 5), {"0", "(a, b)", "2", "3", "4", "5"});
mapped(TEXT(0, (x), 2, 3, 4, 5), {"0", "(x)", "2", "3", "4", "5"});
mapped(TEXT(0, f(a, b), 2, 3, 4, 5), {"0", "f(a, b)", "2", "3", "4", "5"});
mapped(TEXT(0, (f)(a), 2, 3, 4, 5), {"0", "(f)(a)", "2", "3", "4", "5"});
mapped(TEXT(0, "s, t", 2, 3, 4, 5), {"0", R"("s, t")", "2", "3", "4", "5"});
mapped(TEXT(0, {}, 2, 3, 4, 5), {"0", "{}", "2", "3", "4", "5"});
mapped(TEXT(0, -1, 2, 3, 4, 5), {"0", "-1", "2", "3", "4", "5"});
mapped(TEXT(0, (), 2, 3, 4, 5), {"0", "()", "2", "3", "4", "5"});
mapped(TEXT(0, 1, (a, b), 3, 4, 5), {"0", "1", "(a, b)", "3", "4", "5"});
mapped(TEXT(0, 1, (x), 3, 4, 5), {"0", "1", "(x)", "3", "4", "5"});
mapped(TEXT(0, 1, f(a, b), 3, 4, 5), {"0", "1", "f(a, b)", "3", "4", "5"});
mapped(TEXT(0, 1, (f)(a), 3, 4, 5), {"0", "1", "(f)(a)", "3", "4", "5"});
mapped(TEXT(0, 1, "s, t", 3, 4, 5), {"0", "1", R"("s, t")", "3", "4", "5"});
mapped(TEXT(0, 1, {}, 3, 4, 5), {"0", "1", "{}", "3", "4", "5"});
mapped(TEXT(0, 1, -1, 3, 4, 5), {"0", "1", "-1", "3", "4", "5"});
mapped(TEXT(0, 1, (), 3, 4, 5), {"0", "1", "()", "3", "4", "5"});
mapped(TEXT(0, 1, 2, (a, b), 4, 5), {"0", "1", "2", "(a, b)", "4", "5"});
mapped(TEXT(0, 1, 2, (x), 4, 5), {"0", "1", "2", "(x)", "4", "5"});
mapped(TEXT(0, 1, 2, f(a, b), 4, 5), {"0", "1", "2", "f(a, b)", "4", "5"});
mapped(TEXT(0, 1, 2, (f)(a), 4, 5), {"0", "1", "2", "(f)(a)", "4", "5"});
mapped(TEXT(0, 1, 2, "s, t", 4, 5), {"0", "1", "2", R"("s, t")", "4", "5"});
mapped(TEXT(0, 1, 2, {}, 4, 5), {"0", "1", "2", "{}", "4", "5"});
mapped(TEXT(0, 1, 2, -1, 4, 5), {"0", "1", "2", "-1", "4", "5"});
mapped(TEXT(0, 1, 2, (), 4, 5), {"0", "1", "2", "()", "4", "5"});
mapped(TEXT(0, 1, 2, 3, (a, b), 5), {"0", "1", "2", "3", "(a, b)", "5"});
mapped(TEXT(0, 1, 2, 3, (x), 5), {"0", "1", "2", "3", "(x)", "5"});
mapped(TEXT(0, 1, 2, 3, f(a, b), 5), {"0", "1", "2", "3", "f(a, b)", "5"});
mapped(TEXT(0, 1, 2, 3, (f)(a), 5), {"0", "1", "2", "3", "(f)(a)", "5"});
mapped(TEXT(0, 1, 2, 3, "s, t", 5), {"0", "1", "2", "3", R"("s, t")", "5"});
mapped(TEXT(0, 1, 2, 3, {}, 5), {"0", "1", "2", "3", "{}", "5"});
mapped(TEXT(0, 1, 2, 3, -1, 5), {"0", "1", "2", "3", "-1", "5"});
mapped(TEXT(0, 1, 2, 3, (), 5), {"0", "1", "2", "3", "()", "5"});
mapped(TEXT(0, 1, 2, 3, 4, (a, b)), {"0", "1", "2", "3", "4", "(a, b)"});
mapped(TEXT(0, 1, 2, 3, 4, (x)), {"0", "1", "2", "3", "4", "(x)"});
mapped(TEXT(0, 1, 2, 3, 4, f(a, b)), {"0", "1", "2", "3", "4", "f(a, b)"});
mapped(TEXT(0, 1, 2, 3, 4, (f)(a)), {"0", "1", "2", "3", "4", "(f)(a)"});
mapped(TEXT(0, 1, 2, 3, 4, "s, t"), {"0", "1", "2", "3", "4", R"("s, t")"});
mapped(TEXT(0, 1, 2, 3, 4, {}), {"0", "1", "2", "3", "4", "{}"});
mapped(TEXT(0, 1, 2, 3, 4, -1), {"0", "1", "2", "3", "4", "-1"});
mapped(TEXT(0, 1, 2, 3, 4, ()), {"0", "1", "2", "3", "4", "()"});
mapped(TEXT((a, b), 1, 2, 3, 4, 5, 6), {"(a, b)", "1", "2", "3", "4", "5", "6"});
mapped(TEXT((x), 1, 2, 3, 4, 5, 6), {"(x)", "1", "2", "3", "4", "5", "6"});
mapped(TEXT(f(a, b), 1, 2, 3, 4, 5, 6), {"f(a, b)", "1", "2", "3", "4", "5", "6"});
mapped(TEXT((f)(a), 1, 2, 3, 4, 5, 6), {"(f)(a)", "1", "2", "3", "4", "5", "6"});
mapped(TEXT("s, t", 1, 2, 3, 4, 5, 6), {R"("s, t")", "1", "2", "3", "4", "5", "6"});
mapped(TEXT({}, 1, 2, 3, 4, 5, 6), {"{}", "1", "2", "3", "4", "5", "6"});
mapped(TEXT(-1, 1, 2, 3, 4, 5, 6), {"-1", "1", "2", "3", "4", "5", "6"});
mapped(TEXT((), 1, 2, 3, 4, 5, 6), {"()", "1", "2", "3", "4", "5", "6"});
mapped(TEXT(0, (a, b), 2, 3, 4, 5, 6), {"0", "(a, b)", "2", "3", "4", "5", "6"});
mapped(TEXT(0, (x), 2, 3, 4, 5, 6), {"0", "(x)", "2", "3", "4", "5", "6"});
mapped(TEXT(0, f(a, b), 2, 3, 4, 5, 6), {"0", "f(a, b)", "2", "3", "4", "5", "6"});
mapped(TEXT(0, (f)(a), 2, 3, 4, 5, 6), {"0", "(f)(a)", "2", "3", "4", "5", "6"});
mapped(TEXT(0, "s, t", 2, 3, 4, 5, 6), {"0", R"("s, t")", "2", "3", "4", "5", "6"});
mapped(TEXT(0, {}, 2, 3, 4, 5, 6), {"0", "{}", "2", "3", "4", "5", "6"});
mapped(TEXT(0, -1, 2, 3, 4, 5, 6), {"0", "-1", "2", "3", "4", "5", "6"});
mapped(TEXT(0, (), 2, 3, 4, 5, 6), {"0", "()", "2", "3", "4", "5", "6"});
mapped(TEXT(0, 1, (a, b), 3, 4, 5, 6), {"0", "1", "(a, b)", "3", "4", "5", "6"});
mapped(TEXT(0, 1, (x), 3, 4, 5, 6), {"0", "1", "(x)", "3", "4", "5", "6"});
mapped(TEXT(0, 1, f(a, b), 3, 4, 5, 6), {"0", "1", "f(a, b)", "3", "4", "5", "6"});
mapped(TEXT(0, 1, (f)(a), 3, 4, 5, 6), {"0", "1", "(f)(a)", "3", "4", "5", "6"});
mapped(TEXT(0, 1, "s, t", 3, 4, 5, 6), {"0", "1", R"("s, t")", "3", "4", "5", "6"});
mapped(TEXT(0, 1, {}, 3, 4, 5, 6), {"0", "1", "{}", "3", "4", "5", "6"});
mapped(TEXT(0, 1, -1, 3, 4, 5, 6), {"0", "1", "-1", "3", "4", "5", "6"});
mapped(TEXT(0, 1, (), 3, 4, 5, 6), {"0", "1", "()", "3", "4", "5", "6"});
mapped(TEXT(0, 1, 2, (a, b), 4, 5, 6), {"0", "1", "2", "(a, b)", "4", "5", "6"});
mapped(TEXT(0, 1, 2, (x), 4, 5, 6), {"0", "1", "2", "(x)", "4", "5", "6"});
mapped(TEXT(0, 1, 2, f(a, b), 4, 5, 6), {"0", "1", "2", "f(a, b)", "4", "5", "6"});
mapped(TEXT(0, 1, 2, (f)(a), 4, 5, 6), {"0", "1", "2", "(f)(a)", "4", "5", "6"});
mapped(TEXT(0, 1, 2, "s, t", 4, 5, 6), {"0", "1", "2", R"("s, t")", "4", "5", "6"});
mapped(TEXT(0, 1, 2, {}, 4, 5, 6), {"0", "1", "2", "{}", "4", "5", "6"});
mapped(TEXT(0, 1, 2, -1, 4, 5, 6), {"0", "1", "2", "-1", "4", "5", "6"});
mapped(TEXT(0, 1, 2, (), 4, 5, 6), {"0", "1", "2", "()", "4", "5", "6"});
mapped(TEXT(0, 1, 2, 3, (a, b), 5, 6), {"0", "1", "2", "3", "(a, b)", "5", "6"});
mapped(TEXT(0, 1, 2, 3, (x), 5, 6), {"0", "1", "2", "3", "(x)", "5", "6"});
mapped(TEXT(0, 1, 2, 3, f(a, b), 5, 6), {"0", "1", "2", "3", "f(a, b)", "5", "6"});
mapped(TEXT(0, 1, 2, 3, (f)(a), 5, 6), {"0", "1", "2", "3", "(f)(a)", "5", "6"});
mapped(TEXT(0, 1, 2, 3, "s, t", 5, 6), {"0", "1", "2", "3", R"("s, t")", "5", "6"});
mapped(TEXT(0, 1, 2, 3, {}, 5, 6), {"0", "1", "2", "3", "{}", "5", "6"});
mapped(TEXT(0, 1, 2, 3, -1, 5, 6), {"0", "1", "2", "3", "-1", "5", "6"});
mapped(TEXT(0, 1, 2, 3, (), 5, 6), {"0", "1", "2", "3", "()", "5", "6"});
mapped(TEXT(0, 1, 2, 3, 4, (a, b), 6), {"0", "1", "2", "3", "4", "(a, b)", "6"});
mapped(TEXT(0, 1, 2, 3, 4, (x), 6), {"0", "1", "2", "3", "4", "(x)", "6"});
mapped(TEXT(0, 1, 2, 3, 4, f(a, b), 6), {"0", "1", "2", "3", "4", "f(a, b)", "6"});
mapped(TEXT(0, 1, 2, 3, 4, (f)(a), 6), {"0", "1", "2", "3", "4", "(f)(a)", "6"});
mapped(TEXT(0, 1, 2, 3, 4, "s, t", 6), {"0", "1", "2", "3", "4", R"("s, t")", "6"});
mapped(TEXT(0, 1, 2, 3, 4, {}, 6), {"0", "1", "2", "3", "4", "{}", "6"});
mapped(TEXT(0, 1, 2, 3, 4, -1, 6), {"0", "1", "2", "3", "4", "-1", "6"});
mapped(TEXT(0, 1, 2, 3, 4, (), 6), {"0", "1", "2", "3", "4", "()", "6"});
mapped(TEXT(0, 1, 2, 3, 4, 5, (a, b)), {"0", "1", "2", "3", "4", "5", "(a, b)"});
mapped(TEXT(0, 1, 2, 3, 4, 5, (x)), {"0", "1", "2", "3", "4", "5", "(x)"});
mapped(TEXT(0, 1, 2, 3, 4, 5, f(a, b)), {"0", "1", "2", "3", "4", "5", "f(a, b)"});
mapped(TEXT(0, 1, 2, 3, 4, 5, (f)(a)), {"0", "1", "2", "3", "4", "5", "(f)(a)"});
mapped(TEXT(0, 1, 2, 3, 4, 5, "s, t"), {"0", "1", "2", "3", "4", "5", R"("s, t")"});
mapped(TEXT(0, 1, 2, 3, 4, 5, {}), {"0", "1", "2", "3", "4", "5", "{}"});
mapped(TEXT(0, 1, 2, 3, 4, 5, -1), {"0", "1", "2", "3", "4", "5", "-1"});
mapped(TEXT(0, 1, 2, 3, 4, 5, ()), {"0", "1", "2", "3", "4", "5", "()"});
