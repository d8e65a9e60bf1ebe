/* Periods as applications write them: literals, expressions and variables of any integer type, with the macros of
   hawktracer/duration_conversion.h.  Included by a C, a C++98 and a C++11 translation unit. */
    {
        int three = 3; short tenth = 10; unsigned char small = 200; long sec = 7; unsigned many = 4000000000u;
        switch (n % USER_DURS) {
        case 0: *want = 250; return HT_DUR_NS(250);
        case 1: *want = 3; return HT_DUR_NS(three);
        case 2: *want = 7000; return HT_DUR_US(7);
        case 3: *want = 5000; return HT_DUR_US(2 + three);
        case 4: *want = 30000000ull; return HT_DUR_MS(3 * tenth);
        case 5: *want = 5000000ull; return HT_DUR_MS(2 + 3);
        case 6: *want = 5000000000ull; return HT_DUR_S(5);
        case 7: *want = 5000000000ull; return HT_DUR_MS(5000);
        case 8: *want = 60000000000ull; return HT_DUR_S(60);
        case 9: *want = 6000000000ull; return HT_DUR_S(three + 3);
        case 10: *want = 7000000000ull; return HT_DUR_S(sec);
        case 11: *want = 200000000000ull; return HT_DUR_S(small);
        case 12: *want = 4000000000000ull; return HT_DUR_US(many);
        case 13: *want = 3000000000ull; return HT_DUR_US(three * 1000000);
        case 14: *want = 10000000000ull; return HT_DUR_S(tenth);
        case 15: *want = 86400000000000ull; return HT_DUR_S(24 * 60 * 60);
        case 16: *want = 12; return HT_DUR_NS(three | 12 & 12) - three;
        case 17: *want = 600000000000ull; return HT_DUR_S(10) * 60;
        case 18: *want = 6000; return 2 * HT_DUR_NS(1000 + 2000);
        default: *want = 1000000000ull; return HT_DUR_S(1);
        }
    }
