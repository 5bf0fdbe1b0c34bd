#ifndef SHIM_ICU_UTF8_H_
#define SHIM_ICU_UTF8_H_
#define U8_IS_TRAIL(c) (((unsigned char)(c) & 0xC0) == 0x80)
#define U8_IS_SINGLE(c) (((c) & 0x80) == 0)
#define U8_IS_LEAD(c) ((unsigned char)((c) - 0xC2) <= 0x32)
#define U8_FWD_1(s, i, n) { ++(i); while ((i) < (n) && U8_IS_TRAIL((s)[i])) ++(i); }
#define U8_FWD_N(s, i, n, k) { int shim_k = (k); while (shim_k-- > 0 && (i) < (int)(n)) U8_FWD_1(s, i, (int)(n)) }
#define U8_TRUNCATE_IF_INCOMPLETE(s, start, n)
#endif
