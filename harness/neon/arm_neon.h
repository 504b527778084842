/*
Stand-in for the compiler's arm_neon.h, so that the NEON code paths can be run
on other machines: the intrinsics the repository uses, lane by lane as the
Arm C Language Extensions define them.
*/
#pragma once
#include <cstdint>
#define NE_TYPE(T, N, NAME) typedef T NAME __attribute__((vector_size(sizeof(T) * N), aligned(sizeof(T) * N)));
NE_TYPE(int8_t, 16, int8x16_t) NE_TYPE(int16_t, 8, int16x8_t) NE_TYPE(int32_t, 4, int32x4_t) NE_TYPE(int64_t, 2, int64x2_t)
NE_TYPE(uint8_t, 16, uint8x16_t) NE_TYPE(uint16_t, 8, uint16x8_t) NE_TYPE(uint32_t, 4, uint32x4_t) NE_TYPE(uint64_t, 2, uint64x2_t)
NE_TYPE(float, 4, float32x4_t)
NE_TYPE(int8_t, 8, int8x8_t) NE_TYPE(uint8_t, 8, uint8x8_t)
struct int8x8x2_t { int8x8_t val[2]; };
struct uint8x8x2_t { uint8x8_t val[2]; };
#define NE_F static inline
#define NE_ALL(X) X(s8, int8_t, 16, int8x16_t, u8, uint8_t, uint8x16_t) X(s16, int16_t, 8, int16x8_t, u16, uint16_t, uint16x8_t) \
	X(s32, int32_t, 4, int32x4_t, u32, uint32_t, uint32x4_t)
#define NE_ALL64(X) NE_ALL(X) X(s64, int64_t, 2, int64x2_t, u64, uint64_t, uint64x2_t)
#define NE_LOOP(N) for (int i = 0; i < N; ++i)
#define NE_BITS(s, S, N, V, u, U, W) \
	NE_F V vdupq_n_##s(S a) { V r; NE_LOOP(N) r[i] = a; return r; } \
	NE_F W vdupq_n_##u(U a) { W r; NE_LOOP(N) r[i] = a; return r; } \
	NE_F V vaddq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(U(U(a[i]) + U(b[i]))); return r; } \
	NE_F V vsubq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(U(U(a[i]) - U(b[i]))); return r; } \
	NE_F W vaddq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = U(a[i] + b[i]); return r; } \
	NE_F W vsubq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = U(a[i] - b[i]); return r; } \
	NE_F V vandq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(a[i] & b[i]); return r; } \
	NE_F V vorrq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(a[i] | b[i]); return r; } \
	NE_F V veorq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(a[i] ^ b[i]); return r; } \
	NE_F V vbicq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(a[i] & ~b[i]); return r; } \
	NE_F W vandq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = U(a[i] & b[i]); return r; } \
	NE_F W vorrq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = U(a[i] | b[i]); return r; } \
	NE_F W veorq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = U(a[i] ^ b[i]); return r; } \
	NE_F W vbicq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = U(a[i] & ~b[i]); return r; } \
	NE_F W vmvnq_##u(W a) { W r; NE_LOOP(N) r[i] = U(~a[i]); return r; } \
	NE_F W vbslq_##u(W m, W a, W b) { W r; NE_LOOP(N) r[i] = U((m[i] & a[i]) | (~m[i] & b[i])); return r; } \
	NE_F W vceqq_##s(V a, V b) { W r; NE_LOOP(N) r[i] = a[i] == b[i] ? U(-1) : U(0); return r; } \
	NE_F W vcgtq_##s(V a, V b) { W r; NE_LOOP(N) r[i] = a[i] > b[i] ? U(-1) : U(0); return r; } \
	NE_F W vcltq_##s(V a, V b) { W r; NE_LOOP(N) r[i] = a[i] < b[i] ? U(-1) : U(0); return r; } \
	NE_F W vcleq_##s(V a, V b) { W r; NE_LOOP(N) r[i] = a[i] <= b[i] ? U(-1) : U(0); return r; } \
	NE_F W vcgeq_##s(V a, V b) { W r; NE_LOOP(N) r[i] = a[i] >= b[i] ? U(-1) : U(0); return r; } \
	NE_F W vceqq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = a[i] == b[i] ? U(-1) : U(0); return r; } \
	NE_F W vcgtq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = a[i] > b[i] ? U(-1) : U(0); return r; }
NE_ALL64(NE_BITS)
#define NE_ARITH(s, S, N, V, u, U, W) \
	NE_F V vminq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; } \
	NE_F V vmaxq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; } \
	NE_F W vminq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; } \
	NE_F W vmaxq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; } \
	NE_F V vmulq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = S(U(uint64_t(int64_t(a[i])) * uint64_t(int64_t(b[i])))); return r; } \
	NE_F V vnegq_##s(V a) { V r; NE_LOOP(N) r[i] = S(U(-uint64_t(int64_t(a[i])))); return r; } \
	NE_F V vabsq_##s(V a) { V r; NE_LOOP(N) r[i] = a[i] < 0 ? S(U(-uint64_t(int64_t(a[i])))) : a[i]; return r; } \
	NE_F S ne_sat_##s(int64_t v) { int64_t m = int64_t(U(-1) >> 1); return S(v > m ? m : v < -m - 1 ? -m - 1 : v); } \
	NE_F U ne_sat_##u(int64_t v) { int64_t m = int64_t(U(-1)); return U(v > m ? m : v < 0 ? 0 : v); } \
	NE_F V vqabsq_##s(V a) { V r; NE_LOOP(N) r[i] = ne_sat_##s(a[i] < 0 ? -int64_t(a[i]) : int64_t(a[i])); return r; } \
	NE_F V vqnegq_##s(V a) { V r; NE_LOOP(N) r[i] = ne_sat_##s(-int64_t(a[i])); return r; } \
	NE_F V vqaddq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = ne_sat_##s(int64_t(a[i]) + int64_t(b[i])); return r; } \
	NE_F V vqsubq_##s(V a, V b) { V r; NE_LOOP(N) r[i] = ne_sat_##s(int64_t(a[i]) - int64_t(b[i])); return r; } \
	NE_F W vqaddq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = ne_sat_##u(int64_t(a[i]) + int64_t(b[i])); return r; } \
	NE_F W vqsubq_##u(W a, W b) { W r; NE_LOOP(N) r[i] = ne_sat_##u(int64_t(a[i]) - int64_t(b[i])); return r; }
NE_ALL(NE_ARITH)
/* float */
NE_F float32x4_t vdupq_n_f32(float a) { float32x4_t r; NE_LOOP(4) r[i] = a; return r; }
#define NE_FLT(op, expr) NE_F float32x4_t v##op##q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NE_LOOP(4) r[i] = expr; return r; }
NE_FLT(add, a[i] + b[i]) NE_FLT(sub, a[i] - b[i]) NE_FLT(mul, a[i] * b[i]) NE_FLT(min, a[i] < b[i] ? a[i] : b[i]) NE_FLT(max, a[i] > b[i] ? a[i] : b[i])
NE_F float32x4_t vabsq_f32(float32x4_t a) { uint32x4_t u = (uint32x4_t)a; NE_LOOP(4) u[i] &= 0x7fffffffu; return (float32x4_t)u; }
NE_F float32x4_t vnegq_f32(float32x4_t a) { uint32x4_t u = (uint32x4_t)a; NE_LOOP(4) u[i] ^= 0x80000000u; return (float32x4_t)u; }
#define NE_FCMP(op, rel) NE_F uint32x4_t vc##op##q_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; NE_LOOP(4) r[i] = a[i] rel b[i] ? ~0u : 0u; return r; }
NE_FCMP(eq, ==) NE_FCMP(gt, >) NE_FCMP(lt, <) NE_FCMP(le, <=) NE_FCMP(ge, >=)
/* halves, tables */
#define NE_HALF(s, V, H, P) \
	NE_F H vget_low_##s(V a) { H r; NE_LOOP(8) r[i] = a[i]; return r; } \
	NE_F H vget_high_##s(V a) { H r; NE_LOOP(8) r[i] = a[i + 8]; return r; } \
	NE_F V vcombine_##s(H a, H b) { V r; NE_LOOP(8) { r[i] = a[i]; r[i + 8] = b[i]; } return r; } \
	NE_F H vtbl2_##s(P t, H x) { H r; NE_LOOP(8) { uint8_t k = uint8_t(x[i]); r[i] = k < 8 ? t.val[0][k & 7] : k < 16 ? t.val[1][k & 7] : 0; } return r; }
NE_HALF(s8, int8x16_t, int8x8_t, int8x8x2_t) NE_HALF(u8, uint8x16_t, uint8x8_t, uint8x8x2_t)
#ifdef __aarch64__
NE_F uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t x) { uint8x16_t r; NE_LOOP(16) r[i] = x[i] < 16 ? t[x[i] & 15] : 0; return r; }
NE_F int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t x) { int8x16_t r; NE_LOOP(16) r[i] = x[i] < 16 ? t[x[i] & 15] : 0; return r; }
#endif
/* loads, stores, shifts */
NE_F uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; NE_LOOP(16) r[i] = p[i]; return r; }
NE_F uint16x8_t vld1q_u16(const uint16_t *p) { uint16x8_t r; NE_LOOP(8) r[i] = p[i]; return r; }
NE_F void vst1q_u8(uint8_t *p, uint8x16_t a) { NE_LOOP(16) p[i] = a[i]; }
NE_F void vst1q_u16(uint16_t *p, uint16x8_t a) { NE_LOOP(8) p[i] = a[i]; }
NE_F uint8x16_t vshrq_n_u8(uint8x16_t a, int n) { NE_LOOP(16) a[i] = uint8_t(a[i] >> n); return a; }
NE_F uint16x8_t vshrq_n_u16(uint16x8_t a, int n) { NE_LOOP(8) a[i] = uint16_t(a[i] >> n); return a; }
NE_F uint16x8_t vshlq_n_u16(uint16x8_t a, int n) { NE_LOOP(8) a[i] = uint16_t(a[i] << n); return a; }
