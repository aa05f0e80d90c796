/* Independent bit-level model of the DVB Common Scrambling Algorithm, written from
   the published description (nibble-register stream cipher, 56-round block cipher).
   Shares no code with the library. */
#include "refcsa.h"
#include <string.h>

static const uint8_t SBOX[256] = {
  0x3a,0xea,0x68,0xfe,0x33,0xe9,0x88,0x1a,0x83,0xcf,0xe1,0x7f,0xba,0xe2,0x38,0x12,
  0xe8,0x27,0x61,0x95,0x0c,0x36,0xe5,0x70,0xa2,0x06,0x82,0x7c,0x17,0xa3,0x26,0x49,
  0xbe,0x7a,0x6d,0x47,0xc1,0x51,0x8f,0xf3,0xcc,0x5b,0x67,0xbd,0xcd,0x18,0x08,0xc9,
  0xff,0x69,0xef,0x03,0x4e,0x48,0x4a,0x84,0x3f,0xb4,0x10,0x04,0xdc,0xf5,0x5c,0xc6,
  0x16,0xab,0xac,0x4c,0xf1,0x6a,0x2f,0x3c,0x3b,0xd4,0xd5,0x94,0xd0,0xc4,0x63,0x62,
  0x71,0xa1,0xf9,0x4f,0x2e,0xaa,0xc5,0x56,0xe3,0x39,0x93,0xce,0x65,0x64,0xe4,0x58,
  0x6c,0x19,0x42,0x79,0xdd,0xee,0x96,0xf6,0x8a,0xec,0x1e,0x85,0x53,0x45,0xde,0xbb,
  0x7e,0x0a,0x9a,0x13,0x2a,0x9d,0xc2,0x5e,0x5a,0x1f,0x32,0x35,0x9c,0xa8,0x73,0x30,
  0x29,0x3d,0xe7,0x92,0x87,0x1b,0x2b,0x4b,0xa5,0x57,0x97,0x40,0x15,0xe6,0xbc,0x0e,
  0xeb,0xc3,0x34,0x2d,0xb8,0x44,0x25,0xa4,0x1c,0xc7,0x23,0xed,0x90,0x6e,0x50,0x00,
  0x99,0x9e,0x4d,0xd9,0xda,0x8d,0x6f,0x5f,0x3e,0xd7,0x21,0x74,0x86,0xdf,0x6b,0x05,
  0x8e,0x5d,0x37,0x11,0xd2,0x28,0x75,0xd6,0xa7,0x77,0x24,0xbf,0xf0,0xb0,0x02,0xb7,
  0xf8,0xfc,0x81,0x09,0xb1,0x01,0x76,0x91,0x7d,0x0f,0xc8,0xa0,0xf2,0xcb,0x78,0x60,
  0xd1,0xf7,0xe0,0xb5,0x98,0x22,0xb3,0x20,0x1d,0xa6,0xdb,0x7b,0x59,0x9f,0xae,0x31,
  0xfb,0xd3,0xb6,0xca,0x43,0x72,0x07,0xf4,0xd8,0x41,0x14,0x55,0x0d,0x54,0x8b,0xb9,
  0xad,0x46,0x0b,0xaf,0x80,0x52,0x2c,0xfa,0x8c,0x89,0x66,0xfd,0xb2,0xa9,0x9b,0xc0,};

/* key schedule: bit i of the old key (msb first) becomes bit KPERM[i]-1 of the next */
static const uint8_t KPERM[64] = {
  0x12,0x24,0x09,0x07,0x2A,0x31,0x1D,0x15,0x1C,0x36,0x3E,0x32,0x13,0x21,0x3B,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1B,0x01,0x22,0x04,0x0D,0x0E,0x39,0x28,0x1A,0x29,
  0x33,0x23,0x34,0x0C,0x16,0x30,0x1E,0x3A,0x2D,0x1F,0x08,0x19,0x17,0x2F,0x3D,0x11,
  0x3C,0x05,0x38,0x2B,0x0B,0x06,0x0A,0x2C,0x20,0x3F,0x2E,0x0F,0x03,0x26,0x10,0x37};

static uint8_t PERM[256];
static const uint8_t T1[32] = {2,0,1,1,2,3,3,0,3,2,2,0,1,1,0,3,0,3,3,0,2,2,1,1,2,2,0,3,1,1,3,0};
static const uint8_t T2[32] = {3,1,0,2,2,3,3,0,1,3,2,1,0,0,1,2,3,1,0,3,3,2,0,2,0,0,1,2,2,1,3,1};
static const uint8_t T3[32] = {2,0,1,2,2,3,3,1,1,1,0,3,3,0,2,0,1,3,0,1,3,0,2,2,2,0,1,2,0,3,3,1};
static const uint8_t T4[32] = {3,1,2,3,0,2,1,2,1,2,0,1,3,0,0,3,1,0,3,1,2,3,0,3,0,3,2,0,1,2,2,1};
static const uint8_t T5[32] = {2,0,0,1,3,2,3,2,0,1,3,3,1,0,2,1,2,3,2,0,0,3,1,1,1,0,3,2,3,1,0,2};
static const uint8_t T6[32] = {0,1,2,3,1,2,2,0,0,1,3,0,2,3,1,3,2,3,0,2,3,0,1,1,2,1,1,2,0,3,3,0};
static const uint8_t T7[32] = {0,3,2,2,3,0,0,1,3,0,1,3,1,2,2,1,1,0,3,3,0,1,1,2,2,3,1,0,2,3,0,2};

void ref_key(ref_key_t *k, const uint8_t cw[8])
{
  uint8_t kb[8][8];
  int r, i;
  memcpy(k->cw, cw, 8);
  memcpy(kb[7], cw, 8);
  for (r = 6; r >= 1; r--)
    {
      memset(kb[r], 0, 8);
      for (i = 0; i < 64; i++)
        if (kb[r + 1][i / 8] >> (7 - i % 8) & 1)
          {
            int d = KPERM[i] - 1;
            kb[r][d / 8] |= (uint8_t)(0x80 >> d % 8);
          }
    }
  for (r = 0; r < 7; r++)
    for (i = 0; i < 8; i++)
      k->kk[r * 8 + i] = (uint8_t)(kb[r + 1][i] ^ r);
  if (!PERM[255])
    for (i = 0; i < 256; i++)
      {
        unsigned v = (unsigned)i;
        PERM[i] = (uint8_t)((v & 0x29) << 1 | (v & 0x02) << 6 | (v & 0x04) << 3 | (v & 0x10) >> 2 | (v & 0x40) >> 6 | (v & 0x80) >> 4);
      }
}

static void blk_dec(const ref_key_t *k, const uint8_t in[8], uint8_t out[8])
{
  uint8_t R[9], s, n8;
  int i;
  memcpy(R + 1, in, 8);
  for (i = 55; i >= 0; i--)
    {
      s = SBOX[k->kk[i] ^ R[7]];
      n8 = R[7];
      R[7] = R[6] ^ PERM[s];
      R[6] = R[5];
      R[5] = R[4] ^ R[8] ^ s;
      R[4] = R[3] ^ R[8] ^ s;
      R[3] = R[2] ^ R[8] ^ s;
      R[2] = R[1];
      R[1] = R[8] ^ s;
      R[8] = n8;
    }
  memcpy(out, R + 1, 8);
}

static void blk_enc(const ref_key_t *k, const uint8_t in[8], uint8_t out[8])
{
  uint8_t R[9], s, n1;
  int i;
  memcpy(R + 1, in, 8);
  for (i = 0; i < 56; i++)
    {
      s = SBOX[k->kk[i] ^ R[8]];
      n1 = R[2];
      R[2] = R[3] ^ R[1];
      R[3] = R[4] ^ R[1];
      R[4] = R[5] ^ R[1];
      R[5] = R[6];
      R[6] = R[7] ^ PERM[s];
      R[7] = R[8];
      R[8] = R[1] ^ s;
      R[1] = n1;
    }
  memcpy(out, R + 1, 8);
}

typedef struct { int A[11], B[11], X, Y, Z, D, E, F, p, q, r; } st_t;

#define BIT(v, b) (((v) >> (b)) & 1)
static int idx5(int a, int b, int c, int d, int e) { return a << 4 | b << 3 | c << 2 | d << 1 | e; }

static int rounds(st_t *s, int init, int in1, int in2)
{
  int j, op = 0, i;
  for (j = 0; j < 4; j++)
    {
      int *A = s->A, *B = s->B;
      int s1 = T1[idx5(BIT(A[4],0), BIT(A[1],2), BIT(A[6],1), BIT(A[7],3), BIT(A[9],0))];
      int s2 = T2[idx5(BIT(A[2],1), BIT(A[3],2), BIT(A[6],3), BIT(A[7],0), BIT(A[9],1))];
      int s3 = T3[idx5(BIT(A[1],3), BIT(A[2],0), BIT(A[5],1), BIT(A[5],3), BIT(A[6],2))];
      int s4 = T4[idx5(BIT(A[3],3), BIT(A[1],1), BIT(A[2],3), BIT(A[4],2), BIT(A[8],0))];
      int s5 = T5[idx5(BIT(A[5],2), BIT(A[4],3), BIT(A[6],0), BIT(A[8],1), BIT(A[9],2))];
      int s6 = T6[idx5(BIT(A[3],1), BIT(A[4],1), BIT(A[5],0), BIT(A[7],2), BIT(A[9],3))];
      int s7 = T7[idx5(BIT(A[2],2), BIT(A[3],0), BIT(A[7],1), BIT(A[8],2), BIT(A[8],3))];
      int xb = (BIT(B[3],0) ^ BIT(B[6],1) ^ BIT(B[7],2) ^ BIT(B[9],3)) << 3
             | (BIT(B[6],0) ^ BIT(B[8],1) ^ BIT(B[3],3) ^ BIT(B[4],2)) << 2
             | (BIT(B[5],3) ^ BIT(B[8],2) ^ BIT(B[4],0) ^ BIT(B[5],1)) << 1
             | (BIT(B[9],2) ^ BIT(B[6],3) ^ BIT(B[3],1) ^ BIT(B[8],0));
      int na = A[10] ^ s->X, nb = B[7] ^ B[10] ^ s->Y, ne, nf;
      if (init)
        {
          na ^= s->D ^ (j & 1 ? in2 : in1);
          nb ^= j & 1 ? in1 : in2;
        }
      if (s->p)
        nb = (nb << 1 | nb >> 3) & 15;
      s->D = s->E ^ s->Z ^ xb;
      ne = s->F;
      if (s->q)
        {
          nf = s->Z + s->E + s->r;
          s->r = nf >> 4;
          nf &= 15;
        }
      else
        nf = s->E;
      s->E = ne;
      s->F = nf;
      for (i = 10; i > 1; i--)
        {
          A[i] = A[i - 1];
          B[i] = B[i - 1];
        }
      A[1] = na;
      B[1] = nb;
      s->X = (s4 & 1) << 3 | (s3 & 1) << 2 | (s2 & 2) | (s1 & 2) >> 1;
      s->Y = (s6 & 1) << 3 | (s5 & 1) << 2 | (s4 & 2) | (s3 & 2) >> 1;
      s->Z = (s2 & 1) << 3 | (s1 & 1) << 2 | (s6 & 2) | (s5 & 2) >> 1;
      s->p = (s7 & 2) >> 1;
      s->q = s7 & 1;
      op = op << 2 | (BIT(s->D, 3) ^ BIT(s->D, 2)) << 1 | (BIT(s->D, 1) ^ BIT(s->D, 0));
    }
  return op & 255;
}

void ref_stream_xor(const ref_key_t *k, const uint8_t iv[8], uint8_t *d, size_t n)
{
  st_t s;
  size_t i;
  memset(&s, 0, sizeof s);
  for (i = 0; i < 4; i++)
    {
      s.A[1 + 2 * i] = k->cw[i] >> 4;
      s.A[2 + 2 * i] = k->cw[i] & 15;
      s.B[1 + 2 * i] = k->cw[4 + i] >> 4;
      s.B[2 + 2 * i] = k->cw[4 + i] & 15;
    }
  for (i = 0; i < 8; i++)
    rounds(&s, 1, iv[i] >> 4, iv[i] & 15);
  for (i = 0; i < n; i++)
    d[i] ^= (uint8_t)rounds(&s, 0, 0, 0);
}

void ref_encrypt(const ref_key_t *k, uint8_t *d, size_t len)
{
  size_t nb = len / 8, j;
  int i;
  uint8_t iv[8];
  if (!nb)
    return;
  for (j = nb; j-- > 0;)
    {
      if (j + 1 < nb)
        for (i = 0; i < 8; i++)
          d[j * 8 + i] ^= d[j * 8 + 8 + i];
      blk_enc(k, d + j * 8, d + j * 8);
    }
  memcpy(iv, d, 8);
  ref_stream_xor(k, iv, d + 8, len - 8);
}

void ref_decrypt(const ref_key_t *k, uint8_t *d, size_t len)
{
  size_t nb = len / 8, j;
  int i;
  uint8_t iv[8];
  if (!nb)
    return;
  memcpy(iv, d, 8);
  ref_stream_xor(k, iv, d + 8, len - 8);
  for (j = 0; j < nb; j++)
    {
      blk_dec(k, d + j * 8, d + j * 8);
      if (j + 1 < nb)
        for (i = 0; i < 8; i++)
          d[j * 8 + i] ^= d[j * 8 + 8 + i];
    }
}

static const uint8_t KAT[2][3][184] = {
 {{0x07,0xe0,0x1b,0x02,0xc9,0xe0,0x45,0xee},
  {0xde,0xcf,0x0a,0x0d,0xb2,0xd7,0xc4,0x40,0xde,0x5d,0x63,0x18,0x5a,0x98,0x17,0xaa,0xc9,0xbc,0x27,0xc6,0xcb,0x49,0x40,0x48,0xfd,0x20,0xb7,0x05,0x5b,0x27,0xcb,0xeb,0x9a,0xf0,0xac,0x45,0x6d,0x56,0xf4,0x7b,0x6f,0xa0,0x57,0xf3,0x9b,0xf7,0xa2,0xc7,0xd4,0x68,0x24,0x00,0x2f,0x28,0x13,0x96,0x94,0xa8,0x7c,0xf4,0x6f,0x07,0x2a,0x0e,0xe8,0xa1,0xeb,0xc7,0x80,0xac,0x1f,0x79,0xbf,0x5d,0xb6,0x10,0x7c,0x2e,0x52,0xe9,0x34,0x2c,0xa8,0x39,0x01,0x73,0x04,0x24,0xa8,0x1e,0xdb,0x5b,0xcb,0x24,0xf6,0x31,0xab,0x02,0x6b,0xf9,0xf6,0xf7,0xe9,0x52,0xad,0xcf,0x62,0x0f,0x42,0xf6,0x66,0x5d,0xc0,0x86,0xf2,0x7b,0x40,0x20,0xa9,0xbd,0x1f,0xfd,0x16,0xad,0x2e,0x75,0xa6,0xa0,0x85,0xf3,0x9c,0x31,0x20,0x4e,0xfb,0x95,0x61,0x78,0xce,0x10,0xc1,0x48,0x5f,0xd3,0x61,0x05,0x12,0xf4,0xe2,0x04,0xae,0xe0,0x86,0x01,0x56,0x55,0xb1,0x0f,0xa6,0x33,0x95,0x20,0x92,0xf0,0xbe,0x39,0x31,0xe1,0x2a,0xf7,0x93,0xb4,0xf7,0xe4,0xf1,0x85,0xae,0x50,0xf1,0x63,0xd4,0x5d,0x9c,0x6c},
  {0xaf,0xbe,0xfb,0xef,0xbe,0xfb,0xef,0xbe,0xfb,0xef,0xbe,0xfb,0xe6,0xb5,0xad,0x7c,0xf9,0xf3,0xe5,0xb1,0x6c,0x7c,0xf9,0xf3,0xe6,0xb5,0xad,0x6b,0x5f,0x3e,0x7c,0xf9,0x6c,0x5b,0x1f,0x3e,0x7c,0xf9,0xad,0x6b,0x5a,0xd7,0xcf,0x9f,0x3e,0x5b,0x16,0xc7,0xcf,0x9f,0x3e,0x6b,0x5a,0xd6,0xb5,0xf3,0xe7,0xcf,0x96,0xc5,0xb1,0xf3,0xe7,0xcf,0x9a,0xd6,0xb5,0xad,0x7c,0xf9,0xf3,0xe5,0xb1,0x6c,0x7c,0xf9,0xf3,0xe6,0xb5,0xad,0x6b,0x5f,0x3e,0x7c,0xf9,0x6c,0x5b,0x1f,0x3e,0x7c,0xf9,0xad,0x6b,0x5a,0xd7,0xcf,0x9f,0x3e,0x5b,0x16,0xc7,0xcf,0x9f,0x3e,0x6b,0x5a,0xd6,0xb5,0xf3,0xe7,0xcf,0x96,0xc5,0xb1,0xf3,0xe7,0xcf,0x9a,0xd6,0xb5,0xad,0x7c,0xf9,0xf3,0xe5,0xb1,0x6c,0x7c,0xf9,0xf3,0xe6,0xb5,0xad,0x6b,0x5f,0x3e,0x7c,0xf9,0x6c,0x5b,0x1f,0x3e,0x7c,0xf9,0xad,0x6b,0x5a,0xd7,0xcf,0x9f,0x3e,0x5b,0x16,0xc7,0xcf,0x9f,0x3e,0x6b,0x5a,0xd6,0xb5,0xf3,0xe7,0xcf,0x96,0xc5,0xb1,0xf3,0xe7,0xcf,0x9a,0xd0,0x00,0x00,0x00,0x00,0xff,0xfc,0x44,0x00,0x66,0xb1,0x11,0x11}},
 {{0x07,0x06,0x05,0x04,0x03,0x02,0x01,0x00},
  {0x00,0x01,0x02,0x03,0x04,0x05,0x06,0x07,0x08,0x09,0x0a,0x0b,0x0c,0x0d,0x0e,0x0f,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0x7e,0x7f,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7},
  {0x2d,0x0a,0x47,0x20,0x18,0x11,0x9c,0x8a,0xd1,0x2a,0x65,0x6b,0x89,0xe4,0x35,0x2b,0xc2,0xb5,0x90,0x61,0xd1,0x7e,0x02,0xe1,0x3f,0x46,0x70,0xcf,0x77,0x91,0x2f,0x22,0x93,0xc1,0x6c,0xfe,0x49,0xad,0x7c,0xc2,0xaf,0x86,0x1b,0xa3,0x29,0xbe,0xaa,0x64,0xf0,0x22,0xb9,0x5e,0x98,0xaa,0x60,0xef,0xdf,0xd6,0x44,0x77,0xe6,0xbf,0xbb,0x94,0xb2,0x0a,0x63,0x0e,0x5c,0xf2,0xac,0xb4,0x49,0xcc,0x9e,0x4f,0x94,0x4c,0x30,0x12,0xe8,0x55,0xc2,0x44,0xa4,0x52,0xcb,0x61,0x81,0xc9,0xb6,0xa6,0x6b,0xef,0xaf,0xa6,0x71,0x1d,0x7b,0x58,0x2f,0xfa,0xd1,0x0c,0x07,0x9d,0x1f,0x35,0x87,0xbe,0x02,0x9f,0x20,0xc6,0x60,0x8f,0x1c,0x30,0x0f,0x96,0xd0,0x71,0xd6,0x51,0x10,0xdf,0x5b,0xf6,0x44,0x2f,0x80,0x28,0xb7,0xec,0x23,0x59,0x4b,0x94,0x0b,0x9a,0x74,0xa1,0x1f,0xf7,0x9e,0x76,0xb4,0xdf,0xbb,0x3c,0x8c,0x88,0x97,0x22,0x56,0x73,0x16,0x05,0xac,0xf9,0x4f,0x77,0x9d,0x38,0xa0,0x6b,0x05,0xd2,0xe6,0x15,0x01,0xb1,0x5c,0xc9,0x62,0xa9,0x9b,0x1a,0x6a,0x1a,0xcf,0xe6,0xa8,0xba}}};

int ref_selftest(void)
{
  int i;
  for (i = 0; i < 2; i++)
    {
      ref_key_t k;
      uint8_t b[184];
      ref_key(&k, KAT[i][0]);
      memcpy(b, KAT[i][1], 184);
      ref_decrypt(&k, b, 184);
      if (memcmp(b, KAT[i][2], 184))
        return 1;
      ref_encrypt(&k, b, 184);
      if (memcmp(b, KAT[i][1], 184))
        return 2;
    }
  return 0;
}
