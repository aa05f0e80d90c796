#ifndef REFCSA_H
#define REFCSA_H
#include <stddef.h>
#include <stdint.h>
typedef struct { uint8_t cw[8]; uint8_t kk[56]; } ref_key_t;
void ref_key(ref_key_t *k, const uint8_t cw[8]);
void ref_stream_xor(const ref_key_t *k, const uint8_t iv[8], uint8_t *d, size_t n);
void ref_encrypt(const ref_key_t *k, uint8_t *d, size_t len);
void ref_decrypt(const ref_key_t *k, uint8_t *d, size_t len);
int ref_selftest(void);
#endif
