/* The library's API on top of the independent model: one more "configuration"
   for the cross-build comparison. */
#include "refcsa.h"
#include <stdlib.h>
#include <dvbcsa/dvbcsa.h>
struct dvbcsa_key_s { ref_key_t k; };
struct dvbcsa_bs_key_s { ref_key_t k; };
struct dvbcsa_key_s *dvbcsa_key_alloc(void) { return malloc(sizeof(struct dvbcsa_key_s)); }
void dvbcsa_key_free(struct dvbcsa_key_s *k) { free(k); }
void dvbcsa_key_set(const dvbcsa_cw_t cw, struct dvbcsa_key_s *k) { ref_key(&k->k, cw); }
void dvbcsa_decrypt(const struct dvbcsa_key_s *k, unsigned char *d, unsigned int n) { ref_decrypt(&k->k, d, n); }
void dvbcsa_encrypt(const struct dvbcsa_key_s *k, unsigned char *d, unsigned int n) { ref_encrypt(&k->k, d, n); }
struct dvbcsa_bs_key_s *dvbcsa_bs_key_alloc(void) { return malloc(sizeof(struct dvbcsa_bs_key_s)); }
void dvbcsa_bs_key_free(struct dvbcsa_bs_key_s *k) { free(k); }
void dvbcsa_bs_key_set(const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *k) { ref_key(&k->k, cw); }
unsigned int dvbcsa_bs_batch_size(void) { return 16; }
void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *k, const struct dvbcsa_bs_batch_s *p, unsigned int m)
{
  for (; p->data; p++)
    ref_decrypt(&k->k, p->data, p->len < m ? p->len : m);
}
void dvbcsa_bs_encrypt(const struct dvbcsa_bs_key_s *k, const struct dvbcsa_bs_batch_s *p, unsigned int m)
{
  for (; p->data; p++)
    ref_encrypt(&k->k, p->data, p->len < m ? p->len : m);
}
