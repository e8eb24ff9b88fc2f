/* Hand-written prototypes for libraries installed without headers (nettle, libgcrypt). */
#ifndef VH_EXT_H
#define VH_EXT_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* nettle: contexts are opaque here, oversized and aligned by the caller */
void nettle_md2_init(void *);
void nettle_md2_update(void *, size_t, const uint8_t *);
void nettle_md2_digest(void *, size_t, uint8_t *);
void nettle_gosthash94_init(void *);
void nettle_gosthash94cp_update(void *, size_t, const uint8_t *);
void nettle_gosthash94cp_digest(void *, size_t, uint8_t *);
void nettle_arctwo_set_key_ekb(void *, size_t, const uint8_t *, unsigned);
void nettle_arctwo_set_key_gutmann(void *, size_t, const uint8_t *);
void nettle_arctwo_encrypt(void *, size_t, uint8_t *, const uint8_t *);
void nettle_arctwo_decrypt(void *, size_t, uint8_t *, const uint8_t *);
void nettle_serpent_set_key(void *, size_t, const uint8_t *);
void nettle_serpent_encrypt(void *, size_t, uint8_t *, const uint8_t *);
void nettle_twofish_set_key(void *, size_t, const uint8_t *);
void nettle_twofish_encrypt(void *, size_t, uint8_t *, const uint8_t *);
/* libgcrypt */
typedef void *gcry_cipher_hd_t;
const char *gcry_check_version(const char *);
unsigned gcry_control(int, ...);
void gcry_md_hash_buffer(int, void *, const void *, size_t);
unsigned gcry_cipher_open(gcry_cipher_hd_t *, int, int, unsigned);
void gcry_cipher_close(gcry_cipher_hd_t);
unsigned gcry_cipher_setkey(gcry_cipher_hd_t, const void *, size_t);
unsigned gcry_cipher_setiv(gcry_cipher_hd_t, const void *, size_t);
unsigned gcry_cipher_encrypt(gcry_cipher_hd_t, void *, size_t, const void *, size_t);
unsigned gcry_cipher_decrypt(gcry_cipher_hd_t, void *, size_t, const void *, size_t);
#ifdef __cplusplus
}
#endif
#endif
#ifdef __cplusplus
extern "C" {
#endif
void nettle_serpent_decrypt(void *, size_t, uint8_t *, const uint8_t *);
void nettle_twofish_decrypt(void *, size_t, uint8_t *, const uint8_t *);
#ifdef __cplusplus
}
#endif
