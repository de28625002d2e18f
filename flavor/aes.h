// A stand-in for the AES library (deps/AES is not part of the repository): AES-128 encryption with the same
// interface (ecb, cbc, ctr), written from FIPS 197.
#pragma once
#include <string.h>
#include <stdlib.h>
typedef int AES_RETURN;
typedef struct { unsigned char k[11][16]; } aes_encrypt_ctx;
typedef aes_encrypt_ctx aes_decrypt_ctx;
#ifndef AES_BLOCK_SIZE
#define AES_BLOCK_SIZE 16
#endif
typedef void cbuf_inc(unsigned char * cbuf);
namespace aes_stub {
inline unsigned char x2(unsigned char a) { return (unsigned char)((a << 1) ^ ((a >> 7) * 0x1b)); }
inline const unsigned char * sbox()
{
	static unsigned char s[256]; static bool done = false;
	if (!done) {
		unsigned char p = 1, q = 1;
		do {
			p = p ^ x2(p); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 9;
			unsigned char x = q ^ (unsigned char)(q << 1 | q >> 7) ^ (unsigned char)(q << 2 | q >> 6) ^ (unsigned char)(q << 3 | q >> 5) ^ (unsigned char)(q << 4 | q >> 4);
			s[p] = x ^ 0x63;
		} while (p != 1);
		s[0] = 0x63; done = true;
	}
	return s;
}
inline void block(const unsigned char * in, unsigned char * out, const aes_encrypt_ctx * c)
{
	const unsigned char * s = sbox(); unsigned char a[16], b[16];
	for (int i = 0; i < 16; i++) a[i] = in[i] ^ c->k[0][i];
	for (int r = 1; r <= 10; r++) {
		for (int i = 0; i < 16; i++) b[i] = s[a[(i + 4 * (i % 4)) % 16]];
		if (r < 10) for (int j = 0; j < 16; j += 4) { unsigned char t = b[j] ^ b[j + 1] ^ b[j + 2] ^ b[j + 3], f = b[j]; for (int i = 0; i < 4; i++) a[j + i] = b[j + i] ^ t ^ x2(b[j + i] ^ (i < 3 ? b[j + i + 1] : f)); }
		else memcpy(a, b, 16);
		for (int i = 0; i < 16; i++) a[i] ^= c->k[r][i];
	}
	memcpy(out, a, 16);
}
}
inline AES_RETURN aes_init() { return EXIT_SUCCESS; }
inline AES_RETURN aes_encrypt_key(const unsigned char * key, int len, aes_encrypt_ctx c[1])
{
	if (len != 16 && len != 128) return EXIT_FAILURE;
	const unsigned char * s = aes_stub::sbox(); unsigned char * w = c->k[0], rc = 1; memcpy(w, key, 16);
	for (int i = 16; i < 176; i += 4) {
		unsigned char t[4] = { w[i - 4], w[i - 3], w[i - 2], w[i - 1] };
		if (i % 16 == 0) { unsigned char f = t[0]; t[0] = s[t[1]] ^ rc; t[1] = s[t[2]]; t[2] = s[t[3]]; t[3] = s[f]; rc = aes_stub::x2(rc); }
		for (int j = 0; j < 4; j++) w[i + j] = w[i + j - 16] ^ t[j];
	}
	return EXIT_SUCCESS;
}
inline AES_RETURN aes_ecb_encrypt(const unsigned char * in, unsigned char * out, int len, const aes_encrypt_ctx c[1])
{
	if (len % 16) return EXIT_FAILURE;
	for (int i = 0; i < len; i += 16) aes_stub::block(in + i, out + i, c);
	return EXIT_SUCCESS;
}
inline AES_RETURN aes_cbc_encrypt(const unsigned char * in, unsigned char * out, int len, unsigned char * iv, const aes_encrypt_ctx c[1])
{
	if (len % 16) return EXIT_FAILURE;
	for (int i = 0; i < len; i += 16) { for (int j = 0; j < 16; j++) iv[j] ^= in[i + j]; aes_stub::block(iv, iv, c); memcpy(out + i, iv, 16); }
	return EXIT_SUCCESS;
}
inline AES_RETURN aes_ctr_crypt(const unsigned char * in, unsigned char * out, int len, unsigned char * cbuf, cbuf_inc inc, aes_encrypt_ctx c[1])
{
	unsigned char k[16];
	for (int i = 0; i < len; i++) { if (i % 16 == 0) { aes_stub::block(cbuf, k, c); inc(cbuf); } out[i] = in[i] ^ k[i % 16]; }
	return EXIT_SUCCESS;
}
#define aes_ctr_encrypt aes_ctr_crypt
#define aes_ctr_decrypt aes_ctr_crypt
