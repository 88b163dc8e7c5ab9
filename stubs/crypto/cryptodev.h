// Interface of the cryptodev kernel module with compression support, as far as
// the library uses it (the real header is not installed; the device is simulated).
#ifndef STUB_CRYPTODEV_H
#define STUB_CRYPTODEV_H
#include <stdint.h>
#include <linux/types.h>
#define CRYPTO_842 3
#define CRYPTODEV_COMP_MAX_CHUNKS 256
enum { COP_ENCRYPT, COP_DECRYPT };
struct session_op {
	__u32 cipher, mac, compr;
	__u32 keylen; __u8 *key;
	__u32 mackeylen; __u8 *mackey;
	__u32 ses;
};
struct session_info_op {
	__u32 ses;
	struct { char cra_name[64]; char cra_driver_name[64]; } cipher_info, hash_info, compr_info;
	__u16 alignmask;
	__u32 flags;
};
#define SIOP_FLAG_KERNEL_DRIVER_ONLY 1
struct crypt_op {
	__u32 ses;
	__u16 op, flags;
	__u32 len, dlen;
	__u8 *src, *dst;
	__u8 *mac, *iv;
	__u32 numchunks;
	__u32 *chunklens, *chunkdlens;
	int *chunkrets;
};
#define CIOCGSESSION 0xc0f86366
#define CIOCFSESSION 0x40046367
#define CIOCCRYPT 0xc0506368
#ifndef STUB_NO_SESSINFO
#define CIOCGSESSINFO 0xc11c636a
#endif
#endif
