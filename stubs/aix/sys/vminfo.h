/* The AIX hardware compression interface, as far as the library uses it (simulated) */
#ifndef STUB_VMINFO_H
#define STUB_VMINFO_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int accel_compress(unsigned char *in, size_t ilen, unsigned char *out, size_t *olen, int flags);
int accel_decompress(unsigned char *in, size_t ilen, unsigned char *out, size_t *olen, int flags);
#ifdef __cplusplus
}
#endif
#endif
