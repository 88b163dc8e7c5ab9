/* what a program prints goes to the harness (C++ headers first: they name the functions too) */
#ifdef __cplusplus
#include <cstdio>
#include <iostream>
#include <fstream>
#include <string>
extern "C" {
#else
#include <stdio.h>
#endif
int cds_printf(const char *, ...);
int cds_fprintf(FILE *, const char *, ...);
int cds_puts(const char *);
#ifdef __cplusplus
}
namespace std { using ::cds_printf; using ::cds_fprintf; using ::cds_puts; }
#endif
#define printf cds_printf
#define fprintf cds_fprintf
#define puts cds_puts
