/* Included before every translation unit of the code under test: routes the
 * C library's stdio through the harness environment. */
#ifndef REDIRECT_H
#define REDIRECT_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <time.h>
FILE *env_fopen(const char *path, const char *mode);
int env_fclose(FILE *f);
size_t env_fwrite(const void *p, size_t s, size_t n, FILE *f);
int env_fflush(FILE *f);
int env_ferror(FILE *f);
int env_fprintf(FILE *f, const char *fmt, ...);
int env_vfprintf(FILE *f, const char *fmt, va_list ap);
int env_fputs(const char *s, FILE *f);
int env_fputc(int c, FILE *f);
int env_puts(const char *s);
int env_printf(const char *fmt, ...);
int env_vprintf(const char *fmt, va_list ap);
void env_perror(const char *s);
int env_remove(const char *path);
int env_rename(const char *a, const char *b);
char *env_getenv(const char *name);
long env_any(void *p);
double env_strtod(const char *s, char **end);
#ifndef ENV_NO_REDIRECT
#define strtod env_strtod
#define strtof(s, e) ((float)env_strtod(s, e))
#define strtold(s, e) ((long double)env_strtod(s, e))
#define fopen env_fopen
#define fclose env_fclose
#define fwrite env_fwrite
#define fflush env_fflush
#define ferror env_ferror
#undef putc
#undef putchar
#define puts env_puts
#define printf(...) env_printf(__VA_ARGS__)
#define vprintf env_vprintf
#define putchar(c) env_fputc(c, stdout)
#define perror env_perror
#define remove env_remove
#define rename env_rename
#define unlink env_remove
#define getenv env_getenv
#define secure_getenv env_getenv
#define time(p) env_any(p)
#define clock() env_any(NULL)
#define rand() ((int)env_any(NULL))
#define random() env_any(NULL)
#define fputs env_fputs
#define fputc env_fputc
#define putc env_fputc
#define fprintf env_fprintf
#define vfprintf env_vfprintf
#endif
#endif
