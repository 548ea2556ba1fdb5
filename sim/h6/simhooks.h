/* Included ahead of every C file of the package under simulation: the parts of
 * libc that allocate or touch memory go through the simulator. */
#ifndef SIMHOOKS_H
#define SIMHOOKS_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <pthread.h>

int sim_mutex_lock(pthread_mutex_t *);
int sim_mutex_trylock(pthread_mutex_t *);
int sim_mutex_unlock(pthread_mutex_t *);
#define pthread_mutex_lock(m) sim_mutex_lock(m)
#define pthread_mutex_trylock(m) sim_mutex_trylock(m)
#define pthread_mutex_unlock(m) sim_mutex_unlock(m)
void *sim_malloc(size_t);
void *sim_calloc(size_t, size_t);
void *sim_realloc(void *, size_t);
void sim_free(void *);
char *sim_strdup(const char *);
char *sim_strndup(const char *, size_t);
int sim_asprintf(char **, const char *, ...);
size_t sim_strlen(const char *);
size_t sim_strnlen(const char *, size_t);
char *sim_strcpy(char *, const char *);
char *sim_strncpy(char *, const char *, size_t);
char *sim_strcat(char *, const char *);
char *sim_strstr(const char *, const char *);
char *sim_strchr(const char *, int);
char *sim_strrchr(const char *, int);
int sim_strcmp(const char *, const char *);
int sim_strncmp(const char *, const char *, size_t);
void *sim_memcpy(void *, const void *, size_t);
void *sim_memmove(void *, const void *, size_t);
void *sim_memset(void *, int, size_t);
int sim_memcmp(const void *, const void *, size_t);
double sim_strtod(const char *, char **);
long sim_strtol(const char *, char **, int);
int sim_vasprintf(char **, const char *, va_list);
int sim_snprintf(char *, size_t, const char *, ...);
int sim_vsnprintf(char *, size_t, const char *, va_list);
int sim_sprintf(char *, const char *, ...);
void *sim_reallocarray(void *, size_t, size_t);
void *sim_memchr(const void *, int, size_t);
char *sim_stpcpy(char *, const char *);
char *sim_strncat(char *, const char *, size_t);
char *sim_strpbrk(const char *, const char *);
size_t sim_strspn(const char *, const char *);
size_t sim_strcspn(const char *, const char *);
int sim_strcasecmp(const char *, const char *);
int sim_strncasecmp(const char *, const char *, size_t);
long long sim_strtoll(const char *, char **, int);
unsigned long sim_strtoul(const char *, char **, int);
unsigned long long sim_strtoull(const char *, char **, int);

#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef strndup
#undef strlen
#undef strnlen
#undef strcpy
#undef strncpy
#undef strcat
#undef strstr
#undef strchr
#undef strrchr
#undef strcmp
#undef strncmp
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef strtod
#undef strtol
#undef vasprintf
#undef snprintf
#undef vsnprintf
#undef sprintf
#undef reallocarray
#undef memchr
#undef stpcpy
#undef strncat
#undef strpbrk
#undef strspn
#undef strcspn
#undef strcasecmp
#undef strncasecmp
#undef strtoll
#undef strtoul
#undef strtoull
#undef asprintf
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#define strdup sim_strdup
#define strndup sim_strndup
#define strlen sim_strlen
#define strnlen sim_strnlen
#define strcpy sim_strcpy
#define strncpy sim_strncpy
#define strcat sim_strcat
#define strstr sim_strstr
#define strchr sim_strchr
#define strrchr sim_strrchr
#define strcmp sim_strcmp
#define strncmp sim_strncmp
#define memcpy sim_memcpy
#define memmove sim_memmove
#define memset sim_memset
#define memcmp sim_memcmp
#define strtod sim_strtod
#define strtol sim_strtol
#define asprintf sim_asprintf
#define vasprintf sim_vasprintf
#define snprintf sim_snprintf
#define vsnprintf sim_vsnprintf
#define sprintf sim_sprintf
#define reallocarray sim_reallocarray
#define memchr sim_memchr
#define stpcpy sim_stpcpy
#define strncat sim_strncat
#define strpbrk sim_strpbrk
#define strspn sim_strspn
#define strcspn sim_strcspn
#define strcasecmp sim_strcasecmp
#define strncasecmp sim_strncasecmp
#define strtoll sim_strtoll
#define strtoul sim_strtoul
#define strtoull sim_strtoull
#endif
