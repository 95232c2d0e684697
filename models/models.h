#ifndef MODELS_H
#define MODELS_H
#include <stdint.h>
#include <stddef.h>
/* ---- engine intrinsics (native replay runtime implements the same names) ---- */
int sym_choice(const char *name, int n);
unsigned char sym_byte(const char *name, const void *set, int n);
void sym_assert(int cond, const char *msg);
void sym_assume(int cond);
void sym_cover(const char *label);
void sym_trace(const void *p, size_t n);
int sym_concretize(int v);
/* ---- virtual world ---- */
enum { W_FILE = 0, W_DIR = 1, W_DENIED = 2, W_FAILING = 3 /* read error after the data */, W_NOWRITE = 4, W_FULL = 5 /* writing fails: no space left */, W_ABSENT = 6 /* like no entry at all */ };
void world_reset(void);
void world_file(const char *path, const void *data, size_t len, int kind);
void world_env(const char *name, const char *value);
void world_stdin(const void *data, size_t len, int failing);
void world_stdout_full(int on);
void world_charset(const char *cs);
int bx_run(int argc, const char **argv);      /* runs the program, returns its exit status (256+ = died) */
const unsigned char *bx_out(void);   size_t bx_outlen(void);
const unsigned char *bx_err(void);   size_t bx_errlen(void);
const unsigned char *bx_file(const char *path, size_t *len); /* contents of a virtual file after the run, NULL if absent */
#endif
