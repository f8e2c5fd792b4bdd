/* native replay runtime */
#include "vh.h"
#include <string.h>
#include <signal.h>
#include <unistd.h>
static uint64_t *vals; static size_t nvals, pos;
static int reached;
uint64_t vh_native_next(void) {
	if (pos >= nvals) return 0; /* don't-care value: the solver left it unconstrained */
	return vals[pos++];
}
void vh_native_assume(int c, const char *txt) {
	if (!c) { fprintf(stderr, "VH-ASSUME-FAILED: %s\n", txt); fflush(NULL); _exit(77); }
}
void vh_native_assert(int c, const char *msg, const char *file, int line) {
	if (!c) { fprintf(stderr, "VH-ASSERT-FAILED: %s (%s:%d)\n", msg, file, line); fflush(NULL); _exit(66); }
}
void vh_native_reach(const char *id) { reached++; fprintf(stderr, "VH-REACHED: %s\n", id); }
int main(void) {
	const char *fn = getenv("VH_INPUTS");
	FILE *f = fn ? fopen(fn, "r") : NULL;
	size_t cap = 0; unsigned long long v;
	if (!f) { fprintf(stderr, "VH_INPUTS missing\n"); return 78; }
	while (1 == fscanf(f, "%llu", &v)) {
		if (nvals == cap) { cap = cap ? 2*cap : 64; vals = realloc(vals, cap * sizeof(*vals)); }
		vals[nvals++] = v;
	}
	fclose(f);
	vh_main();
	fprintf(stderr, "VH-COMPLETED reached=%d\n", reached);
	fflush(NULL);
	_exit(0);
}
void vh_native_unresolved(const char *f) { fprintf(stderr, "VH-UNRESOLVED: %s\n", f); fflush(NULL); _exit(79); }
