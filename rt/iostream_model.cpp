// Symbolic side only: console output is not an observable; the stream entry points the assertion code uses do nothing.
#include <stddef.h>
extern "C" {
void *ios_flush(void *o) asm("_ZNSo5flushEv"); void *ios_flush(void *o) { return o; }
void *ios_insert(void *o, const char *, long) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); void *ios_insert(void *o, const char *, long) { return o; }
void *ios_cstr(void *o, const char *) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); void *ios_cstr(void *o, const char *) { return o; }
void *ios_int(void *o, int) asm("_ZNSolsEi"); void *ios_int(void *o, int) { return o; }
void *ios_put(void *o, char) asm("_ZNSo3putEc"); void *ios_put(void *o, char) { return o; }
void *ios_endl(void *o) asm("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); void *ios_endl(void *o) { return o; }
void ios_init1(void *) asm("_ZNSt8ios_base4InitC1Ev"); void ios_init1(void *) {}
void ios_init2(void *) asm("_ZNSt8ios_base4InitD1Ev"); void ios_init2(void *) {}
int fflush(void *) { return 0; }
}
