// Output operators of the standard library, for the verifier: they append to the text vf_text[0..vf_text_n) (trusted).
extern "C" {
extern char vf_text[1024]; extern int vf_text_n;
struct VfStr { const char* p; unsigned long n; };
void* vf_o1(void* o, const char* s, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void* vf_o1(void* o, const char* s, long n) { for (long i = 0; i < n; i++) vf_text[vf_text_n++] = s[i]; return o; }
void* vf_o2(void* o, const char* s) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
void* vf_o2(void* o, const char* s) { for (; *s; s++) vf_text[vf_text_n++] = *s; return o; }
void* vf_o3(void* o, char c) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
void* vf_o3(void* o, char c) { vf_text[vf_text_n++] = c; return o; }
void* vf_o4(void* o, const VfStr& s) __asm__("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* vf_o4(void* o, const VfStr& s) { for (unsigned long i = 0; i < s.n; i++) vf_text[vf_text_n++] = s.p[i]; return o; }
}
