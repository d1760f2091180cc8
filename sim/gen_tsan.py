"""Writes tsan.c: the instrumentation callbacks gcc emits for -fsanitize=thread."""
import sys
o=[]
o.append('/* Generated by gen_tsan.py. */\n#define _GNU_SOURCE\n#include "core.h"\n#include <string.h>\ntypedef __int128 a128;\n')
o.append('void __tsan_init(void) {}\nvoid __tsan_func_entry(void *p) { (void)p; }\nvoid __tsan_func_exit(void) {}\n')
for n in (1,2,4,8,16):
    for pre in ('','unaligned_','volatile_','unaligned_volatile_'):
        if pre.startswith('unaligned') and n==1: continue
        for rw,w in (('read',0),('write',1)):
            name=pre+rw+str(n)
            body='sim_access((uintptr_t)p, %d, %d, 0);'%(n,w)
            if 'volatile' in pre: body='if (sim_running) { sim_check_range(p, %d, %d, "memory access"); sim_point(OP_ATOMIC, 0); sim_check_range(p, %d, %d, "memory access"); }'%(n,w,n,w)
            o.append('void __tsan_%s(void *p) { %s }\n'%(name,body))
            o.append('void __tsan_%s_pc(void *p, void *pc) { (void)pc; %s }\n'%(name,body))
        o.append('void __tsan_%sread_write%d(void *p) { sim_access((uintptr_t)p, %d, 1, 0); }\n'%(pre,n,n))
o.append('''void __tsan_read_range(void *p, size_t n) { sim_access((uintptr_t)p, n, 0, 0); }
void __tsan_write_range(void *p, size_t n) { sim_access((uintptr_t)p, n, 1, 0); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
static inline void at(const volatile void *p, int n, int w) {
    if (!sim_running) return;
    sim_check_range((const void *)p, (size_t)n, w, "atomic access");
    sim_point(OP_ATOMIC, (u64)(uintptr_t)p);
    sim_check_range((const void *)p, (size_t)n, w, "atomic access");
}
''')
for bits,t in ((8,'u8'),(16,'u16'),(32,'u32'),(64,'u64'),(128,'a128')):
    n=bits//8
    A='__tsan_atomic%d_'%bits
    o.append('%s %sload(const volatile %s *p, int m) { (void)m; at(p, %d, 0); return *p; }\n'%(t,A,t,n))
    o.append('void %sstore(volatile %s *p, %s v, int m) { (void)m; at(p, %d, 1); *p = v; }\n'%(A,t,t,n))
    for op,e in (('exchange','v'),('fetch_add','(%s)(o + v)'%t),('fetch_sub','(%s)(o - v)'%t),('fetch_and','(%s)(o & v)'%t),('fetch_or','(%s)(o | v)'%t),('fetch_xor','(%s)(o ^ v)'%t),('fetch_nand','(%s)~(o & v)'%t)):
        o.append('%s %s%s(volatile %s *p, %s v, int m) { (void)m; at(p, %d, 1); %s o = *p; *p = %s; return o; }\n'%(t,A,op,t,t,n,t,e))
    for w in ('strong','weak'):
        o.append('int %scompare_exchange_%s(volatile %s *p, %s *c, %s v, int m, int fm) { (void)m; (void)fm; at(p, %d, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }\n'%(A,w,t,t,t,n))
    o.append('%s %scompare_exchange_val(volatile %s *p, %s c, %s v, int m, int fm) { (void)m; (void)fm; at(p, %d, 1); %s o = *p; if (o == c) *p = v; return o; }\n'%(t,A,t,t,t,n,t))
o.append('void __tsan_atomic_thread_fence(int m) { (void)m; if (sim_running) sim_point(OP_ATOMIC, 0); }\nvoid __tsan_atomic_signal_fence(int m) { (void)m; }\n')
open(sys.argv[1],'w').write(''.join(o))
