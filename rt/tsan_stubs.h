/* generated: callbacks emitted by the compiler's access instrumentation */
void __tsan_init(void){}
void __tsan_func_entry(void*p){(void)p;}
void __tsan_func_exit(void){}
void __tsan_read_range(void*p,long n){(void)p;(void)n;}
void __tsan_write_range(void*p,long n){(void)p;(void)n;}
void __tsan_vptr_update(void**a,void*b){(void)a;(void)b;}
void __tsan_vptr_read(void**a){(void)a;}
void __tsan_read1(void*a){plain(a,1,0);}
void __tsan_volatile_read1(void*a){point(a,0);}
void __tsan_unaligned_read1(void*a){plain(a,1,0);}
void __tsan_unaligned_volatile_read1(void*a){point(a,0);}
void __tsan_volatile_unaligned_read1(void*a){point(a,0);}
void __tsan_write1(void*a){plain(a,1,1);}
void __tsan_volatile_write1(void*a){point(a,1);}
void __tsan_unaligned_write1(void*a){plain(a,1,1);}
void __tsan_unaligned_volatile_write1(void*a){point(a,1);}
void __tsan_volatile_unaligned_write1(void*a){point(a,1);}
void __tsan_read2(void*a){plain(a,2,0);}
void __tsan_volatile_read2(void*a){point(a,0);}
void __tsan_unaligned_read2(void*a){plain(a,2,0);}
void __tsan_unaligned_volatile_read2(void*a){point(a,0);}
void __tsan_volatile_unaligned_read2(void*a){point(a,0);}
void __tsan_write2(void*a){plain(a,2,1);}
void __tsan_volatile_write2(void*a){point(a,1);}
void __tsan_unaligned_write2(void*a){plain(a,2,1);}
void __tsan_unaligned_volatile_write2(void*a){point(a,1);}
void __tsan_volatile_unaligned_write2(void*a){point(a,1);}
void __tsan_read4(void*a){plain(a,4,0);}
void __tsan_volatile_read4(void*a){point(a,0);}
void __tsan_unaligned_read4(void*a){plain(a,4,0);}
void __tsan_unaligned_volatile_read4(void*a){point(a,0);}
void __tsan_volatile_unaligned_read4(void*a){point(a,0);}
void __tsan_write4(void*a){plain(a,4,1);}
void __tsan_volatile_write4(void*a){point(a,1);}
void __tsan_unaligned_write4(void*a){plain(a,4,1);}
void __tsan_unaligned_volatile_write4(void*a){point(a,1);}
void __tsan_volatile_unaligned_write4(void*a){point(a,1);}
void __tsan_read8(void*a){plain(a,8,0);}
void __tsan_volatile_read8(void*a){point(a,0);}
void __tsan_unaligned_read8(void*a){plain(a,8,0);}
void __tsan_unaligned_volatile_read8(void*a){point(a,0);}
void __tsan_volatile_unaligned_read8(void*a){point(a,0);}
void __tsan_write8(void*a){plain(a,8,1);}
void __tsan_volatile_write8(void*a){point(a,1);}
void __tsan_unaligned_write8(void*a){plain(a,8,1);}
void __tsan_unaligned_volatile_write8(void*a){point(a,1);}
void __tsan_volatile_unaligned_write8(void*a){point(a,1);}
void __tsan_read16(void*a){plain(a,16,0);}
void __tsan_volatile_read16(void*a){point(a,0);}
void __tsan_unaligned_read16(void*a){plain(a,16,0);}
void __tsan_unaligned_volatile_read16(void*a){point(a,0);}
void __tsan_volatile_unaligned_read16(void*a){point(a,0);}
void __tsan_write16(void*a){plain(a,16,1);}
void __tsan_volatile_write16(void*a){point(a,1);}
void __tsan_unaligned_write16(void*a){plain(a,16,1);}
void __tsan_unaligned_volatile_write16(void*a){point(a,1);}
void __tsan_volatile_unaligned_write16(void*a){point(a,1);}
uint8_t __tsan_atomic8_load(const volatile uint8_t*a,int m){(void)m;point(a,0);return *a;}
void __tsan_atomic8_store(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);*a=v;}
uint8_t __tsan_atomic8_exchange(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=v;return o;}
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=(uint8_t)(o+v);return o;}
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=(uint8_t)(o-v);return o;}
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=(uint8_t)(o&v);return o;}
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=(uint8_t)(o|v);return o;}
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=(uint8_t)(o^v);return o;}
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t*a,uint8_t v,int m){(void)m;point(a,1);uint8_t o=*a;*a=(uint8_t)(~(o&v));return o;}
int __tsan_atomic8_compare_exchange_strong(volatile uint8_t*a,uint8_t*c,uint8_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint8_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
int __tsan_atomic8_compare_exchange_weak(volatile uint8_t*a,uint8_t*c,uint8_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint8_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t*a,uint8_t c,uint8_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint8_t o=*a;if(o==c)*a=v;return o;}
uint16_t __tsan_atomic16_load(const volatile uint16_t*a,int m){(void)m;point(a,0);return *a;}
void __tsan_atomic16_store(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);*a=v;}
uint16_t __tsan_atomic16_exchange(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=v;return o;}
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=(uint16_t)(o+v);return o;}
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=(uint16_t)(o-v);return o;}
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=(uint16_t)(o&v);return o;}
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=(uint16_t)(o|v);return o;}
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=(uint16_t)(o^v);return o;}
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t*a,uint16_t v,int m){(void)m;point(a,1);uint16_t o=*a;*a=(uint16_t)(~(o&v));return o;}
int __tsan_atomic16_compare_exchange_strong(volatile uint16_t*a,uint16_t*c,uint16_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint16_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
int __tsan_atomic16_compare_exchange_weak(volatile uint16_t*a,uint16_t*c,uint16_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint16_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t*a,uint16_t c,uint16_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint16_t o=*a;if(o==c)*a=v;return o;}
uint32_t __tsan_atomic32_load(const volatile uint32_t*a,int m){(void)m;point(a,0);return *a;}
void __tsan_atomic32_store(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);*a=v;}
uint32_t __tsan_atomic32_exchange(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=v;return o;}
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=(uint32_t)(o+v);return o;}
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=(uint32_t)(o-v);return o;}
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=(uint32_t)(o&v);return o;}
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=(uint32_t)(o|v);return o;}
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=(uint32_t)(o^v);return o;}
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t*a,uint32_t v,int m){(void)m;point(a,1);uint32_t o=*a;*a=(uint32_t)(~(o&v));return o;}
int __tsan_atomic32_compare_exchange_strong(volatile uint32_t*a,uint32_t*c,uint32_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint32_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
int __tsan_atomic32_compare_exchange_weak(volatile uint32_t*a,uint32_t*c,uint32_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint32_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t*a,uint32_t c,uint32_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint32_t o=*a;if(o==c)*a=v;return o;}
uint64_t __tsan_atomic64_load(const volatile uint64_t*a,int m){(void)m;point(a,0);return *a;}
void __tsan_atomic64_store(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);*a=v;}
uint64_t __tsan_atomic64_exchange(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=v;return o;}
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=(uint64_t)(o+v);return o;}
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=(uint64_t)(o-v);return o;}
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=(uint64_t)(o&v);return o;}
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=(uint64_t)(o|v);return o;}
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=(uint64_t)(o^v);return o;}
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t*a,uint64_t v,int m){(void)m;point(a,1);uint64_t o=*a;*a=(uint64_t)(~(o&v));return o;}
int __tsan_atomic64_compare_exchange_strong(volatile uint64_t*a,uint64_t*c,uint64_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint64_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
int __tsan_atomic64_compare_exchange_weak(volatile uint64_t*a,uint64_t*c,uint64_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint64_t o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t*a,uint64_t c,uint64_t v,int m,int fm){(void)m;(void)fm;point(a,1);uint64_t o=*a;if(o==c)*a=v;return o;}
unsigned __int128 __tsan_atomic128_load(const volatile unsigned __int128*a,int m){(void)m;point(a,0);return *a;}
void __tsan_atomic128_store(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);*a=v;}
unsigned __int128 __tsan_atomic128_exchange(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=v;return o;}
unsigned __int128 __tsan_atomic128_fetch_add(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=(unsigned __int128)(o+v);return o;}
unsigned __int128 __tsan_atomic128_fetch_sub(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=(unsigned __int128)(o-v);return o;}
unsigned __int128 __tsan_atomic128_fetch_and(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=(unsigned __int128)(o&v);return o;}
unsigned __int128 __tsan_atomic128_fetch_or(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=(unsigned __int128)(o|v);return o;}
unsigned __int128 __tsan_atomic128_fetch_xor(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=(unsigned __int128)(o^v);return o;}
unsigned __int128 __tsan_atomic128_fetch_nand(volatile unsigned __int128*a,unsigned __int128 v,int m){(void)m;point(a,1);unsigned __int128 o=*a;*a=(unsigned __int128)(~(o&v));return o;}
int __tsan_atomic128_compare_exchange_strong(volatile unsigned __int128*a,unsigned __int128*c,unsigned __int128 v,int m,int fm){(void)m;(void)fm;point(a,1);unsigned __int128 o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
int __tsan_atomic128_compare_exchange_weak(volatile unsigned __int128*a,unsigned __int128*c,unsigned __int128 v,int m,int fm){(void)m;(void)fm;point(a,1);unsigned __int128 o=*a;if(o==*c){*a=v;return 1;}*c=o;return 0;}
unsigned __int128 __tsan_atomic128_compare_exchange_val(volatile unsigned __int128*a,unsigned __int128 c,unsigned __int128 v,int m,int fm){(void)m;(void)fm;point(a,1);unsigned __int128 o=*a;if(o==c)*a=v;return o;}
void __tsan_atomic_thread_fence(int m){(void)m;}
void __tsan_atomic_signal_fence(int m){(void)m;}
