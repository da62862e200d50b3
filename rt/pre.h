/* force-included into the sources under test */
#pragma once
#ifdef __cplusplus
extern "C"
#endif
void mc_pause(void);
#define __builtin_ia32_pause mc_pause
