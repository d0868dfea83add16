// force-included into every unit of the system under test
#ifdef __cplusplus
extern "C" {
#endif
void sim_pause(void);
#ifdef __cplusplus
}
#endif
#define __builtin_ia32_pause sim_pause
