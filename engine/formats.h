#include <stdarg.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
int message_publish(int, const char *, ...) __attribute__((format(printf,2,3)));
int message_publish_standalone(int, const char *, ...) __attribute__((format(printf,2,3)));
int vmessage_publish(int, const char *, va_list) __attribute__((format(printf,2,0)));
int send_hs(FILE *, const char *, ...) __attribute__((format(printf,2,3)));
int vsend_hs(FILE *, const char *, va_list) __attribute__((format(printf,2,0)));
int exec_terminate(const char *, const char *);
#ifdef __cplusplus
}
#endif
