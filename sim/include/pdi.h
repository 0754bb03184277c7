#pragma once
#include "paraconf.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { PDI_OK = 0, PDI_UNAVAILABLE, PDI_ERR_CONFIG, PDI_ERR_VALUE, PDI_ERR_PLUGIN, PDI_ERR_IMPL, PDI_ERR_SYSTEM, PDI_ERR_STATE, PDI_ERR_RIGHT, PDI_ERR_TYPE } PDI_status_t;
typedef enum { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 } PDI_inout_t;
PDI_status_t PDI_init(PC_tree_t conf);
PDI_status_t PDI_finalize(void);
PDI_status_t PDI_event(char const* event);
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_reclaim(char const* name);
PDI_status_t PDI_release(char const* name);
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_multi_expose(char const* event_name, char const* name, void const* data, PDI_inout_t access, ...);
char const* PDI_errmsg(void);
typedef void (*PDI_errfunc_f)(PDI_status_t status, char const* message, void* context);
typedef struct PDI_errhandler_s {
    PDI_errfunc_f func;
    void* context;
} PDI_errhandler_t;
extern const PDI_errhandler_t PDI_ASSERT_HANDLER;
extern const PDI_errhandler_t PDI_WARN_HANDLER;
extern const PDI_errhandler_t PDI_NULL_HANDLER;
PDI_errhandler_t PDI_errhandler(PDI_errhandler_t handler);
#ifdef __cplusplus
}
#endif
