/* constants: see also vsal.h */
#include <stddef.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
long vc_valtype_as_is = SCM_VALTYPE_AS_IS;
/* where the global variables the contracts speak of live */
#undef scm_values_applier
long vc_off_values_applier = offsetof(struct scm_g_procedure, scm_values_applier);
#if SCM_USE_LEGACY_MACRO
#undef scm_syntactic_closure_env
long vc_off_syntactic_closure_env = offsetof(struct scm_g_legacy_macro, scm_syntactic_closure_env);
#endif
long vc_sizeof_cell = sizeof(ScmCell);
#undef scm_symbol_hash
#undef scm_symbol_hash_size
long vc_off_symbol_hash = offsetof(struct scm_g_symbol, scm_symbol_hash);
long vc_off_symbol_hash_size = offsetof(struct scm_g_symbol, scm_symbol_hash_size);
long vc_off_conf_heap_size = offsetof(ScmStorageConf, heap_size);
long vc_off_conf_heap_alloc_threshold = offsetof(ScmStorageConf, heap_alloc_threshold);
long vc_off_conf_n_heaps_max = offsetof(ScmStorageConf, n_heaps_max);
long vc_off_conf_n_heaps_init = offsetof(ScmStorageConf, n_heaps_init);
long vc_off_conf_symbol_hash_size = offsetof(ScmStorageConf, symbol_hash_size);
