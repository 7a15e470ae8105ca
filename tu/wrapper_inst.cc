// Odr-uses EnvWapper's inline members so that their real bodies are emitted.
#include "lsmdb/env.h"
lsmdb::Env* verif_use_wrapper(lsmdb::Env* e) {
  lsmdb::EnvWapper* w = new lsmdb::EnvWapper(e);
  return w->target();
}
