// The installed libcrypto has no loadable "rdrand" engine, so the hardware
// engine the code asks for is replaced by a named placeholder. RAND_bytes stays
// OpenSSL's own generator.
#include <openssl/engine.h>
extern "C" {
static int vf_dummy_engine;
ENGINE* ENGINE_by_id(const char*) { return reinterpret_cast<ENGINE*>(&vf_dummy_engine); }
int ENGINE_init(ENGINE*) { return 1; }
int ENGINE_set_default(ENGINE*, unsigned int) { return 1; }
int ENGINE_finish(ENGINE*) { return 1; }
int ENGINE_free(ENGINE*) { return 1; }
}
