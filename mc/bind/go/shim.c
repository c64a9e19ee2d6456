// Stands between the Go package and the C library: records what is freed and when, and holds a
// call inside the library until the driver lets it go.
#include "c_eth_kzg.h"
#include <stdatomic.h>
#include <unistd.h>

struct DASContext *real_eth_kzg_das_context_new(bool use_precomp, uint32_t num_threads);
void real_eth_kzg_das_context_free(struct DASContext *ctx);
struct CResult real_eth_kzg_blob_to_kzg_commitment(const struct DASContext *ctx, const uint8_t *blob, uint8_t *out);
void real_eth_kzg_free_error_message(char *m);

#define MAX 4096
static _Atomic(void *) live[MAX];
static atomic_long users[MAX];
static atomic_long contexts, messages, entered;
static atomic_int holding;
// 1: freed while a call uses it, 2: freed twice or never made, 4: used after it was freed
static atomic_int wrong;

static int find(const void *p) {
  for (int i = 0; i < MAX; i++)
    if (atomic_load(&live[i]) == p) return i;
  return -1;
}

struct DASContext *eth_kzg_das_context_new(bool use_precomp, uint32_t num_threads) {
  struct DASContext *c = real_eth_kzg_das_context_new(use_precomp, num_threads);
  for (int i = 0; i < MAX; i++) {
    void *none = 0;
    if (atomic_compare_exchange_strong(&live[i], &none, (void *)c)) {
      atomic_store(&users[i], 0);
      break;
    }
  }
  atomic_fetch_add(&contexts, 1);
  return c;
}

void eth_kzg_das_context_free(struct DASContext *ctx) {
  if (!ctx) return;
  int i = find(ctx);
  if (i < 0) {
    atomic_fetch_or(&wrong, 2);
    return;
  }
  if (atomic_load(&users[i])) {
    // reported, and not carried out
    atomic_fetch_or(&wrong, 1);
    return;
  }
  atomic_store(&live[i], (void *)0);
  atomic_fetch_sub(&contexts, 1);
  real_eth_kzg_das_context_free(ctx);
}

struct CResult eth_kzg_blob_to_kzg_commitment(const struct DASContext *ctx, const uint8_t *blob, uint8_t *out) {
  int i = find(ctx);
  if (i < 0) {
    atomic_fetch_or(&wrong, 4);
  } else {
    atomic_fetch_add(&users[i], 1);
  }
  atomic_fetch_add(&entered, 1);
  for (int k = 0; atomic_load(&holding) && k < 100000; k++) usleep(100);
  struct CResult r = real_eth_kzg_blob_to_kzg_commitment(ctx, blob, out);
  if (r.error_msg) atomic_fetch_add(&messages, 1);
  if (i >= 0) atomic_fetch_sub(&users[i], 1);
  return r;
}

void eth_kzg_free_error_message(char *m) {
  if (m) atomic_fetch_sub(&messages, 1);
  real_eth_kzg_free_error_message(m);
}

long shim_contexts(void) { return atomic_load(&contexts); }
long shim_messages(void) { return atomic_load(&messages); }
long shim_entered(void) { return atomic_load(&entered); }
int shim_wrong(void) { return atomic_exchange(&wrong, 0); }
void shim_hold(int on) { atomic_store(&holding, on); }
