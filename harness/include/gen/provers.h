#ifndef PROVERS_H
#define PROVERS_H

bool eth_prover_execute(prover_ctx_t* ctx);

static void prover_execute(prover_ctx_t* ctx) {
  if (eth_prover_execute(ctx)) return;
  ctx->state.error = strdup("Unsupported chain");
}

#endif // PROVERS_H
