/* vf_quiet.h and errors without texts.  use with stubs=ERR */
#include "vf_quiet.h"
#include "state.h"
c4_status_t c4_state_add_error(c4_state_t* state, const char* error) {
  if (!state->error) {
    state->error    = (char*) malloc(2);
    state->error[0] = 'e';
    state->error[1] = 0;
  }
  return C4_ERROR;
}
