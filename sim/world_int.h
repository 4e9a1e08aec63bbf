#pragma once
namespace w {
extern const int P_DEFER, P_INDIRECT, P_MULTI, P_TAIL, P_TAILX, P_TSET, P_TCOPY, P_TFILL;
void interp_main(Inv *inv);
void interp_reset_steps();
uint64_t num_op(uint8_t op, uint64_t x, uint64_t y);
}
