#include "vf.h"
uint64_t vf_rec_u64;
uint32_t vf_rec_u32;
uint16_t vf_rec_u16;
uint8_t  vf_rec_u8;
