#pragma once
#include <cstdint>
namespace vp {
extern uint64_t work_, work_limit_, moved_, shifted_;
extern bool work_on_;
// Called when the limit is passed; must not return.
[[noreturn]] void work_stop();
}
