// Allocator seam (non-ASAN flavours): malloc family and operator new are interposed; C-level allocations can be made
// to fail at a chosen point and outstanding blocks can be audited.
#pragma once
#include <cstddef>
#include <cstdint>
namespace simalloc {
// Fail the C-level allocation number `nth` (1-based) from now (0: never), and every later one if `sticky`.
void Arm(uint32_t nth, bool sticky);
void Disarm();
uint32_t Failed();     // failures delivered since Arm
uint32_t Calls();      // C-level allocation calls since Arm
// Outstanding C-level blocks allocated by this thread set since StartAudit.
void StartAudit();
int64_t Outstanding();
int64_t OutstandingNew();  // operator new blocks
void StopAudit();
}  // namespace simalloc
