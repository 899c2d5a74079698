// Stand-in for the read-port types of the absent axi-interconnect-kit submodule (types only).
#pragma once
#include <cstdint>
namespace axi_interconnect {
constexpr uint32_t MAX_READ_TRANSACTION_BYTES = 256;
struct WideData512_t { uint32_t words[MAX_READ_TRANSACTION_BYTES / 4]; uint32_t &operator[](int i) { return words[i]; } const uint32_t &operator[](int i) const { return words[i]; } };
struct ReadMasterReq_t { bool valid, ready, accepted; uint32_t addr; uint8_t total_size, id, accepted_id; bool bypass; };
struct ReadMasterResp_t { bool valid, ready; WideData512_t data; uint8_t id; };
struct ReadMasterPort_t { ReadMasterReq_t req; ReadMasterResp_t resp; };
}
