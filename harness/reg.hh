#pragma once
#include "hx.hh"
namespace hx {
std::map<std::string, CaseFn>& registry();
struct Reg
{
    Reg(const char* name, CaseFn f) { registry()[name] = std::move(f); }
};
} // namespace hx
#define HX_CASE(name) \
    static void case_##name(const hx::Args& args, uint64_t index, hx::Rng& r, hx::CaseReport& rep); \
    static hx::Reg reg_##name(#name, case_##name); \
    static void case_##name([[maybe_unused]] const hx::Args& args, [[maybe_unused]] uint64_t index, [[maybe_unused]] hx::Rng& r, \
                            [[maybe_unused]] hx::CaseReport& rep)
