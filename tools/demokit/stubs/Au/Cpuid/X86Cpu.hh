// Stand-in for AOCL-Utils' CPU identification (not installable here).
// It reports a fixed, machine-independent CPU so that every simulated run
// takes the same dispatch path: AVX2, no AVX512, not AMD -> "generic".
#ifndef SIM_AU_X86CPU_HH
#define SIM_AU_X86CPU_HH
#include <cstdint>
namespace Au {
enum class EUarch { Unknown = -1, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6 };
enum class ECpuidFlag {
    avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw,
    avx512vbmi, avx512_vbmi = avx512vbmi, avx512_4vnniw, avx512_vpopcntdq, avx512_fp16, avx512_vnni, avx512_bf16
};
class X86Cpu {
  public:
    X86Cpu(int = 0) {}
    EUarch getUarch() const { return EUarch::Unknown; }
    bool hasFlag(ECpuidFlag f) const { return f == ECpuidFlag::avx2; }
    bool isAMD() const { return false; }
    bool isUarch(EUarch) const { return false; }
};
} // namespace Au
#endif
