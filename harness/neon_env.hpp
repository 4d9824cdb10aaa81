// configuration "neon": the library's AArch64 code. The system headers are read as what they are; the library then sees an
// AArch64 target, and its <arm_neon.h> is harness/neon/arm_neon.h (every intrinsic it uses, written with vector extensions).
#include <bits/stdc++.h>
#undef __x86_64__
#define __aarch64__ 1
