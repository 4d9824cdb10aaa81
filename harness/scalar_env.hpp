// configuration "scalar": the library's fallback code (no SSE, no NEON), selected as on 32-bit ARM without NEON.
// The system headers are read as what they are; the library then sees an architecture without vector instructions.
#include <bits/stdc++.h>
#undef __x86_64__
#define __arm__ 1
