// Replays one harness call under AddressSanitizer, its arrays at 4 modulo 16: argv = name nf f-words.. i-words.. (hexadecimal)
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <vector>
int main(int argc, char** argv)
{
	auto fn = (void(*)(const float*, const int*, float*, int*))dlsym(RTLD_DEFAULT, argv[1]);
	if (!fn) return 3;
	int nf = atoi(argv[2]);
	std::vector<unsigned> f(64 + argc), i(64 + argc), of(4096), oi(4096);
	for (int k = 0; k < argc - 3; k++) (k < nf ? f[k + 1] : i[k - nf + 1]) = (unsigned)strtoul(argv[3 + k], nullptr, 16);
	fn((const float*)(f.data() + 1), (const int*)(i.data() + 1), (float*)(of.data() + 1), (int*)(oi.data() + 1));
	return 0;
}
