property = 'A04'
needs = 'a 64-bit index whose low 32 bits are in range'
breaks = 'the bounds check of views looks at the index after converting it to int'
edits = [('\t\t\tdsga_constexpr_assert(index >= 0 && static_cast<std::size_t>(index) < Count, "index out of bounds");\n\t\t\treturn store[static_cast<std::size_t>(index)];\n\t\t}\n\n\t\t// in general, data() should be used with sequence() as the "logically contiguous" offsets\n\t\t[[nodiscard]] constexpr T *data() noexcept requires Writable && Mutable\n', '\t\t\tconst int i = static_cast<int>(index);\n\t\t\tdsga_constexpr_assert(i >= 0 && i < length(), "index out of bounds");\n\t\t\treturn store[i];\n\t\t}\n\n\t\t// in general, data() should be used with sequence() as the "logically contiguous" offsets\n\t\t[[nodiscard]] constexpr T *data() noexcept requires Writable && Mutable\n')]
demo = '''#include "dsga.hxx"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
using namespace dsga;
int main() {
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		freopen("/dev/null", "w", stderr);
		float d[3] = {1, 2, 3};
		const basic_view<false, float, 3> v(d);
		volatile unsigned long long i = 0x100000001ull;
		volatile float f = v[(unsigned long long) i];
		(void) f;
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return WIFSIGNALED(st) ? 0 : 1;
}
'''
