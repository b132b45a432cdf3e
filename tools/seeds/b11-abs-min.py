property = 'B11'
needs = 'abs of the most negative integer in some component'
breaks = 'abs no longer asserts that the argument has an absolute value'
edits = [('constexpr inline auto abs_op = []<dimensional_scalar T>(T arg) noexcept { return cxcm::abs(arg); };', 'constexpr inline auto abs_op = []<dimensional_scalar T>(T arg) noexcept -> T\n\t\t{\n\t\t\tif constexpr (std::integral<T>)\n\t\t\t\treturn (arg < T(0)) ? T(T(0) - arg) : arg;\n\t\t\telse\n\t\t\t\treturn cxcm::abs(arg);\n\t\t};')]
demo = '''#include "dsga.hxx"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <climits>
using namespace dsga;
int main() {
	pid_t p = fork();
	if (p == 0) {
		freopen("/dev/null", "w", stderr);
		volatile int m = INT_MIN;
		auto r = abs(ivec3(1, -2, m));
		volatile int f = r[2];
		(void) f;
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return WIFSIGNALED(st) ? 0 : 1;
}
'''
