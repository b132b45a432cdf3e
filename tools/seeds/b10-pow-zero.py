property = 'B10'
needs = 'a zero base with an exponent that is not positive in some, not all, components'
breaks = 'pow only refuses a zero base with a non-positive exponent when every component has one'
edits = [('\t\t\t\tall(compNot(compAnd(equal(base, basic_vector<T, C>(0)), lessThanEqual(exp, basic_vector<T, C>(0))))),\n', '\t\t\t\t!all(compAnd(equal(base, basic_vector<T, C>(0)), lessThanEqual(exp, basic_vector<T, C>(0)))),\n')]
demo = '''#include "dsga.hxx"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
using namespace dsga;
int main() {
	pid_t p = fork();
	if (p == 0) {
		freopen("/dev/null", "w", stderr);
		volatile float z = 0;
		auto r = pow(vec3(1, z, 2), vec3(1, -1, 2));
		volatile float f = r[1];
		(void) f;
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return WIFSIGNALED(st) ? 0 : 1;
}
'''
