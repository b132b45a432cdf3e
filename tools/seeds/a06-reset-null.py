property = 'A06'
needs = 'reset(nullptr) on a four-component view of const data'
breaks = 'resetting a view of const data to null leaves it aimed at the old storage'
edits = [('\t\tconstexpr void reset(const T *view_ptr) noexcept requires (!Mutable)\n\t\t{\n\t\t\tbase.reset(view_ptr);', '\t\tconstexpr void reset(const T *view_ptr) noexcept requires (!Mutable)\n\t\t{\n\t\t\tif (view_ptr)\n\t\t\t\tbase.reset(view_ptr);', 3)]
demo = '''#include "dsga.hxx"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
using namespace dsga;
int main() {
	pid_t p = fork();
	if (p == 0) {
		freopen("/dev/null", "w", stderr);
		float d[4] = {1, 2, 3, 4};
		basic_view<false, float, 4> v(d);
		const float *none = nullptr;
		v.reset(none);
		volatile float f = v[1];
		(void) f;
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	return WIFSIGNALED(st) ? 0 : 1;
}
'''
