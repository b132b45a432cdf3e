property = 'D01'
needs = 'constant evaluation of floor or ceil of a subnormal value'
breaks = 'the constant-evaluated rounding functions hand subnormal arguments back as they are'
edits = [('\t\t\t\t\treturn isfinite(value) && (value != 0);\n', '\t\t\t\t\treturn isnormal(value);\n')]
demo = '''#include "dsga.hxx"
#include <limits>
using namespace dsga;
static_assert(cxcm::ceil(std::numeric_limits<double>::denorm_min()) == 1.0);
int main() {
	constexpr double c = cxcm::ceil(1e-310), f = cxcm::floor(-1e-310), t = cxcm::trunc(1e-310);
	return !(c == 1.0 && f == -1.0 && t == 0.0);
}
'''
