property = "E02"
needs = "a build with DSGA_DISABLE_ASSERTS, stepping a swizzle iterator backwards"
breaks = "the decrement happens inside the assertion, so a build without assertions does not step at all"
edits = [("""			dsga_constexpr_assert(mapper_index > begin_index, "don't decrement past begin_index");

			--mapper_index;
			return *this;""", """			dsga_constexpr_assert(--mapper_index >= begin_index, "don't decrement past begin_index");

			return *this;""", 0)]
pre = ""
demo = """
#define DSGA_DISABLE_ASSERTS
#include "dsga.hxx"
#include <cstdio>
int main()
{
	dsga::vec3 v(1, 2, 3);
	auto w = v.zyx;
	auto e = v.zyx.cend();
	--e;
	(void)w;
	return (e - v.zyx.cbegin()) == 2 ? 0 : (std::printf("wrong position\\n"), 1);
}
"""
