property = 'E05'
needs = 'the read-only alias of four unsigned long long components'
breaks = 'cullview4 is a mutable view, so read-only code can write through it and const storage cannot be viewed'
edits = [('using cullview4 = basic_view<false, unsigned long long, 4>;', 'using cullview4 = basic_view<true, unsigned long long, 4>;')]
demo = '''#include "dsga.hxx"
using namespace dsga;
int main() {
	return !(std::is_constructible_v<cullview4, const unsigned long long *> && !std::is_assignable_v<cullview4 &, ullvec4>);
}
'''
