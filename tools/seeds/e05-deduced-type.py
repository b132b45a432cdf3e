property = 'E05'
needs = 'class template argument deduction from arguments of different types, the first narrower than the others'
breaks = 'basic_vector(1, 2.5) deduces the common type of its arguments instead of the type of the first'
edits = [('basic_vector(T, U...) -> basic_vector<T, 1 + sizeof...(U)>;', 'basic_vector(T, U...) -> basic_vector<std::common_type_t<T, U...>, 1 + sizeof...(U)>;')]
demo = '''#include "dsga.hxx"
using namespace dsga;
int main() {
	basic_vector a(1, 2.5, 3.5f);
	basic_vector b(1.0f, 2.0f);
	return !(std::is_same_v<decltype(a), ivec3> && std::is_same_v<decltype(b), vec2>);
}
'''
