property = 'E06'
needs = 'asking whether matrices swap without throwing (containers and algorithms do)'
breaks = 'swap of two matrices no longer promises not to throw'
edits = [('constexpr void swap(basic_matrix<T, C, R> &lhs, basic_matrix<T, C, R> &rhs) noexcept', 'constexpr void swap(basic_matrix<T, C, R> &lhs, basic_matrix<T, C, R> &rhs)')]
demo = '''#include "dsga.hxx"
using namespace dsga;
int main() {
	return !(std::is_nothrow_swappable_v<mat3> && std::is_nothrow_swappable_v<dmat2x4> && std::is_nothrow_swappable_v<vec3>);
}
'''
