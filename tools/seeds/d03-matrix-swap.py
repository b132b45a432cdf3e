property = 'D03'
needs = 'swapping matrices in a constant expression'
breaks = 'matrix swap goes through a raw byte exchange that constant evaluation cannot perform'
edits = [('\t\tconstexpr void swap(basic_matrix &bm) noexcept\t\t\t{ columns.swap(bm.columns); }', '\t\tconstexpr void swap(basic_matrix &bm) noexcept\n\t\t{\n\t\t\tconst auto old_columns = columns;\n\t\t\tstd::memcpy(data(), bm.data(), sizeof(columns));\n\t\t\tstd::memcpy(bm.data(), &old_columns, sizeof(columns));\n\t\t}'), ('#include <tuple>', '#include <cstring>\n#include <tuple>')]
demo = '''#include "dsga.hxx"
using namespace dsga;
constexpr bool f() {
	mat2 a(1, 2, 3, 4), b(5, 6, 7, 8);
	a.swap(b);
	return a[0][0] == 5 && b[1][1] == 4;
}
template <auto V> concept K = requires { typename std::bool_constant<V()>; };
static_assert(f());
int main() { return 0; }
'''
