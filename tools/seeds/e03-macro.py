property = "E03"
needs = "a program that has a name of its own equal to the leaked macro's"
breaks = "a macro without the library's prefix is left defined after the header"
edits = [("""		template <floating_point_scalar T>
		inline constexpr T radians_per_degree_v = std::numbers::pi_v<T> / T(180);
""", """		#define RADIANS_PER_DEGREE(Type) (std::numbers::pi_v<Type> / Type(180))

		template <floating_point_scalar T>
		inline constexpr T radians_per_degree_v = RADIANS_PER_DEGREE(T);
""")]
demo = '''#include "dsga.hxx"
namespace app { constexpr double RADIANS_PER_DEGREE (double scale) { return scale * 0.017453292519943295; } }
int main() { return app::RADIANS_PER_DEGREE(2.0) > 0.034 ? 0 : 1; }
'''
