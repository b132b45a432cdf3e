property = "A11"
needs = "a runtime swizzle() index of a type wider than int whose low bits look valid (1LL << 32), or a negative one of a narrow type"
breaks = "swizzle() range-checks the index after narrowing it, so out-of-range 64-bit indexes wrap into the valid range instead of throwing"
edits = [("""			bool indexes_valid = ((static_cast<std::size_t>(Is) < C) && ...);
			dsga_constexpr_assert(indexes_valid, "indexes out of range");

			if (!indexes_valid)
				throw std::out_of_range("swizzle() indexes out of range");

			return basic_vector<T, sizeof...(Args)>{ v[static_cast<std::size_t>(Is)]... };""", """			const std::array<unsigned, sizeof...(Args)> which{ static_cast<unsigned>(Is)... };
			bool indexes_valid = std::ranges::all_of(which, [](unsigned i) { return i < C; });
			dsga_constexpr_assert(indexes_valid, "indexes out of range");

			if (!indexes_valid)
				throw std::out_of_range("swizzle() indexes out of range");

			return [&]<std::size_t ...Js>(std::index_sequence<Js...>)
			{
				return basic_vector<T, sizeof...(Args)>{ v[which[Js]]... };
			}(std::make_index_sequence<sizeof...(Args)>{});""")]
demo = """
#define DSGA_DISABLE_ASSERTS
#include "dsga.hxx"
#include <stdexcept>
int main()
{
	dsga::vec3 v(1, 2, 3);
	if (dsga::swizzle(v, 2, 0)[0] != 3) return 1;
	try { auto r = dsga::swizzle(v, 0LL, 1LL << 32); (void)r; } catch (const std::out_of_range &) { return 0; }
	return 1;
}
"""
