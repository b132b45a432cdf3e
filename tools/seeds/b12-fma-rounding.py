property = "B12"
needs = "operands whose product has more significant bits than the type, with an addend that cancels it"
breaks = "fma() is computed as a multiplication and an addition, rounding twice"
edits = [("inline auto fma_op = []<floating_point_scalar T>(T a, T b, T c) noexcept { return std::fma(a, b, c); };", "inline auto fma_op = []<floating_point_scalar T>(T a, T b, T c) noexcept { return a * b + c; };")]
demo = """
	volatile double e = 1 + std::ldexp(1.0, -30);
	dvec2 a(e, 2), c(-(e * e), 1);
	auto r = fma(a, a, c);
	CHECK(r[0] == std::ldexp(1.0, -60) && r[1] == 5);
"""
