property = "C02"
needs = "a float matrix divided by a double, with a quotient that float cannot hold"
breaks = "matrix / scalar keeps the matrix' element type instead of the common type, losing the double precision of the divisor"
edits = [("return basic_matrix<std::common_type_t<T, U>, C, R>{ (lhs[Is] / rhs)... };", "return basic_matrix<T, C, R>{ (lhs[Is] / static_cast<T>(rhs))... };")]
demo = """
	mat2 m(1, 2, 3, 4);
	auto r = m / 3.0;
	CHECK(double(r[0][0]) == 1.0 / 3.0);
"""
