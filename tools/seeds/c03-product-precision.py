property = "C03"
needs = "a float matrix times a double matrix"
breaks = "the product of two matrices of different element types is accumulated in the left one's type"
edits = [("auto val = basic_matrix<element_type_t, C2, R1>{};", "auto val = basic_matrix<std::conditional_t<(sizeof(T) < sizeof(element_type_t)) && (C1 != C2), T, element_type_t>, C2, R1>{};"),
         ("((val[Is] = lhs * rhs[Is]), ...);", "((val[Is] = decltype(val[Is] + val[Is])(lhs * rhs[Is])), ...);")]
demo = """
	mat2x3 a(1, 0, 0, 0, 1, 0);
	dmat3x2 b(0.1, 0, 0, 0.1, 0, 0);
	auto r = a * b;
	CHECK(double(r[0][0]) == 0.1);
"""
