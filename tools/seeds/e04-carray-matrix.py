property = "E04"
needs = "to_matrix() of a C array for a matrix that is not square"
breaks = "the C-array overload steps through the array by columns' count instead of rows', so columns of a non-square matrix come from the wrong elements"
edits = [("return basic_vector<T, R>{ arg[cols * R + Is]... };", "return basic_vector<T, R>{ arg[cols * C + Is]... };", 1)]
demo = """
	float a[6] = {1, 2, 3, 4, 5, 6};
	auto m = to_matrix<2, 3>(a);
	CHECK(m[0][0] == 1 && m[0][2] == 3 && m[1][0] == 4 && m[1][2] == 6);
"""
