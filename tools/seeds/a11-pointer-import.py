property = "A11"
needs = "a matrix with more columns than rows imported from a pointer"
breaks = "the pointer constructor steps by the number of columns instead of rows, so a non-square matrix takes elements from the wrong places"
edits = [("columns[Col].set(static_cast<T>(*(Col * R + Js + input_data))...);", "columns[Col].set(static_cast<T>(*(Col * C + Js + input_data))...);")]
demo = """
	float d[12];
	for (int i = 0; i < 12; ++i) d[i] = float(i);
	mat3x2 m(d);
	CHECK(m[0][1] == 1 && m[1][0] == 2 && m[2][1] == 5);
	mat4x3 k(d);
	CHECK(k[1][0] == 3 && k[3][2] == 11);
"""
