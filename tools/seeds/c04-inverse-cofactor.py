property = "C04"
needs = "a 4x4 matrix without special structure: the wrong factor only shows where the elements it mixes up differ"
breaks = "one product in the adjugate of a 4x4 matrix takes its factor from the wrong row"
edits = [("- arg[3][0] * arg[2][2] * arg[0][3] - arg[2][0] * arg[0][2] * arg[3][3] - arg[0][0]", "- arg[3][0] * arg[2][2] * arg[0][3] - arg[2][0] * arg[0][2] * arg[2][3] - arg[0][0]")]
demo = """
	dmat4 m(2, 1, 8, 3, 1, 4, 2, 7, 5, 3, 6, 1, 3, 2, 5, 9);
	auto i = m * inverse(m);
	for (int c = 0; c < 4; ++c)
		for (int r = 0; r < 4; ++r)
			CHECK(std::fabs(i[c][r] - (c == r)) < 1e-9);
"""
