property = "B13"
needs = "refract() exactly at the critical angle: k == 0"
breaks = "the grazing ray is treated as total internal reflection and the zero vector is returned"
edits = [("			if (k < T(0))\n				return basic_vector<T, C>(T(0));", "			if (k <= T(0))\n				return basic_vector<T, C>(T(0));")]
demo = """
	// dot == 0 and eta == 1 give k == 0
	vec2 i(1, 0), n(0, 1);
	auto r = refract(i, n, 1.0f);
	CHECK(r[0] == 1 && r[1] == 0);
"""
