property = "B09"
needs = "apply() with a callable that has state (a running sum, a generator), compiled by g++"
breaks = "apply() passes the results as constructor arguments instead of a braced list, so the order in which the callable sees the components is up to the compiler (g++: last to first)"
edits = [("return basic_vector<T, Count>{ op((*this)[Is])... };		// braced init list is evaluated in element order", "return basic_vector<T, Count>(op((*this)[Is])...);")]
demo = """
	vec4 v(1, 2, 3, 4);
	float run = 0;
	auto r = v.apply([&](float x) { return run += x; });
	CHECK(r[0] == 1 && r[1] == 3 && r[2] == 6 && r[3] == 10);
"""
