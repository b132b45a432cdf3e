property = "B08"
needs = "two different 64-bit integers that round to the same double (beyond 2^53)"
breaks = "notEqual compares through std::islessgreater, which converts 64-bit integers to double"
edits = [("return std::isunordered(x, y) ? true : x != y;", "return std::isunordered(x, y) || std::islessgreater(x, y);")]
demo = """
	basic_vector<long long, 2> a(9007199254740993LL, 5), b(9007199254740992LL, 5);
	CHECK(notEqual(a, b)[0]);
	CHECK(!notEqual(a, b)[1]);
	CHECK(notEqual(vec2(std::nanf(""), 1), vec2(1, 1))[0]);
"""
