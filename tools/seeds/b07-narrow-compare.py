property = "B07"
needs = "== between a double vector and an int or float vector whose values differ only in what the narrower type cannot hold"
breaks = "vectors of different element types are compared in the right operand's type"
edits = [("return ((!std::isunordered(first[Is], second[Is]) && (first[Is] == static_cast<T1>(second[Is]))) && ...);", "return ((!std::isunordered(first[Is], second[Is]) && (static_cast<T2>(first[Is]) == second[Is])) && ...);", 2)]
demo = """
	CHECK(!(dvec2(1.5, 2) == ivec2(1, 2)));
	CHECK(!(dvec2(0.1, 2) == vec2(0.1f, 2)));
	CHECK(dvec2(1, 2) == ivec2(1, 2));
"""
