property = "A01"
needs = "the one name wxzy of a four-component view"
breaks = "one swizzle name of views exchanges two components"
edits = [("dexview4<Mutable, T, Size, 3, 0, 2, 1>\t\twxzy;", "dexview4<Mutable, T, Size, 3, 0, 1, 2>\t\twxzy;")]
demo = """
	float d[4] = {1, 2, 3, 4};
	basic_view<true, float, 4> v(d);
	CHECK(v.wxzy[0] == 4 && v.wxzy[1] == 1 && v.wxzy[2] == 3 && v.wxzy[3] == 2);
"""
