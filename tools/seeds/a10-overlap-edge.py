property = "A10"
needs = "swap of two views whose storage overlaps in exactly one element"
breaks = "the overlap test stops one element short, so views that share a single element are swapped element by element instead of refused"
edits = [("""				return ((ptr <= ptr_to_check) && (ptr_to_check <= (ptr + count_offset)));""", """				return ((ptr <= ptr_to_check) && (ptr_to_check < (ptr + count_offset)));""")]
demo = """
	float d[5] = {1, 2, 3, 4, 5};
	basic_view<true, float, 3> a(d + 2), b(d);
	bool threw = false;
	try { a.swap(b); } catch (const std::range_error &) { threw = true; }
	CHECK(threw && d[0] == 1 && d[2] == 3 && d[4] == 5);
"""
