property = "A05"
needs = "random access from an iterator that is not at the beginning: it[k] on a swizzle of a view after the iterator has moved, with a negative k"
breaks = "operator[] of the swizzle-of-a-view iterator ignores the position for offsets that point backwards"
edits = [("""			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");

			return (*mapper_ptr)[mapper_index + offset];""", """			// position the access is relative to
			const std::ptrdiff_t position = (offset < 0) ? end_index + offset : mapper_index + offset;
			dsga_constexpr_assert((position >= begin_index) && (position < end_index), "offset not in range");

			return (*mapper_ptr)[position];""", 1)]
demo = """
	float d[4] = {1, 2, 3, 4};
	auto w = basic_view<true, float, 4>(d);
	auto it = w.wzyx.begin();
	it += 2;
	CHECK(it[-1] == 3 && it[-2] == 4 && it[1] == 1);
	it = w.wzyx.end();
	CHECK(it[-1] == 1);
"""
