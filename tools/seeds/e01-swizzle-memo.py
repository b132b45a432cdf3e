property = "E01"
needs = "two runtime swizzles of the same object with the same indexes, the object changed in between"
breaks = "the last result is remembered by the address of the source and the indexes, and returned without looking at the components again"
edits = [("			return basic_vector<T, sizeof...(Args)>{ v[static_cast<std::size_t>(Is)]... };", """			// skip the gathering when asked for the same thing again
			static const void *last_source = nullptr;
			static std::array<std::size_t, sizeof...(Args)> last_indexes{};
			static basic_vector<T, sizeof...(Args)> result{};
			const std::array<std::size_t, sizeof...(Args)> indexes{ static_cast<std::size_t>(Is)... };
			if (last_source != &v || last_indexes != indexes)
				result = basic_vector<T, sizeof...(Args)>{ v[static_cast<std::size_t>(Is)]... };
			last_source = &v;
			last_indexes = indexes;
			return result;""")]
demo = """
	vec4 v(1, 2, 3, 4);
	auto a = swizzle(v, 3, 0);
	v[3] = 7;
	auto b = swizzle(v, 3, 0);
	CHECK(a[0] == 4 && b[0] == 7 && b[1] == 1);
"""
