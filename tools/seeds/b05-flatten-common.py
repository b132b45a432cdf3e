property = "B05"
needs = "a variadic vec4 construction mixing int (above 2^24) or 64-bit integers with float components, into a double or integer vector"
breaks = "arguments are first brought to their common type, so an int next to a float is rounded to float before it is stored in a wider vector"
edits = [("""			auto arg_tuple = detail::flatten_args_to_tuple(u, args...);
			[this, &arg_tuple]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
			{
				((base[Is] = static_cast<T>(std::get<Is>(arg_tuple))), ...);
			}(std::make_index_sequence<Count>{});""", """			const auto arg_values = std::apply([](auto ...xs) noexcept
			{
				return std::array{ static_cast<std::common_type_t<decltype(xs)...>>(xs)... };
			}, detail::flatten_args_to_tuple(u, args...));
			[this, &arg_values]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
			{
				((base[Is] = static_cast<T>(arg_values[Is])), ...);
			}(std::make_index_sequence<Count>{});""", 3)]
demo = """
	dvec4 d(ivec2(16777217, 3), vec2(1.5f, 2.5f));
	CHECK(d[0] == 16777217.0 && d[1] == 3.0 && d[2] == 1.5 && d[3] == 2.5);
	basic_vector<long long, 4> q(basic_vector<long long, 3>(9007199254740993LL, 2, 3), 1.0);
	CHECK(q[0] == 9007199254740993LL);
	ivec4 i(ivec2(1, 2), ivec2(3, 4));
	CHECK(i[0] == 1 && i[3] == 4);
"""
