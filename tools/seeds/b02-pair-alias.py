property = "B02"
needs = "a compound assignment of a two-component swizzle by another swizzle of the same vector in a different order (v.xy -= v.yx)"
breaks = "two-component operands are updated one component at a time, so the second sees the first already changed"
edits = [("""											BinOp &op) noexcept
		{
			using ArgT = std::common_type_t<T1, T2>;
			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
			{
				lhs.set( op(static_cast<ArgT>(lhs[Is]), static_cast<ArgT>(rhs[Is]))... );""", """											BinOp &op) noexcept
		{
			using ArgT = std::common_type_t<T1, T2>;
			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
			{
				if constexpr (C == 2)
				{
					lhs[0] = static_cast<T1>(op(static_cast<ArgT>(lhs[0]), static_cast<ArgT>(rhs[0])));
					lhs[1] = static_cast<T1>(op(static_cast<ArgT>(lhs[1]), static_cast<ArgT>(rhs[1])));
				}
				else
					lhs.set( op(static_cast<ArgT>(lhs[Is]), static_cast<ArgT>(rhs[Is]))... );""")]
demo = """
	vec3 v(2, 5, 6);
	v.xy -= v.yx;
	CHECK(v[0] == -3 && v[1] == 3 && v[2] == 6);
"""
