property = 'A03'
needs = 'data() of a const swizzle of a view whose first name is not x'
breaks = 'the data pointer of a const view swizzle designates its first logical component, while sequence() still counts from the first stored one'
edits = [('\t\t\tdsga_constexpr_assert(base != nullptr, "view pointer is nullptr");\n\t\t\treturn base;\n\t\t}\n', '\t\t\tdsga_constexpr_assert(base != nullptr, "view pointer is nullptr");\n\t\t\treturn base + offsets[0];\n\t\t}\n')]
demo = '''
	float d[4] = {1, 2, 3, 4};
	const basic_view<false, float, 4> v(d);
	const auto &s = v.zyw;
	CHECK(s.data() == d);
	const std::size_t q[3] = {2, 1, 3};
	for (int i = 0; i < 3; ++i)
		CHECK(s.data()[q[i]] == s[i]);
'''
