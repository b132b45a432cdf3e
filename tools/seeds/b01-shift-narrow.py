property = "B01"
needs = "left shift of a 64-bit vector by 32 or more, or of bits that leave the low 32"
breaks = "both shift operands are brought to the shift count's type before shifting, so long long << int is computed in 32 bits"
edits = [("""-> T1 { return static_cast<T1>(lhs << rhs); };""", """-> T1
		{
			// never shift a signed value into its sign bit
			using shift_t = std::conditional_t<std::is_signed_v<T1>, std::make_unsigned_t<T2>, T1>;
			return static_cast<T1>(static_cast<shift_t>(lhs) << rhs);
		};""")]
demo = """
	basic_vector<long long, 2> v(1LL, 0x180000001LL);
	auto r = v << ivec2(3, 1);
	CHECK(r[0] == 8 && r[1] == 0x300000002LL);
	basic_vector<long long, 2> q(-5, 7);
	q <<= 2;
	CHECK(q[0] == -20 && q[1] == 28);
"""
