property = "D02"
needs = "sum() of floating-point components of different magnitude in a constant expression"
breaks = "sum() adds from the other end during constant evaluation, so a constant differs from the run-time value"
edits = [("				return ((*this)[Is] + ...);", "				if (std::is_constant_evaluated())\n					return (... + (*this)[Is]);\n				else\n					return ((*this)[Is] + ...);")]
demo = """
	constexpr vec3 c(1e8f, 4.0f, 4.0f);
	constexpr float s = c.sum();
	volatile float x = 1e8f;
	vec3 v(x, 4.0f, 4.0f);
	CHECK(v.sum() == s);
"""
