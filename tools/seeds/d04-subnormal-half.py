property = "D04"
needs = "cxcm::rsqrt of an odd multiple of the smallest float (a subnormal)"
breaks = "half of the argument is taken in float, which is inexact for subnormals, so the refinement converges to the root of another number"
edits = [("						double current_value = fast_rsqrt(boosted_arg);\n", "						double current_value = fast_rsqrt(boosted_arg);\n						const T half_arg = T(0.5) * arg;\n"),
 ("						current_value *= (1.5 - (0.5 * boosted_arg * current_value * current_value));\n\n", "						current_value *= (1.5 - (half_arg * current_value * current_value));\n\n", 0),
 ("						current_value *= (1.5 - (0.5 * boosted_arg * current_value * current_value));\n", "						current_value *= (1.5 - (half_arg * current_value * current_value));\n", 0),
 ("						current_value *= (1.5 - (0.5 * boosted_arg * current_value * current_value));\n", "						current_value *= (1.5 - (half_arg * current_value * current_value));\n", 0)]
demo = """
	volatile float x = 3 * std::numeric_limits<float>::denorm_min();
	double r = cxcm::rsqrt((float)x);
	CHECK(std::fabs(r * r * double(x) - 1) < 1e-6);
	volatile float y = 3.0f;
	r = cxcm::rsqrt((float)y);
	CHECK(std::fabs(r * r * y - 1) < 1e-6);
"""
