"""Properties worth stating that this family of technique cannot decide here (they go under not_applicable)."""
NOT_APPLICABLE = [
    dict(id="N01", title="Compile-time square roots converge to within one unit in the last place",
         statement="In constant evaluation sqrt (and length, distance, normalize and refract, which use it) terminates for every positive finite argument and its result differs from the correctly rounded root by at most one unit in the last place.",
         over="inputs", text="all positive finite arguments in constant evaluation",
         why="The iteration stops on equality of successive approximations; a pair of values it alternates between would never end, and a test can only try some arguments.",
         mech=[("iteration", "cxcm::relaxed::detail::converging_sqrt")],
         reason="the result and the number of rounds depend on rounding errors of an iteration that stops on floating-point equality: termination needs a proof about exact double-double arithmetic per argument, which no abstract domain in reach (affine forms, intervals) provides; tests or a proof assistant could. Special arguments and the scaling of extreme ones are decided under D01, the loop-free reciprocal roots under D04"),
    dict(id="N02", title="Inverse, normalize and products are numerically accurate",
         statement="For well-conditioned matrices M*inverse(M) differs from the identity by a small multiple of the unit roundoff times the condition number; normalize of a vector whose squared length neither overflows nor underflows has length one to within a few units in the last place.",
         over="inputs", text="all matrices up to a condition number; all vectors without overflow of the squared length",
         why="Cancellation in cofactors only shows for particular matrices.",
         mech=[("cofactors", "functions::inverse, determinant"), ("scaling", "functions::normalize")],
         reason="the error bound depends on the condition number and on cancellation between run-time values; a sound static bound over all inputs is vacuous. That the formulas are the exact algebraic ones, operation by operation, is decided under B13, C03 and C04"),
    dict(id="N03", title="Trigonometric and exponential results are accurate",
         statement="Every component of sin, cos, tan, their inverses and hyperbolic forms, pow, exp, log, exp2, log2 and sqrt is within the documented accuracy of the real function.",
         over="inputs", text="all floating-point arguments in the domain of each function",
         why="Accuracy is a statement about every representable argument.",
         mech=[("library calls", "functions::*_op")],
         reason="the values come from the C library, whose source is not part of this codebase; what dsga adds (which function is called, in which precision, on which component) is decided under B10"),
    dict(id="N04", title="The double-double helper arithmetic is error-free where it claims to be",
         statement="cxcm::dd_real's two_sum, two_prod and split return the exact error term of the operation, for all arguments without overflow, so that the pair represents the exact result.",
         over="inputs", text="all pairs of doubles without overflow or underflow",
         why="An error-free transformation that is wrong by one rounding is right for most sampled arguments.",
         mech=[("error-free transformations", "cxcm::dd_real")],
         reason="exactness is a bit-level fact of round-to-nearest arithmetic over all exponent differences; affine arithmetic only bounds the error term and cannot prove it exactly zero, and a bit-precise proof is a solver's. Its use is bounded under D04: the reciprocal roots computed with it meet their accuracy"),
]
