"""attribute names of sympy expressions (1.14): those of some, and those of every kind of expression"""
SOME = set("""
_Frel _Rrel _Symbol__xnew_cached_ _all_nonneg_or_nonppos _args_type _argset _as_mpf_op _as_mpf_val _as_real_imag _assumptions0
_assumptions_orig _canonical_assumptions _collapse_arguments _combine_inverse _dispatch_eval_derivative_n_times _eval_Mod _eval_aseries
_eval_difference_delta _eval_expand_mul _eval_expand_multinomial _eval_expand_power_base _eval_expand_power_exp _eval_expand_trig
_eval_herm_antiherm _eval_is_algebraic _eval_is_antihermitian _eval_is_commutative _eval_is_complex _eval_is_composite _eval_is_even
_eval_is_extended_nonnegative _eval_is_extended_nonpositive _eval_is_extended_real _eval_is_finite _eval_is_hermitian _eval_is_imaginary
_eval_is_infinite _eval_is_integer _eval_is_irrational _eval_is_negative _eval_is_noninteger _eval_is_nonnegative _eval_is_nonpositive
_eval_is_nonzero _eval_is_odd _eval_is_polar _eval_is_positive _eval_is_prime _eval_is_rational _eval_is_real _eval_is_transcendental
_eval_is_zero _eval_is_zero_infinite_helper _eval_order _eval_pos_neg _eval_real_imag _eval_refine _eval_rewrite_as_Abs
_eval_rewrite_as_Heaviside _eval_rewrite_as_Piecewise _eval_rewrite_as_Pow _eval_rewrite_as_besselj _eval_rewrite_as_cos
_eval_rewrite_as_cot _eval_rewrite_as_csc _eval_rewrite_as_exp _eval_rewrite_as_pow _eval_rewrite_as_sec _eval_rewrite_as_sin
_eval_rewrite_as_sinc _eval_rewrite_as_sincos _eval_rewrite_as_sqrt _eval_rewrite_as_tan _eval_rewrite_as_tanh _eval_simplify _expandsums
_find_localzeros _from_args _get_zero_with_shape_like _has_matcher _instance _is_connected _kind_dispatcher _matches_add_wildcard
_matches_commutative _matches_expand_pows _matches_get_other_nodes _matches_match_wilds _matches_new_states _matches_noncomm _matches_simple
_merge _mpc_ _mpf_ _mpmath_ _nargs _new _new_ _new_args_filter _new_rawargs _period _prec _remove_non_digits _sanitize _should_evalf
_singularities _sort_variable_count _taylor_term _wrt_variables as_finite_difference as_set as_two_terms base binary_symbols canonical
ceiling cofactors denominator derivative_count doit_numerically epsilon_eq eval exp expr extract_leading_order factors fdiff flatten floor
from_coprime_ints gcd identity inverse is_singular lcm limit_denominator make_args name nargs num numerator p period q to_nnf unbranched
variable_count variables zero
""".split())
EVERY = set("""
_add_handler _args _assumptions _constructor_postprocessor_mapping _diff_wrt _do_eq_sympify _eval_adjoint _eval_as_leading_term
_eval_conjugate _eval_derivative _eval_derivative_matrix_lines _eval_derivative_n_times _eval_evalf _eval_expand_complex _eval_interval
_eval_is_algebraic_expr _eval_is_comparable _eval_is_extended_negative _eval_is_extended_positive _eval_is_extended_positive_negative
_eval_is_meromorphic _eval_is_polynomial _eval_is_rational_function _eval_lseries _eval_nseries _eval_power _eval_rewrite _eval_subs
_eval_transpose _evalf _exec_constructor_postprocessors _expand_hint _explicit_class_assumptions _from_mpmath _has _hashable_content _mhash
_mul_handler _op_priority _parse_order _pow _prop_handler _random _repr_disabled _repr_latex_ _repr_png_ _repr_svg_ _rewrite _sage_
_sorted_args _subs _to_mpmath _xreplace adjoint apart args args_cnc as_base_exp as_coeff_Add as_coeff_Mul as_coeff_add as_coeff_exponent
as_coeff_mul as_coefficient as_coefficients_dict as_content_primitive as_dummy as_expr as_independent as_leading_term as_numer_denom
as_ordered_factors as_ordered_terms as_poly as_powers_dict as_real_imag as_terms aseries assumptions0 atoms cancel canonical_variables
class_key coeff collect combsimp compare conjugate copy could_extract_minus_sign count count_ops default_assumptions diff dir doit dummy_eq
equals evalf expand expr_free_symbols extract_additively extract_branch_factor extract_multiplicatively factor find fourier_series fps
free_symbols fromiter func gammasimp getO getn has has_free has_xfree integrate invert is_Add is_AlgebraicNumber is_Atom is_Boolean
is_Derivative is_Dummy is_Equality is_Float is_Function is_Indexed is_Integer is_MatAdd is_MatMul is_Matrix is_Mul is_Not is_Number
is_NumberSymbol is_Order is_Piecewise is_Point is_Poly is_Pow is_Rational is_Relational is_Symbol is_Vector is_Wild is_algebraic
is_algebraic_expr is_antihermitian is_commutative is_comparable is_complex is_composite is_constant is_even is_extended_negative
is_extended_nonnegative is_extended_nonpositive is_extended_nonzero is_extended_positive is_extended_real is_finite is_hermitian
is_hypergeometric is_imaginary is_infinite is_integer is_irrational is_meromorphic is_negative is_noninteger is_nonnegative is_nonpositive
is_nonzero is_number is_odd is_polar is_polynomial is_positive is_prime is_rational is_rational_function is_real is_same is_scalar is_symbol
is_transcendental is_zero kind leadterm limit lseries match matches n normal nseries nsimplify powsimp primitive radsimp ratsimp rcall
refine removeO replace rewrite round separate series simplify sort_key subs taylor_term together transpose trigsimp xreplace
""".split())
