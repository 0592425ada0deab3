#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
D='src/polynomial/polynomial.rs';S='src/polynomial/sparsepolynomial.rs';M='src/polynomial/monomial.rs'
B='src/polynomial/binomial.rs';T='src/polynomial/trinomial.rs';A='src/polynomial/array_polynomial.rs'
N='src/numerics.rs';R='src/polynomial/find_roots.rs'
ALL=[D,S,M,B,T]
dense_state=dict(name='dense terms',meaning='coefficients, highest degree first; may carry leading zeros',where=D+' Polynomial.terms')
sparse_state=dict(name='sparse terms',meaning='degree -> coefficient map; may carry explicit zero entries',where=S+' SparsePolynomial.terms')
mono_state=dict(name='monomial',meaning='coefficient and degree; a zero coefficient may carry any degree',where=M+' Monomial')

prop('C01','Sum, difference and negation are exact polynomial arithmetic',
 "Adding, subtracting or negating polynomials yields exactly the polynomial whose coefficient at every degree is the sum, difference or negation of the operands' coefficients at that degree. This holds for every operator form (by value, by reference, in place, dense subtracted from sparse) in every representation, whatever stored zero coefficients (leading zeros, explicit zero entries) the operands carry, and for every coefficient type, as long as the coefficient arithmetic itself does not overflow. No form panics or hangs on such operands, including zero polynomials and operands of any relative length.",
 ['inputs'],'all operand pairs (all lengths, zero patterns, stored zeros), all operator forms, all coefficient types',
 'The unit tests check one pair of operands per form, of lengths 3 and 4, all trimmed, in i32; alignment of unequal lengths, stored zeros and the by-reference forms are barely reached.',
 ALL,[('length alignment and sign of the longer operand',D+' impl Add/AddAssign/Sub/SubAssign/Neg'),('map merge',S+' impl Add/AddAssign/Sub/SubAssign/Neg'),('component-wise ops',B+', '+T)],
 ['public coefficient fields of the result'],[dense_state,sparse_state])

prop('C02','Products, scalar multiples, scalar quotients and powers are exact',
 "Multiplying two polynomials yields the exact convolution of their coefficients; multiplying or dividing by a scalar acts on every coefficient; raising to a power equals repeated multiplication, and every polynomial to the power zero is one. This holds for every operator form (by value, by reference, in place) in every representation that offers it, whatever stored zeros the operands carry, and for zero operands, whose products and positive powers are zero rather than a panic. Coefficient overflow, degrees beyond the platform's word size, results that do not fit in memory and division of an integer coefficient by zero are outside the property.",
 ['inputs'],'all operand pairs, scalars and exponents, all operator forms and coefficient types',
 'Tests multiply (x+2) by itself, scale by 10 and take small powers of one polynomial; no zero operand, no stored zeros, no unequal lengths.',
 ALL,[('convolution over trimmed slices',D+' slice_mul'),('map convolution',S+' map_mul'),('square-and-multiply',D+' pow, '+S+' pow'),('coefficient/degree product',M+' Mul, pow')],
 ['public coefficient fields of the result'],[dense_state,sparse_state,mono_state])

prop('C03','Division with remainder reconstructs the dividend and terminates',
 "Dividing a polynomial by a non-zero polynomial always terminates and gives a quotient q and remainder r with dividend = q*divisor + r; over an exact field r is zero or has lower degree than the divisor, which makes both unique, and with floating-point coefficients the same holds up to rounding. With integer coefficients the identity is exact and division stops only when the leading remainder term is no longer divisible (its truncated quotient is zero) or its degree is below the divisor's. Quotient-only, remainder and in-place remainder operations agree with it, in the dense and sparse representations alike, and only a zero divisor panics.",
 ['inputs'],'all dividend/divisor pairs, dense and sparse, integer, float, rational and finite-field coefficients, with and without stored zeros',
 'There is no test of division or remainder at all in the repository.',
 [D,S],[('long division step',D+' div_mod, vec_sub_w_scale'),('map long division step',S+' div_mod, map_sub_w_scale'),('remainder operators',D+' Rem/RemAssign, '+S+' Rem/RemAssign')],
 ['returned quotient and remainder, or the operand after in-place remainder'],[dense_state,sparse_state])

prop('C04','Evaluation returns the value of the polynomial at the point',
 "Evaluating any polynomial, in any representation, at any point returns the sum of coefficient times point^degree over its terms, for every coefficient type for which the powers and sums fit. It does not depend on how the polynomial was built: stored zero coefficients contribute nothing (so a zero polynomial evaluates to zero everywhere), and evaluation at zero returns the constant term. Degrees of any size are honoured, including ones that do not fit in 32 bits.",
 ['inputs'],'all polynomials, points, representations and coefficient types, including very large sparse degrees',
 'Tests evaluate one quadratic at 5; nothing covers zero points, stored zeros, long polynomials, negative points or large degrees.',
 ALL+[N],[('Horner scheme',D+' Evaluable'),('term-wise powers',S+' Evaluable, '+M+' Evaluable'),('integer and float powers by usize',N+' PowUsize')],['eval return value'],[dense_state,sparse_state,mono_state])

prop('C05','Derivatives and integrals follow the power rule and invert each other',
 "The derivative maps every term c*x^d to c*d*x^(d-1) and the integral maps it to (c/(d+1))*x^(d+1) with a zero constant term, in every representation and regardless of stored zeros; so the derivative of an integral gives back the polynomial whenever the divisions are exact. Substituting a constant into an integral adds exactly that constant, evaluating it between two points gives the antiderivative's difference (additive over adjacent intervals), and displaying it gives the antiderivative followed by \"+ C\", or just \"C\" when it is zero.",
 ['inputs'],'all polynomials, representations, coefficient types, integration constants and bounds',
 'Tests differentiate and integrate two or three fixed quadratics and cubics; degree bookkeeping over stored leading zeros, long inputs and gaps is not reached.',
 ALL+['src/polynomial/derivative.rs','src/polynomial/integral.rs'],[('power rule over slices',D+' Derivable/Integrable'),('power rule over maps',S+' Derivable/Integrable'),('Integral wrapper','src/polynomial/integral.rs Integral')],['derivative, integral().inner(), replace_c, eval(a,b), to_string'],[dense_state,sparse_state,mono_state])

prop('C06','Shifting multiplies or divides by a power of x, dropping low terms',
 "Shifting left by n multiplies a polynomial by x^n; shifting right by n lowers every degree by n and discards the terms of degree below n, whatever stored zeros the polynomial carries; where the shift amount is signed, a negative amount shifts the other way. By-value and in-place forms agree, shifting right after shifting left by the same amount is the identity, and no shift amount (zero, the exact length, beyond the length, negative, the most negative integer) panics or yields anything else, as long as the degrees fit the platform's word and the dense result fits in memory.",
 ['inputs'],'all polynomials (with and without stored zeros), representations and shift amounts',
 'Tests shift two-term trimmed polynomials by 5 or -5 only.',
 ALL,[('Vec extension/truncation',D+' Shl/Shr/ShlAssign/ShrAssign'),('key arithmetic',S+' shifts'),('degree arithmetic',M+' shifts'),('fixed-size moves',B+', '+T+' Shr/ShrAssign')],['public coefficient fields of the result'],[dense_state,sparse_state,mono_state])

prop('C07','Observers and equality depend only on the polynomial, not its storage',
 "For every polynomial in every representation, its degree (minus infinity for zero), zero test, term lookup by degree, list of terms and ordered term iteration all describe the same set of non-zero terms, in strictly descending degree. Two values of the same type compare equal exactly when they denote the same polynomial, regardless of stored zeros or of how they were built; trimming, cloning and rebuilding from terms never change the polynomial, and trimming a dense polynomial leaves no leading zero. The zero value, and any value set to zero, is the zero polynomial by every one of these observers.",
 ['inputs'],'all polynomials incl. every pattern and position of stored zeros, all pairs for equality, all representations and coefficient types',
 'Tests look at a few fixed vectors; scanning loops work in blocks of four and depend on where zeros lie, and equality of differently stored values is checked for one pair.',
 ALL,[('blocked scan for the leading term',D+' first_nonzero_index, first_term, degree'),('filtered iteration',D+', '+S+' ordered_term_iter'),('map scan',S+' degree, PartialEq')],['degree, is_zero, term_with_degree, terms_as_vec, ordered_term_iter, ==, trim'],[dense_state,sparse_state,mono_state])

prop('C08','Term-by-term updates are exact or refused without effect',
 "Adding or subtracting a term updates exactly that degree's coefficient; building from a list of terms equals adding them one by one, repeated degrees accumulating. An update a representation cannot hold is refused with an error naming the reason (degree out of bounds for fixed-size forms, too many terms for a second degree in a one-term form, cannot negate when an absent term is subtracted from an unsigned growable polynomial) and leaves the value unchanged, while every update it can hold succeeds.",
 ['histories','inputs'],'all sequences of term additions and subtractions, over all representations, degrees and coefficient types',
 'Term updates are only reached through parsing and two macros; no test inspects a refused update or a sequence that cancels and re-adds terms.',
 ALL+['src/polynomial/traits.rs','src/err.rs'],[('grow-and-add',D+' add_term, try_sub_term'),('map entry update',S+' add_term, try_sub_term'),('capacity checks',M+', '+B+', '+T+' MutablePolynomial')],['Result of the update and public coefficient fields afterwards'],[dense_state,sparse_state,mono_state])

prop('C09','Parsing accepts exactly well-formed text and returns its sum of terms',
 "Parsing a text made of signed terms (a number, an x with optional numeric coefficient, and optionally ^ and a decimal degree; spaces, commas and underscores are separators inside it) returns the polynomial that is the sum of those terms, in any order and with repeats, for every representation whose capacity admits them and every coefficient type that can represent the numbers. Any other text is an error, never a different polynomial and never a panic: stray or doubled signs, carets or x, a degree without caret, foreign characters, unparsable numbers, empty or blank text. Terms that a fixed-size or one-term form cannot hold are reported as an error in adding the term.",
 ['inputs'],'all strings',
 'Tests parse about twenty hand-picked strings; acceptance of malformed strings and interactions between tokenizer and term parser are not explored.',
 ['src/strings.rs','src/terms.rs','src/err.rs']+ALL,[('splitting at signs','src/terms.rs TermTokenizer'),('term automaton','src/terms.rs Term::from_str'),('accumulation','src/strings.rs poly_from_str')],['from_str result of polynomials and of single terms'])

prop('C10','Rendering is canonical and parses back to the same polynomial',
 "Displaying a polynomial lists its non-zero terms in descending degree, joined by \" + \" or \" - \" according to sign, with unit coefficients omitted on powers of x, \"x\" for degree one, \"x^d\" above, the bare number for the constant, and \"0\" for the zero polynomial. The text does not depend on representation or stored zeros, and parsing it back yields an equal polynomial, for every finite coefficient of every numeric type including the most negative integers and fractional values.",
 ['inputs'],'all polynomials, representations and coefficient values of all numeric types',
 'Tests compare a dozen i32 strings; sign and unit handling for extreme or fractional coefficients, and the round trip through the parser, are not tested.',
 ['src/strings.rs','src/terms.rs',M,N],[('leading/trailing term writers','src/strings.rs write_leading_term, write_trailing_term'),('sign, abs and unit predicates',N+' IsPositive, Abs, IsNegativeOne'),('monomial display',M+' Display')],['to_string and from_str of it'],[dense_state,sparse_state,mono_state])

prop('C11','Widening coefficient conversions preserve the polynomial',
 "Converting a polynomial to a wider coefficient type, for every offered pair of types and every representation, preserves every degree and the exact numeric value of every coefficient (including minimum and maximum values), drops no term and adds none. Converting from a coefficient list or a single number gives the polynomial with exactly those coefficients.",
 ['inputs'],'all coefficient values of the 8- and 16-bit source types and boundary values of the wider ones, in every representation, for every type pair',
 'One of about 150 conversions is tested, with four small values.',
 ['src/macros.rs']+ALL,[('conversion table','src/macros.rs upcast'),('per-representation conversion',D+', '+S+', '+M+', '+B+', '+T+' From impls')],['public coefficient fields of the converted value'])

prop('C12','Closed-form roots and factors of degree one and two are right',
 "For one-term, linear and quadratic forms the reported root kind is right (all points for zero, none for a constant, otherwise real or a conjugate pair by the discriminant's sign, degenerating to lower degree when leading coefficients are zero) and the reported roots are the roots: exactly for integer coefficients when they are integers (otherwise as the quadratic formula gives them in integer arithmetic, with the square root rounded down and the division truncated), and up to rounding for floating point, with the larger real root first. The discriminant is b^2-4ac, and for genuine quadratics the leading coefficient times the product of the returned linear factors equals the quadratic, with real factors offered exactly when the roots are real.",
 ['inputs'],'all integer and float coefficient tuples of one-term, linear and quadratic polynomials',
 'Tests solve two quadratics with monic leading coefficient and even middle coefficient; factors are untested.',
 [M,B,T,R,N],[('quadratic formula',R+' trinomial_roots, discriminant_trinomial'),('integer square root',N+' AbsSqrt'),('factor construction',T+' complex_factors, real_factors')],['root, roots, discriminant, complex_factors, real_factors'])

prop('C13','Numerically found roots are roots, and simple real roots are all found',
 "For a dense or sparse floating-point polynomial, root finding always terminates and classifies zero as having infinitely many roots and a non-zero constant as having none. Every real or complex root it reports is a root up to numerical accuracy (relative to the root's multiplicity), the kind of answer matches its content (all real, only the real ones, complex, none), complex roots come in conjugate pairs and with all their companions, and if the polynomial's real roots are simple and well separated then every one of them is reported, exactly once. The dense and sparse forms of a polynomial give the same answer.",
 ['inputs'],'all real polynomials of degree up to the bound with well-separated simple real roots and any complex factors (completeness), and all small-integer-coefficient polynomials (soundness, agreement)',
 'Tests solve one triple-root cubic, one degree-10 polynomial and one rootless quartic; cubics with three distinct roots are never tried.',
 [R,D,S,N],[('cubic formula',R+' cubic_roots'),('dispatch on shape',R+' find_roots_special'),('isolate and deflate',R+' find_roots, div, normalize')],['roots()'])

prop('C14','Iterator helpers and macros combine polynomials of any representation',
 "The helper functions and macros that add, subtract or multiply polynomials given as term iterators produce, in a sink of any representation, the sink's old value plus or minus the source, or plus the product, and report success; macros that create a fresh result give the sum, difference or product of all their arguments, and the literal macros build the polynomial, its derivative or its integral. If the sink cannot hold a term the helper returns that term's error instead of success.",
 ['inputs'],'all pairs of source and sink representations and values, and argument counts',
 'Two tests use one pair of dense operands each; the multiplication macro is never expanded by any test.',
 ['src/polynomial/poly_math.rs','src/polynomial/integral.rs','src/polynomial/derivative.rs',D],[('helpers','src/polynomial/poly_math.rs add_poly, sub_poly, mul_poly_vec'),('macros','src/polynomial/poly_math.rs poly_add!, poly_sub!, poly_mul!; polynomial!, derivative!, integral!')],['sink or result value, Result'])

prop('C15','Any history of operations keeps every form equal to the true polynomial',
 "After any sequence of constructions, in-place and by-value arithmetic, term updates, shifts, remainders, derivatives and resets, a polynomial object denotes exactly the polynomial that the same sequence of mathematical operations gives, and every observation of it (terms, degree, zero test, equality, evaluation, text) agrees with that polynomial. The dense and sparse forms driven by the same history always agree with each other, and no history of operations on in-range coefficients panics or hangs.",
 ['histories'],'all operation sequences up to the stated depth/closure over a small alphabet, per representation and for dense and sparse in lockstep',
 'Every unit test applies a single operation to a freshly built value; states that only arise after cancellations (stored zeros left behind by an earlier step) are never fed to a later operation.',
 ALL,[('no normalisation between steps',D+' SubAssign, ShlAssign, RemAssign, MulAssign; '+S+' all in-place forms'),('zero-with-degree states',M+' set_to_zero, MutablePolynomial')],['public fields and all observers after each step'],[dense_state,sparse_state,mono_state])

prop('C16','Optional-feature array polynomials and sparse trimming obey the same laws',
 "With the optional features enabled, a fixed-capacity array polynomial of any capacity behaves as the polynomial with its coefficients: term lookup, term listing, degree, evaluation, derivative, integral, equality, zeroing, term updates (refused without effect when the degree exceeds the capacity), and for capacities two and three the root, discriminant and factor operations. Trimming a sparse polynomial removes exactly its zero entries and changes nothing else.",
 ['inputs','configurations'],'all coefficient arrays over a small alphabet for capacities 0 to 6 (and longer with few non-zeros), all term updates; all sparse maps with stored zeros',
 'The feature-gated tests evaluate, differentiate and integrate one array each; term iteration and updates are never called.',
 [A,S,'src/lib.rs'],[('const-generic array operations',A),('retain non-zero',S+' trim (feature sparse_poly_trim)')],['results of the array polynomial operations'],None,'guarded re-export of the array polynomial type (it is not reachable from outside the crate)')

prop('C17','At representability limits results are exact or the documented panic',
 "Differentiation and integration of polynomials whose degree is close to what the coefficient type can represent either return the exact result or panic as documented: differentiation succeeds whenever the type can represent every number up to the degree (for sparse and one-term forms: whenever it can represent the degrees of the non-zero terms), integration whenever it can likewise represent the degree plus one, and a degree that is not representable is refused, never silently truncated. Polynomials with very large sparse degrees (up to the platform's word size) add, multiply, shift, differentiate, render and parse exactly.",
 ['inputs'],'every degree around the limits of every coefficient type (8-bit fully, 16-bit and float limits at their boundaries), every representation',
 'No test uses a degree above 10 or a narrow type in differentiation or integration.',
 [N,D,S,M],[('usize to coefficient conversions',N+' TryFromUsizeContinuous, TryFromUsizeExact'),('callers',D+', '+S+', '+M+' Derivable/Integrable')],['result or panic'],[dense_state,sparse_state,mono_state])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
