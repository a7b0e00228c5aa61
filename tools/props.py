# property table: id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], technique, level, note
PR = []
def prop(id, title, statement, over, text, why, files, mech, technique, level, note): PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note))
TERM = "contracts on the real functions, executed on symbolic leaves; exact normal-form / prime-field identity prover over the terms they build; replay on the real code"
TNOTE = "Postconditions proved for all real inputs meeting the stated precondition by an exact normal form over Q with quadratic extensions, or (counted separately as randomised) by evaluation over a 127-bit prime field. Trusts the term exporter, the algebra back end, g++; machine arithmetic treated as exact; node values per P01."
UFT = "contracts on the real functions, executed on enumerated operand shapes with symbolic leaves; equality of the built terms decided in the theory of complex fields with uninterpreted functions; failing obligations replayed on concrete inputs"
UFN = "Each obligation holds for all leaf values: decided by evaluating both terms in F_(p^2), p=2^127-1, with congruence for uninterpreted functions (one-sided error below 2^-100). Operand shapes are enumerated (a rule inspects at most two levels); induction over deeper operands is argued, not machine-checked. Rounding treated as exact."
prop("P01", "Building an expression never changes the value it denotes",
 "Whatever algebraic simplification and constant folding takes place while an expression is built with the overloaded operators and function builders, the resulting expression has the value of the operation applied to the operands, for all values of its parameters. This covers addition, subtraction, multiplication, division, negation, powers, comparisons, logical operations, conditionals and the elementary functions, with any mixture of real and complex constants, parameters and nested operands. Evaluating an expression directly gives the mathematical operation of each node on the values of its arguments.",
 ["inputs"], "all parameter values; all pairs of operand shapes up to depth three", "the tests build about twenty expressions; a rewrite rule that fires on a particular operand shape is not among them",
 ["AmpGen/Expression.h", "src/Expression.cpp", "src/BinaryExpression.cpp", "src/UnaryExpression.cpp"], [("rewriting on construction", "src/Expression.cpp"), ("direct evaluation", "src/BinaryExpression.cpp, src/UnaryExpression.cpp")], UFT, "proof", UFN)
prop("P02", "Generated source text denotes the expression it was generated from",
 "The C++ source text produced for any expression, read with the precedence and literal rules of C++, has the value of the expression - with and without resolved parameters, and in the SIMD dialect. Numerical constants, real and complex, read back to exactly the value they had. Distinct named common sub-expressions get distinct names.",
 ["inputs"], "all parameter values; every node class with every pair of child classes", "a missing bracket or a truncated literal shows only for particular nestings or constants",
 ["src/Expression.cpp", "src/BinaryExpression.cpp", "src/UnaryExpression.cpp"], [("text of each node", "src/BinaryExpression.cpp, src/UnaryExpression.cpp, src/Expression.cpp")], UFT, "proof", UFN + " CUDA output not covered.")
prop("P03", "A compiled function computes its expression with the current parameter values",
 "The function generated for an expression returns the value of that expression for every event and parameter value: every common sub-expression is computed before it is used and once, every event variable and parameter is read from its own slot, and multi-component, debugging, batch, SIMD and built-in-parameter entry points agree. After the parameter set changes, preparing the function makes it use the new values of free, fixed, derived and lambda parameters, and the change flag is raised exactly when a value it depends on changed. Parameters written into the code as literals keep their exact value.",
 ["inputs", "histories"], "all event and parameter values; random and fixed expression graphs; histories of parameter updates", "the tests compile two expressions; ordering and slot assignment depend on the shape of the graph and on hash values",
 ["src/ASTResolver.cpp", "src/CompiledExpressionBase.cpp", "AmpGen/CompiledExpression.h", "src/CacheTransfer.cpp", "src/ExpressionParser.cpp"], [("ordering of sub-expressions", "src/ASTResolver.cpp"), ("generated entry points", "src/CompiledExpressionBase.cpp"), ("parameter transfer", "src/CacheTransfer.cpp, AmpGen/CompiledExpression.h")],
 "postcondition of the generator on enumerated expression graphs: the emitted function, read statement by statement, is proved equal to the expression in the theory of complex fields with uninterpreted functions; each emitted function is also compiled and run", "proof", UFN + " Graphs are enumerated; batch entry points and parameter-update histories are executed (bounded).")
prop("P04", "Symbolic derivatives of the elementary functions are correct",
 "The derivative returned for each elementary function (logarithm, exponential, square root and its inverse, sine, cosine, tangent and their inverses) equals the derivative of that function with respect to its argument, at every point of its domain.",
 ["inputs"], "all arguments in the domain", "no test takes a derivative",
 ["src/UnaryExpression.cpp"], [("derivative of each node", "src/UnaryExpression.cpp")], TERM, "proof", TNOTE + " The derivative is taken with respect to the function's direct argument, as the code defines it; conjugation, modulus, real and imaginary part have no complex derivative and are excluded.")
prop("P05", "Normal ordering and simplification preserve the value of an expression",
 "Simplifying an expression, expanding it into normal-ordered form (with or without opening common sub-expressions), or turning it into a simplified common sub-expression never changes its value, for any values of its parameters. Two expressions that end up sharing one name in the generated code are equal.",
 ["inputs"], "all parameter values; enumerated and random expression shapes", "tests simplify one or two polynomials",
 ["src/Simplify.cpp", "AmpGen/Simplify.h"], [("bracket expansion and term collection", "src/Simplify.cpp")], UFT, "proof", UFN)
prop("P07", "Indexed tensor algebra follows Einstein's rules",
 "Every tensor expression written with index labels - products, sums, differences, contractions with upper and lower indices, reorderings - has exactly the components Einstein's summation convention with the metric diag(-1,-1,-1,+1) prescribes. This holds for every rank and dimension, whatever symmetry has been imposed on the operands, and for fully contracted (scalar) results. Symmetrising, conjugating, scaling and CSE-marking a tensor never changes the value of any other component.",
 ["inputs"], "all component values, all index placements in the enumerated shapes", "the tests multiply a couple of fixed tensors; a wrong stride, sign or dropped component for another shape or index order is never executed",
 ["AmpGen/Tensor.h", "src/Tensor.cpp"], [("index-labelled products, sums and contractions", "src/Tensor.cpp"), ("imposed symmetry bookkeeping", "src/Tensor.cpp")], TERM, "proof", TNOTE + " Shapes up to rank 4 are enumerated.")
prop("P08", "Symbolic matrix inversion returns the two-sided inverse",
 "The inverse returned for a square matrix, multiplied with that matrix from either side, is the identity, for every matrix with non-vanishing pivots, real or complex, symmetric or not, and for every size.",
 ["inputs"], "all matrices with entries in general position", "tests invert one or two numeric matrices",
 ["src/Tensor.cpp"], [("symbolic Gauss-Jordan inversion", "src/Tensor.cpp")], TERM, "proof", TNOTE + " Dimensions 1 to 6.")
prop("P09", "Spin matrices satisfy their defining algebras",
 "The gamma, Pauli, four-dimensional spin, rotation and Gell-Mann matrices satisfy the Clifford, su(2), so(3) and su(3) algebras with the documented metric and representation. The Feynman slash, Dirac conjugation and projected gamma matrices built from them obey slash(p)^2 = p^2, u-bar = u^dagger gamma0 and p.gamma-tilde = 0 for every momentum and spinor.",
 ["inputs"], "all momenta and spinors", "no unit test multiplies out the algebra",
 ["src/DiracMatrices.cpp", "src/Vertex.cpp"], [("constant matrices", "src/DiracMatrices.cpp"), ("slash, Dirac conjugate", "src/Vertex.cpp")], TERM, "proof", TNOTE)
prop("P10", "Rotations and boosts are Lorentz transformations in every representation",
 "Any rotation or boost, and any sequence of them, preserves the Minkowski metric, is undone by its inverse, and acts consistently in the vector, spinor and bispinor representations. Sequences compose in the documented order, including empty sequences, appended sequences and inverses.",
 ["inputs", "histories"], "all angles, rapidities and unit axes; all compositions of up to four steps", "the tests check a handful of numeric rotations",
 ["AmpGen/Transform.h", "src/Transform.cpp"], [("closed-form transformation matrices", "src/Transform.cpp"), ("sequence cache", "src/Transform.cpp")], TERM, "proof", TNOTE)
prop("P11", "Angular-momentum functions match quantum mechanics",
 "The rotation functions d and D, the Clebsch-Gordan coefficients and the LS-to-helicity recoupling constants have their standard (Condon-Shortley) values and orthogonality, for all angles and all supported spins. The helicity-frame transformation takes the particle's momentum to rest (or, for massless particles, to the +z axis) by a proper Lorentz transformation.",
 ["inputs"], "all angles and momenta; spins enumerated", "tests sample no spin above one and few angles",
 ["src/Wigner.cpp"], [("closed form of the d function", "src/Wigner.cpp"), ("Clebsch-Gordan sum", "src/Wigner.cpp"), ("Wick rotation", "src/Wigner.cpp")], TERM, "proof", TNOTE + " Clebsch-Gordan and recoupling tables are exhaustive up to the stated spins (bounded).")
prop("P12", "External polarisation states are correctly normalised and labelled",
 "For every on-shell momentum the external spin-1 and spin-1/2 states are transverse (respectively solve the Dirac equation), are orthonormal, sum over states to the spin projector, and carry the spin projection of their label: Jz in the rest frame in the canonical basis, helicity in the helicity basis. This includes momenta exactly along +z and -z and particles at rest, particles and antiparticles, and photons.",
 ["inputs", "configurations"], "all on-shell momenta, both bases", "tests evaluate single points away from the special directions",
 ["src/Particle.cpp", "src/Wigner.cpp"], [("closed-form polarisation vectors and spinors", "src/Particle.cpp"), ("rest-frame basis states", "src/Wigner.cpp")], TERM, "proof", TNOTE + " Momenta inside the 1e-6 alignment guard but off axis are excluded; masses 1/2 and 2 exactly, physical masses by replay.")
prop("P13", "Spin projectors and orbital tensors project onto definite spin",
 "For every timelike momentum the spin-1, spin-2, spin-1/2 and spin-3/2 projectors are idempotent, transverse, symmetric and traceless (gamma-traceless) as appropriate, with the trace of their spin multiplicity. The P- and D-wave orbital tensors are the transverse (traceless symmetric) parts of the relative momentum.",
 ["inputs"], "all timelike momenta", "tests compare one or two contracted numbers",
 ["src/Vertex.cpp"], [("projector formulae", "src/Vertex.cpp")], TERM, "proof", TNOTE)
prop("P14", "Spin couplings are Lorentz covariant, linear and as documented",
 "Every two-body spin coupling transforms covariantly under rotations and boosts, is linear in the spin state of each decay product (antilinear where a Dirac conjugate is taken), and returns a state of the parent's spin: transverse vectors, symmetric traceless tensors, solutions of the Dirac equation of the right sign. Each coupling equals the contraction it is documented (or named) to be, including the factor from a scalar decay product.",
 ["inputs"], "all momenta and spin states, all couplings", "the tests touch a handful of couplings at a single phase-space point",
 ["AmpGen/Vertex.h", "src/Vertex.cpp", "src/FermionVertices.cpp"], [("one contraction per named coupling", "src/Vertex.cpp, src/FermionVertices.cpp")], TERM, "proof", TNOTE + " Couplings without documented formula are held to the contraction implied by their name as read from the code. The four radiative couplings use the lab-frame photon helicity operator and are not checked for covariance; the axial current coupling is not checked for transversality.")
prop("P15", "Propagators and barrier factors equal their published formulae",
 "The break-up momentum, Blatt-Weisskopf factors (relative and absolute, L up to 4), running width and normalisation factor equal their defining formulae for every mass and momentum, and each lineshape - Breit-Wigner with its modifiers, form factors, fixed-width and non-relativistic Breit-Wigner, Gounaris-Sakurai, Flatte, LASS and generalised LASS, Bugg, isotensor, coupled channel, Gaussian, polynomial, photon - equals its documented function of the invariant masses and of the parameters named after its particle. Above and below threshold the documented continuation is used, and parameters the user does not set have the documented default values. LASS and the isotensor wave satisfy elastic unitarity.",
 ["inputs"], "all invariant masses, parameters and lineshape modifiers, above and below threshold", "the tests evaluate two lineshapes at single points",
 ["src/Lineshapes.cpp", "src/Lineshapes"], [("barrier factors, widths", "src/Lineshapes.cpp"), ("one function per lineshape", "src/Lineshapes")], TERM, "proof", TNOTE + " The oracle for the barrier factors is the reverse Bessel recursion; final-state masses are set to exactly representable numbers for the proof. Branch combinations are those occurring among 120 sampled inputs per lineshape.")
prop("P16", "K-matrix amplitudes are unitary and solve (1 - iK rho) F = P",
 "For every set of poles, couplings, backgrounds and channels the K-matrix built is the symmetric sum of pole and background terms, the propagator is the inverse of 1 - iK rho, and each amplitude returned (scattering, pole, production, Q-, P- and Z-vector, the isoscalar five-channel matrix, the K-pi parametrisations) is that propagator applied to its production vector. Scattering amplitudes built from real K and open channels satisfy T - T^dagger = 2i T^dagger rho T.",
 ["inputs", "configurations"], "all pole positions, couplings, masses; up to 5 channels and 5 poles", "no unit test evaluates a K-matrix",
 ["src/Lineshapes/kMatrix.cpp", "src/Lineshapes/GenericKmatrix.cpp", "src/Lineshapes/kMatrixSimple.cpp", "src/Lineshapes/FOCUS.cpp", "src/Lineshapes/PALANO.cpp"], [("propagator inversion", "src/Lineshapes/kMatrix.cpp"), ("P-vector construction", "src/Lineshapes/GenericKmatrix.cpp")], TERM, "proof", TNOTE + " Most five-channel and multi-pole identities are decided in the prime field. The slowly varying factor (1+s0)/(s-s0) of the generic P-vector and the numeric constants of the K-pi parametrisations are taken from the code.")
EXPL = "contracts on the real functions, checked on generated inputs against an independent reading of the documentation (bounded stand-in: the string and container code is outside the deductive verifiers available here)"
EXN = "Bounded: nothing is proved for all inputs. Oracle written from the documentation and the particle data files."
prop("P17", "A decay descriptor denotes exactly the decay tree it spells out",
 "Parsing a decay descriptor gives the decay tree it writes - particles, nesting, orbital angular momentum, spin state, lineshape and vertex modifiers - and printing that tree gives a descriptor which parses to the same tree. Descriptors that differ only in the order in which daughters are written denote the same decay. Final-state particles are assigned to distinct slots of the event type with matching names, and descriptors with unknown particles, unbalanced brackets or a final state that does not match are rejected rather than misread.",
 ["inputs"], "generated descriptors over the whole particle table, any nesting, any modifiers", "tests parse a dozen descriptors",
 ["src/Particle.cpp", "AmpGen/Particle.h", "src/Utilities.cpp"], [("descriptor parsing and canonical form", "src/Particle.cpp"), ("splitting of nested lists", "src/Utilities.cpp")], EXPL, "exploration", EXN)
prop("P18", "Charge conjugation is an involution that preserves particle data",
 "Every particle of the data files can be found under its name and number, with the mass, width, lifetime, spin, parity, charge and quark content the files give, or the options override. The antiparticle has the same mass, width and spin, opposite charge, quarks and number, and its antiparticle is the original. Conjugating a decay conjugates every particle in it, keeps its structure and modifiers, and conjugating twice gives the decay back.",
 ["inputs"], "every particle in the tables (exhaustive); generated decay trees", "tests look up a handful of particles",
 ["src/ParticleProperties.cpp", "src/ParticlePropertiesList.cpp", "src/Particle.cpp"], [("particle table", "src/ParticlePropertiesList.cpp"), ("conjugation of decays", "src/Particle.cpp")],
 "postconditions of the table functions discharged for every entry of the particle table (finite domain, exhaustive); conjugation of decay trees checked on generated trees (bounded)", "exploration", "Table obligations are exhaustive; decay trees are generated (bounded). Entries without number or with ambiguous name are excluded.")
prop("P19", "Decays get exactly the orbital and spin couplings quantum mechanics allows",
 "For every two-body decay the orbital angular momenta and spin couplings offered are exactly those allowed by angular-momentum conservation, and by parity when the decay conserves quark flavour. The default orbital angular momentum is the smallest allowed one. Decays that cannot conserve angular momentum are given none.",
 ["inputs", "configurations"], "all spins up to 4 (halves included), both parities of all three particles; decays of tabulated particles", "tests look at single decays",
 ["src/Particle.cpp", "src/QuarkContent.cpp"], [("allowed couplings", "src/Particle.cpp")],
 "postcondition of the coupling functions discharged for every spin-parity triple up to the stated spin (finite domain, exhaustive); decays of tabulated particles sampled (bounded)", "exploration", "Exhaustive up to spin 4; larger spins not covered; sampled decays are bounded.")
prop("P20", "Amplitudes have the exchange symmetry of identical particles",
 "Exchanging the momenta (and spin states) of two identical final-state particles leaves the amplitude of any decay unchanged if they are bosons and changes its sign if they are fermions, at every phase-space point. The symmetrisation runs over all and only the permutations of equally named particles, each counted once, with the sign of the fermion permutation. Building an amplitude leaves the decay description as it was.",
 ["inputs", "configurations"], "all momenta; enumerated decay topologies with two to four identical particles, both spin formalisms", "tests evaluate one symmetrised amplitude",
 ["src/Particle.cpp", "src/Utilities.cpp", "src/Vertex.cpp", "src/FermionVertices.cpp"], [("sum over orderings", "src/Particle.cpp")], UFT, "proof", UFN + " Decay topologies are enumerated; where a topology has no exact proof it is evaluated at phase-space points and counted as bounded.")
prop("P21", "Quark content arithmetic conserves flavour",
 "A quark state counts quarks minus antiquarks of each of the six flavours, whatever the order in which they are written. Sums, differences and conjugation act flavour by flavour, on every alternative of a superposition; two contents agree when they share an alternative.",
 ["inputs"], "all states of one or two quarks; random longer strings and superpositions", "tests check the content of single particles",
 ["src/QuarkContent.cpp", "AmpGen/QuarkContent.h"], [("flavour counting", "src/QuarkContent.cpp")],
 "postconditions discharged for every state of one and two quarks (finite domain, exhaustive); longer strings and superpositions sampled (bounded)", "exploration", "Exhaustive for short strings only; the rest bounded.")
prop("P28", "Decay rules combine into exactly the chains and couplings they describe",
 "Given a set of decay rules and an event type, the amplitudes found are exactly the complete chains of rules that start at the parent and end in that final state, each once. The coupling of a chain is the product of the couplings of the rules it uses, in cartesian or polar coordinates, with the current values of the parameters.",
 ["inputs", "histories"], "generated rule sets with branching, shared and unused rules", "tests use one or two rule sets",
 ["src/AmplitudeRules.cpp", "src/Particle.cpp"], [("matching and expansion of rules", "src/AmplitudeRules.cpp")], EXPL, "exploration", EXN)
prop("P29", "The CP-conjugate amplitude is the amplitude at the parity-transformed point",
 "For every decay chain, the amplitude of the conjugate decay evaluated with all three-momenta reversed equals the CP sign of the decay times the original amplitude; the decay and its conjugate have the same sign. Adding CP-conjugate couplings gives each coupling and each shape parameter its conjugate - conjugate name, value multiplied by the CP sign (in polar coordinates only the magnitude) - leaves those already present alone, and adds nothing else.",
 ["inputs", "configurations"], "all momenta; enumerated decay chains of spinless particles in both spin formalisms; generated parameter sets", "tests never compare a decay with its conjugate",
 ["src/Particle.cpp", "src/AddCPConjugate.cpp"], [("CP sign of a chain", "src/Particle.cpp"), ("conjugate couplings", "src/AddCPConjugate.cpp")], UFT, "proof", UFN + " Decay chains are enumerated; the canonical formalism and the coupling bookkeeping are bounded (executed). Chains split over several rules carry the sign of the first vertex only and are outside the property.")
prop("P31", "Predictions do not depend on the reference frame",
 "The amplitude of a decay of spinless particles has the same value in every reference frame: unchanged under any rotation or boost of all momenta (covariant formalism), and under any rotation in the rest frame of the parent (canonical formalism). For decays with spin, the rate summed over all spin states of parent and final state has the same invariance.",
 ["inputs", "configurations"], "all momenta, rotations and boosts; enumerated decay chains with intermediate spins up to 2", "tests never evaluate an amplitude in two frames",
 ["src/Particle.cpp", "src/Vertex.cpp", "src/FermionVertices.cpp", "src/Wigner.cpp"], [("covariant amplitudes", "src/Vertex.cpp"), ("helicity-frame amplitudes", "src/Wigner.cpp, src/Particle.cpp")], UFT, "proof", UFN + " Decay chains are enumerated. Only the covariant spinless case is proved; the canonical formalism and the spin-summed rates are evaluated at phase-space points (bounded). Photon couplings are only held to rotations.")
prop("P32", "An amplitude is the product of the lineshapes and spin couplings of its vertices",
 "The amplitude of a decay chain is the product of one lineshape per decaying particle - evaluated at its own invariant mass, its daughters' masses and its orbital angular momentum - and of the spin factor of the chain, which alone depends on the spin formalism. The covariant spin factor is the contraction of the couplings of all vertices; the canonical one is the sum over intermediate helicities of LS couplings and rotation functions, equal up to a constant phase to spherical harmonics coupled in the rest frame of each particle.",
 ["inputs", "configurations"], "all momenta; enumerated chains with one to three resonances, spins up to 2, orbital momenta up to 2", "tests compare a handful of numbers with recorded values",
 ["src/Particle.cpp", "src/Lineshapes.cpp", "src/Wigner.cpp", "src/Vertex.cpp"], [("product over the decay tree", "src/Particle.cpp"), ("helicity amplitudes", "src/Wigner.cpp")], UFT, "proof", UFN + " Decay chains are enumerated. The comparison of canonical amplitudes with LS-coupled spherical harmonics is evaluated at phase-space points (bounded).")
prop("P25", "Options and parameter files mean what they say",
 "Reading an options file gives every line its tokens - quoted text, comments, braces spanning lines and imported files as documented - and where a key is given more than once the last definition wins, the command line over the file; an option asked for by name has the value given, or else its default. A parameter line creates the parameter it describes, with its flag, value, step and limits, and the mass, width and radius of a particle serve its antiparticle too. A parameter defined by an expression always has the value of that expression of the current values of the others.",
 ["inputs", "histories"], "generated option files, command lines, parameter lines and arithmetic expressions", "tests read single values",
 ["src/OptionsParser.cpp", "AmpGen/NamedParameter.h", "src/MinuitParameterSet.cpp", "src/ExpressionParser.cpp", "src/MinuitExpression.cpp"], [("options table", "src/OptionsParser.cpp"), ("parameters from options", "src/MinuitParameterSet.cpp"), ("expression grammar", "src/ExpressionParser.cpp")], EXPL, "exploration", EXN + " A comment sign must follow a blank; quotes are set off by blanks; functions are written with brackets.")
prop("P26", "A parameter set is a consistent record of its parameters",
 "After any sequence of additions, removals, renamings, look-ups and value changes, a parameter set holds exactly the parameters added and not removed, in order, each under its own name and once, and looking one up by name or position finds it. Changing a value is seen through every look-up, resetting returns the initial values, and invalid operations (a second parameter of the same name, an unknown name) are refused without disturbing the others.",
 ["histories"], "generated sequences of operations", "tests never modify a parameter set",
 ["src/MinuitParameterSet.cpp", "src/MinuitParameter.cpp"], [("the set and its name index", "src/MinuitParameterSet.cpp")], EXPL, "exploration", EXN)
prop("P27", "Text helpers honour their contracts on every string",
 "Splitting, trimming, replacing, bracket matching, wildcard matching, edit distance, number and vector parsing do what they document on every string: pieces rejoin to the original, separators inside brackets do not split, replacement replaces every occurrence and terminates, a wildcard matches any run of characters, numbers round-trip and malformed numbers are reported.",
 ["inputs"], "generated strings over alphabets rich in separators, brackets and wildcards; all short strings", "tests try a few strings",
 ["src/Utilities.cpp", "AmpGen/Utilities.h"], [("string utilities", "src/Utilities.cpp, AmpGen/Utilities.h")], EXPL, "exploration", EXN + " Unbalanced brackets and negative text for unsigned numbers are outside the property.")
prop("P30", "Splines are natural cubic splines through their knots",
 "A spline lineshape takes the value of its parameters at equally spaced knots, is between them the natural cubic spline (twice continuously differentiable, zero curvature at both ends), and keeps the last knot's value outside its range. The curvatures follow the current knot values whenever these change. The lineshapes built on splines - amplitude and phase, real and imaginary part, inelasticity, running width, form factor - are their documented functions of the splines.",
 ["inputs", "configurations"], "all knot values and positions; 2 to 40 knots", "no unit test evaluates a spline",
 ["src/Spline.cpp", "src/Lineshapes/SplineShapes.cpp", "src/Array.cpp"], [("piecewise polynomial and curvatures", "src/Spline.cpp"), ("spline lineshapes", "src/Lineshapes/SplineShapes.cpp")], UFT, "proof", UFN + " The curvatures are computed by a numerical library: executed for every unit vector of knot values (the map is linear) up to 40 knots and compared, bounded. Compiled splines are run at points, bounded.")
prop("P22", "Vectorised arithmetic is scalar arithmetic in every lane",
 "Every operation on vectorised real and complex numbers - arithmetic, comparison, selection, bit operations, elementary functions, gather and scatter, and the complex functions built from them - gives in each lane exactly what the scalar operation gives for that lane's operands, and touches no other lane.",
 ["inputs"], "all lane values (AVX2, double precision)", "tests try a few values of a few functions",
 ["AmpGen/simd/avx2d_types.h", "AmpGen/simd/utils.h", "AmpGen/Complex.h"], [("vector types", "AmpGen/simd/avx2d_types.h"), ("complex numbers over scalars and vectors", "AmpGen/Complex.h")], "symbolic execution of the LLVM IR compiled from the real headers against a lane-wise specification (SMT over uninterpreted functions and an ordered field)", "proof", "Functions are instantiated from the real headers by clang on every run. Rounding is treated as exact; NaN and infinities are not considered; the vector mathematics library (libmvec) is trusted to be lane-wise. Only the instruction set the project selects here (AVX2, double) is covered.")
prop("P23", "Events and event types keep every momentum in its slot",
 "An event type gives every momentum component of every particle (and the decay time and extra fields) its own slot in the event, and its masses, spin dimensions, conjugate, counts of identical particles and limits of invariant masses are those of its particles. The invariant mass of any set of particles in an event is that of their summed momenta; exchanging, reordering or symmetrising particles moves whole four-momenta, symmetrising only among identical particles and with every arrangement equally likely. Ordering by particle numbers puts every particle in a slot of its kind, for the decay or its conjugate, or rejects the event and leaves it alone.",
 ["inputs", "histories"], "all momenta (up to 6 particles); generated event types and orders", "the tests use one event type with distinct particles",
 ["src/Event.cpp", "AmpGen/Event.h", "src/EventType.cpp", "AmpGen/EventType.h"], [("event storage", "src/Event.cpp"), ("event layout", "src/EventType.cpp")],
 "src/Event.cpp compiled over a symbolic scalar: every result proved for all momenta in a prime field; event types executed on generated inputs against an independent specification", "proof", "EventType is decided by execution on 13 event types (bounded); Event by proof for 2-6 particles.")
prop("P24", "Numerical integration, Pade approximants and sums are exact as specified",
 "The cubature rule used for multi-dimensional integrals integrates every polynomial up to degree seven exactly over every box, its error estimate vanishes up to degree five, scalar and vectorised forms agree, and the adaptive scheme always works on a partition of the box; one-dimensional integrals are those of the given function over the given limits, also as a principal value or over the real line. A Pade approximant takes the function's values at its 2N+1 sample points and evaluates as the quotient of its two polynomials. Compensated sums, by whichever operator they are accumulated, equal the sum of their terms to second order in the rounding error, and the lane utilities (gather, alignment, sums, stores) act element by element.",
 ["inputs"], "all integrands and boxes (rule: dimensions 2-7), all sample values; sampled paths of the adaptive scheme", "no test uses these helpers; a wrong weight or a lost region changes results slightly",
 ["AmpGen/NumericalIntegration.h", "AmpGen/simd/integrate_fp.h", "AmpGen/Pade.h", "src/Pade.cpp", "AmpGen/KahanSum.h", "AmpGen/simd/utils.h"], [("cubature rule", "AmpGen/simd/integrate_fp.h"), ("adaptive division", "AmpGen/NumericalIntegration.h"), ("Pade", "src/Pade.cpp"), ("compensated sums", "AmpGen/KahanSum.h")],
 "the real templates are compiled over a symbolic scalar; the term they return (a linear functional of an arbitrary integrand) is proved against moments of the box, interpolation identities are decided in a prime field; the same functions are executed as built", "proof", "GSL quadrature and LU decomposition enter by their contracts; vector lanes by property P22. Paths of the adaptive scheme are those taken by four integrands per dimension. Accuracy of compensated sums is bounded (executed).")
prop("P36", "Event lists keep every event, and the vectorised list equals the scalar one",
 "After any sequence of additions, filters, erasures and transformations an event list holds exactly the expected events, in order, with their values, weights and generated densities; writing a list to a tree and reading it back, from one or several files, with an entry list, chosen branches, units or particle numbers, gives the same events. The vectorised list holds the same events through every access, and its padding carries no weight. A projection is the weighted sum over the selected events in each bin.",
 ["inputs", "histories"], "lists of 1 to 17 (65) events of several event types, time-dependent ones included, all operations", "tests never build an event list",
 ["src/EventList.cpp", "src/EventListSIMD.cpp", "AmpGen/Store.h", "AmpGen/simd/iterator.h", "src/TreeReader.cpp", "src/Projection.cpp"], [("scalar list", "src/EventList.cpp"), ("vectorised list", "src/EventListSIMD.cpp"), ("blocks of fields", "AmpGen/Store.h")], EXPL, "exploration", EXN + " ROOT is replaced by the functional stand-in in rootmini/. List sizes are enumerated; contents are labels, which the code only moves.")
prop("P06", "Densities of amplitude sums are normalised, on every path and after any history",
 "The density of a coherent, incoherent or polarised sum is its weight times the squared amplitude built from the current parameters, divided by its mean over the integration sample; every accessor (event, block, cached, uncached, list evaluator, components, pair integrals, fit fractions) agrees with it after any history of changed parameters, weights, event lists and samples. Each sum uses its own definition: |sum g A|^2, sum |g A|^2, or the trace with the density matrix of the mother and the final-state polarisation fraction. The likelihood is minus twice the weighted sum of log densities, for both kinds of event list. Fit fractions are the integrals of the selected amplitudes over that of all, with linearly propagated uncertainties; the source written for stand-alone use computes the density over the given normalisation.",
 ["inputs", "histories"], "1 to 9 amplitudes, chained and polar couplings, random histories of parameter, weight, list and sample changes", "tests never build a sum: the files need ROOT",
 ["src/CoherentSum.cpp", "src/IncoherentSum.cpp", "src/PolarisedSum.cpp", "AmpGen/SumPDF.h", "src/Integrator.cpp", "AmpGen/Store.h", "src/MatrixElement.cpp", "AmpGen/FitFraction.h"], [("coherent sum", "src/CoherentSum.cpp"), ("incoherent sum", "src/IncoherentSum.cpp"), ("polarised sum", "src/PolarisedSum.cpp"), ("integrals", "src/Integrator.cpp"), ("likelihood", "AmpGen/SumPDF.h")], EXPL, "exploration", EXN + " ROOT is replaced by the functional stand-in in rootmini/; compiled amplitudes enter by their contract (decided by P03) as functions with known values. The densities are polynomials in amplitudes and couplings divided by one integral, so a wrong term shows at a random point.")
prop("P34", "Work handed to the thread pool is executed exactly once, whatever the schedule",
 "Every task the thread pool accepts is run exactly once, by one worker and without further calls, and its future receives its result or its exception; n workers run up to n tasks at the same time and tasks may add tasks. Waiting for the pool or destroying it returns only after all accepted tasks have finished, may follow each other, and afterwards tasks are refused rather than dropped. With the pool switched off tasks run at once with the same results.",
 ["schedules", "histories"], "all interleavings within a bound on preemptions, 1 to 3 workers, 0 to 3 tasks, several clients", "tests cannot control the schedule",
 ["src/ThreadPool.cpp", "AmpGen/ThreadPool.h"], [("worker loop", "src/ThreadPool.cpp"), ("enqueue", "AmpGen/ThreadPool.h")],
 "bounded stand-in (no deductive verifier here reaches C++ threads): the real pool compiled over a controlled scheduler, its contract checked by ghost counters in every schedule", "exploration", "Bounded, not proved: at most 2 preemptions (3 thorough) and one spurious wake-up per schedule, 1-3 workers, up to 3 tasks (4 with two clients); sequentially consistent memory.")
prop("P35", "Generated events conserve momentum, sit on the mass shells and fill phase space",
 "Every event made by the phase space generators has its particles on their mass shells with positive energy and momenta adding up to the mother at rest, is distributed as the phase space of the decay once weighted by the inverse of the density it carries, and any number of events from a generator with a model follows that model by accept-reject. Tree generators draw every invariant with the density they state over the whole allowed range, choose chains with the stated probabilities and never accept against a bound that a weight can exceed. Boosts, rotations, helicity cosines, momentum transfers and angles between decay planes are the quantities they name, for every event.",
 ["inputs", "random numbers"], "all masses, all random numbers, up to seven particles; listed decay trees", "tests sample a few events and cannot see a biased distribution",
 ["src/PhaseSpace.cpp", "src/Kinematics.cpp", "AmpGen/DecayChainStack.h", "src/TreePhaseSpace.cpp", "src/DiscreteDistribution.cpp", "src/RecursivePhaseSpace.cpp", "AmpGen/Generator.h"], [("N-body generation", "src/PhaseSpace.cpp"), ("sequential decay generation", "AmpGen/DecayChainStack.h"), ("kinematic functions", "src/Kinematics.cpp")],
 "the real functions compiled over a symbolic scalar, random numbers and masses as symbols; conservation, mass shells, densities and weights decided as identities in F_p^2; executed events against an independent generator as a bounded stand-in for Generator and RecursivePhaseSpace", "proof", "The identities are for all masses and random numbers along the branches taken, for each number of particles and decay tree listed. Generator and RecursivePhaseSpace: bounded (executed events).")
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=None)); NA.append((id, reason))
na("P33", "Generated samples follow the model and fits recover their parameters",
 "Events generated from a model are distributed as its squared amplitude, integrals by simulation converge to the exact normalisation, and the fit of a sample is unbiased with correct uncertainties.",
 ["inputs"], "all models", "statistical statements",
 ["AmpGen/Generator.h", "src/CoherentSum.cpp", "src/Minimiser.cpp"], [("accept-reject generation", "AmpGen/Generator.h")],
 "depends on ROOT (random numbers, Minuit, trees), which is not installed: the code does not compile here, and the claims are statistical, outside contracts")
