seed("newmark-gamma-predictor", "P13", "a Newmark scheme with gamma other than 1/2 and a nonzero previous acceleration", "the velocity predictor weighs the previous acceleration with gamma instead of 1-gamma",
     [("src/hyperbolic/Newmark.hpp", "aV_prev(aOrdinal) + (1.0-tGamma)*dt*aA_prev(aOrdinal)", "aV_prev(aOrdinal) + tGamma*dt*aA_prev(aOrdinal)")],
     ["PlatoStaticsTypes.hpp", "hyperbolic/Newmark.hpp"], '''    auto one = [](double x) { Plato::ScalarVector v("v", 1); v(0) = x; return v; };
    for(double g : {0.5, 0.8}) { const double b = 0.3, dt = 0.1; Teuchos::ParameterList p; p.set<double>("Newmark Gamma", g); p.set<double>("Newmark Beta", b); Plato::NewmarkIntegrator<int> n(p);
        const double u0 = 1, v0 = 2, a0 = -3, a1 = 4, u1 = u0 + dt * v0 + dt * dt * ((0.5 - b) * a0 + b * a1), v1 = v0 + dt * ((1 - g) * a0 + g * a1);
        WANT(n.v_value(one(u1), one(u0), one(v1), one(v0), one(a1), one(a0), dt)(0), 0); WANT(n.a_value(one(u1), one(u0), one(v1), one(v0), one(a1), one(a0), dt)(0), 0); }
''')
seed("newton-reference-norm-only-decreases", "P23", "a Newton iteration whose residual norm grows in one step and is compared in the next", "the relative error compares with the smallest norm so far instead of the previous one",
     [("src/NewtonRaphsonUtilities.hpp", """        aOutputData.mNormMeasure = std::abs(aOutputData.mReferenceNorm - aOutputData.mCurrentNorm) / std::abs(aOutputData.mCurrentNorm);
        aOutputData.mReferenceNorm = aOutputData.mCurrentNorm;""", """        aOutputData.mNormMeasure = std::abs(aOutputData.mReferenceNorm - aOutputData.mCurrentNorm) / std::abs(aOutputData.mCurrentNorm);
        aOutputData.mReferenceNorm = std::min(aOutputData.mReferenceNorm, aOutputData.mCurrentNorm);""")],
     ["BLAS1.hpp", "NewtonRaphsonUtilities.hpp"], '''    Plato::NewtonRaphsonOutputData d; double prev = 0; int it = 0;
    for(double n : {8.0, 4.0, 10.0, 5.0}) { d.mCurrentIteration = it; d.mCurrentNorm = n; Plato::compute_relative_residual_norm_error(d); if(it) WANT(d.mNormMeasure, std::fabs(prev - n) / n); prev = n; it++; }
''')
seed("bingo-blank-line", "P03", "a Bingo file with an empty line between its equations", "empty lines are not counted, so that the index selects another equation",
     [("src/CustomMaterial.cpp", "            --equationIndex;", "            if( !line.empty() ) --equationIndex;")],
     ["CustomMaterial.hpp"], '''    struct C : Plato::CustomMaterial { C(const Teuchos::ParameterList& p) : Plato::CustomMaterial(p) {} using Plato::CustomMaterial::GetCustomExpressionValue; };
    auto value = [](const char* rows, int k) { std::ofstream("bingo.txt") << "FITNESS, COMPLEXITY, EQUATION\\n" << rows; Teuchos::ParameterList p; p.set<std::string>("BingoFile", "bingo.txt"); return C(p).GetCustomExpressionValue(p, k, "none"); };
    WANT(value("0,1,3+4\\n0,1,5*5\\n0,1,1\\n", 1), 25); WANT(value("0,1,3+4\\n\\n0,1,5*5\\n0,1,1\\n", 2), 25); WANT(value("0,1,3+4\\n", 0), 7);
''', ["src/CustomMaterial.cpp", "src/ExpressionEvaluator.cpp"])
seed("simp-continuation-stops-short", "P11", "continuation whose last increment would pass the upper bound", "the exponent stays below its upper bound for ever",
     [("src/Simp.hpp", "tSuggestedPenalty >= mUpperBoundOnPenaltyParam ? mUpperBoundOnPenaltyParam : tSuggestedPenalty", "tSuggestedPenalty > mUpperBoundOnPenaltyParam ? tPreviousPenalty : tSuggestedPenalty")],
     ["Simp.hpp"], '''    Teuchos::ParameterList p; p.set<double>("Exponent", 2.5); p.set<double>("Minimum Value", 0.0); p.set<double>("Penalty Exponent Upper Bound", 3.0); p.set<double>("Additive Continuation", 0.2); Plato::MSIMP s(p);
    WANT(s(0.5), std::pow(0.5, 2.5)); s.update(); WANT(s(0.5), std::pow(0.5, 2.7)); for(int i = 0; i < 4; i++) s.update(); WANT(s(0.5), 0.125);
''')
seed("eigenvalues-small-shear", "P16", "a 3-D tensor whose shear components are small in absolute terms, such as a strain of 1e-8", "the shear of small strains is taken as zero, so the principal values are wrong",
     [("src/Eigenvalues.hpp", "fabs(tTensor[p][q]) > 1.0e-15;", "fabs(tTensor[p][q]) > 1.0e-7;")],
     ["Eigenvalues.hpp"], '''    for(double s : {1.0, 1e-8}) { Plato::ScalarMultiVector t("t", 1, 6), e("e", 1, 3); t(0, 5) = 2 * s; Plato::Eigenvalues<3> f; f(0, t, e, true); double hi = -1e9, lo = 1e9; for(int i = 0; i < 3; i++) { hi = std::fmax(hi, e(0, i) / s); lo = std::fmin(lo, e(0, i) / s); } TRUE(std::fabs(hi - 1) < 1e-5); TRUE(std::fabs(lo + 1) < 1e-5); }
''')
seed("rocket-times-of-two-solves", "P22", "solving the same rocket model twice", "the time history of the second solve is appended to the first one, while thrust and pressure start anew",
     [("src/Plato_AlgebraicRocketModel.hpp", """        mTimes.clear();
        assert(mTimes.empty() == true);
        mThrustProfile.clear();""", """        mThrustProfile.clear();""")],
     ["Plato_AlgebraicRocketModel.hpp", "Plato_Cylinder.hpp", "Plato_RocketMocks.hpp"], '''    auto g = std::make_shared<Plato::Cylinder>(); auto q = Plato::RocketMocks::set_constant_burn_rate_problem(5, 0.65, 0.075, 0.01); g->initialize(q); Plato::AlgebraicRocketInputs in; in.mTotalBurnTime = 0.5; Plato::AlgebraicRocketModel m(in, g); m.disableOutput();
    m.solve(); TRUE(m.getTimeProfile().size() == m.getThrustProfile().size()); m.solve(); TRUE(m.getTimeProfile().size() == m.getThrustProfile().size());
''')
