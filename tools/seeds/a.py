EXPR = '''    auto ev = [](const char* s) { Teuchos::ParameterList p; p.set<double>("x", -3.0); Plato::ExpressionEvaluator e(p); e.parse_expression(s); if(e.validate_expression() != 0) throw std::runtime_error("invalid"); return e.evaluate_expression(); };
    auto rejected = [&](const char* s) { try { ev(s); } catch(const std::exception&) { return true; } return false; };
    (void)rejected;
'''
E1 = ["ExpressionEvaluator.hpp"]; S1 = ["src/ExpressionEvaluator.cpp"]; F1 = "src/ExpressionEvaluator.cpp"
seed("expr-minus-after-bars", "P01", "a binary minus directly after a closing absolute-value bar that follows a factorial or bar", "|x|-2 is no longer a subtraction",
     [(F1, "         || previous.ID == CLOSE_PARENTHESIS\n         || previous.ID == CLOSE_ABS_BAR )", "         || previous.ID == CLOSE_PARENTHESIS )")],
     E1, EXPR + '    WANT(ev("|x|-2"), 1); WANT(ev("4-|x|"), 1); WANT(ev("(x)-2"), -5);\n', S1)
seed("expr-exponent-overflow", "P02", "a number of exactly 126 characters followed by an exponent", "the length limit is not checked when the exponent is stored, so the number buffer is overrun",
     [(F1, """          if( i+1 == sizeof(number) )
          {
            number[i] = '\\0';
            errorMsg << "Invalid expression: "
                     << "The number '" << number << "' exceeds the "
                     << sizeof(number) << " digit limit.";
            break;
          }

          c = *expPtr;

          // Check the next character to see if it is a digit or a plus""", """          c = *expPtr;

          // Check the next character to see if it is a digit or a plus""")],
     E1, EXPR + '    std::string s(126, \'1\'); TRUE(rejected((s + "e" + std::string(400, \'0\')).c_str())); WANT(ev("1e2"), 100);\n', S1)
seed("expr-pow-one-argument", "P02", "a two-argument function given one argument", "pow(2) is accepted as 2",
     [(F1, "  while( twoParamFunctionIDs.size() )\n", "  while( twoParamFunctionIDs.size() > 1 )\n")],
     E1, EXPR + '    TRUE(rejected("pow(2)")); WANT(ev("pow(2,3)"), 8);\n', S1)
seed("blas1-max-negative", "P09", "a vector all of whose entries are negative", "the maximum of all-negative vectors is reported as 0",
     [("src/BLAS1.hpp", "        tMaxReducer.join(aValue, aInput[aIndex]);\n    }, tMaxReducer);", "        tMaxReducer.join(aValue, aInput[aIndex] > 0.0 ? aInput[aIndex] : static_cast<ScalarT>(0.0));\n    }, tMaxReducer);")],
     ["BLAS1.hpp"], '    Plato::ScalarVector v("v", 2); v(0) = -3; v(1) = -2; double m = 7; Plato::blas1::max(v, m); WANT(m, -2); v(1) = 5; Plato::blas1::max(v, m); WANT(m, 5);\n')
CRS = '''    typedef Plato::CrsMatrixType C;
    auto mk = [](std::vector<int> r, std::vector<int> c, std::vector<double> e, int m, int n, int br, int bc) { C::RowMapVector R("r", r.size()); C::OrdinalVector K("c", c.size()); C::ScalarVector E("e", e.size()); for(size_t i = 0; i < r.size(); i++) R(i) = r[i]; for(size_t i = 0; i < c.size(); i++) K(i) = c[i]; for(size_t i = 0; i < e.size(); i++) E(i) = e[i]; return Teuchos::rcp(new C(R, K, E, m, n, br, bc)); };
'''
seed("sort-drops-value-swap", "P06", "a product whose unsorted columns need more than adjacent exchanges (values and columns permuted differently)", "entries of a row end up under the wrong column after a block product",
     [("src/PlatoMathHelpers.hpp", "                if( aMatrixColMap[tColMapEntryIndex_I] < aMatrixColMap[tColMapEntryIndex_J] )", "                if( aMatrixColMap[tColMapEntryIndex_I] < aMatrixColMap[tColMapEntryIndex_J] && tColMapEntryIndex_I - tColMapEntryIndex_J < 5 )")],
     ["PlatoMathHelpers.hpp"], CRS + '''    Plato::ScalarVectorT<Plato::OrdinalType> R("r", 2), K("k", 7); Plato::ScalarVector V("v", 7); R(1) = 7; for(int i = 0; i < 7; i++) { K(i) = 6 - i; V(i) = 10 * (6 - i); }
    Plato::sortColumnEntries(R, K, V); for(int i = 0; i < 7; i++) { WANT(K(i), i); WANT(V(i), 10 * i); }
''')
seed("dirichlet-scale-twice", "P08", "a prescribed value together with a scale other than 0 or 1", "with a scale, the prescribed value is imposed with the scale but the coupled equations are corrected without it",
     [("src/ApplyConstraints.hpp", "    Scalar value = aScale*bcValues[bcOrdinal];\n    OrdinalType rowStart", "    Scalar value = bcValues[bcOrdinal];\n    OrdinalType rowStart")],
     ["ApplyConstraints.hpp"], CRS + '''    auto A = mk({0, 2, 4}, {0, 1, 0, 1}, {4, 1, 1, 3}, 2, 2, 1, 1); Plato::ScalarVector b("b", 2), v("v", 1); b(0) = 5; b(1) = 7; Plato::LocalOrdinalVector d("d", 1); d(0) = 0; v(0) = 2;
    Plato::applyConstraints<1>(A, b, d, v, 0.5); WANT(b(0), 1); WANT(b(1), 6); WANT(A->entries()(1), 0);
''')
seed("blas2-transpose-beta", "P10", "a transposed product of a non-square matrix with a nonzero beta", "the old y is scaled only in as many entries as the matrix has rows",
     [("src/BLAS2.hpp", "            for(Plato::OrdinalType tColIndex = 0; tColIndex < tNumCols; tColIndex++)\n            {\n                aYvec(aCellOrdinal, tColIndex) = aBeta", "            for(Plato::OrdinalType tColIndex = 0; tColIndex < tNumCols && tColIndex < tNumRows; tColIndex++)\n            {\n                aYvec(aCellOrdinal, tColIndex) = aBeta")],
     ["BLAS2.hpp"], '''    Plato::ScalarArray3D A("A", 1, 1, 2); A(0, 0, 0) = 2; A(0, 0, 1) = 3; Plato::ScalarMultiVector x("x", 1, 1), y("y", 1, 2); x(0, 0) = 5; y(0, 0) = 1; y(0, 1) = 1; double al = 1, be = 0.5;
    Plato::blas2::matrix_times_vector("T", al, A, x, be, y); WANT(y(0, 0), 10.5); WANT(y(0, 1), 15.5);
''')
seed("rowsum-wide-blocks", "P07", "a mass matrix whose blocks have more columns than rows or the reverse", "row sums of rectangular blocks skip entries",
     [("src/PlatoMathFunctors.hpp", "                OrdinalType tMatrixOrdinal = tEntryOrdinalOffset + mNumDofsPerNode_J * tIdim;\n                for(OrdinalType tJdim", "                OrdinalType tMatrixOrdinal = tEntryOrdinalOffset + mNumDofsPerNode_I * tIdim;\n                for(OrdinalType tJdim")],
     ["PlatoMathFunctors.hpp"], CRS + '''    auto A = mk({0, 2}, {0, 1}, {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}, 2, 6, 2, 3); Plato::RowSum f(A); Plato::ScalarVector s("s", 2); f(0, s); WANT(s(0), 7 + 64 + 128 + 256); WANT(s(1), 56 + 512 + 1024 + 2048);
''')
