// P21: which variable each evaluation differentiates, and how many derivatives it carries, for every physics and dimension.
#define VP_NO_MAIN
#include "ad.hpp"
#include "SimplexFadTypes.hpp"
#include "elliptic/EllipticSimplexFadTypes.hpp"
#include "parabolic/ParabolicSimplexFadTypes.hpp"
#include "hyperbolic/HyperbolicSimplexFadTypes.hpp"
#include "geometric/GeometricSimplexFadTypes.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexThermal.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexElectromechanics.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexStructuralDynamics.hpp"
#include "SimplexProjection.hpp"
namespace {
template<typename T> struct Len { enum { n = -2 }; };
template<> struct Len<double> { enum { n = -1 }; };
template<typename S> struct Len<Sacado::Fad::Exp::GeneralFad<S>> { enum { n = Sacado::StaticSize<Sacado::Fad::Exp::GeneralFad<S>>::value }; };
// expected number of derivatives of each scalar: -1 is a plain number
#define IS(E, T, want) vp::eqi(Len<typename E::T##ScalarType>::n, (want), "number of derivatives of " #T "ScalarType of " #E)
#define BASE(E) vp::eqi(E::NumNodesPerCell, nn, #E " nodes"); vp::eqi(E::NumControls, nc, #E " controls"); vp::eqi(E::SpatialDim, D, #E " dimensions"); vp::calls()

template<int D, typename P> void one(const char* name, int dofs, int local, int nodal, int nc = 1)
{
    vp::section(vp::fmt("evaluation types %s %dd", name, D), 1, [=](vp::u64)
    {
        vp::input(vp::fmt("%s, %d dimensions", name, D)); const int nn = D + 1, S = dofs * nn, L = local, N = nodal * nn, Z = nn, X = D * nn, o = -1;
        typedef Plato::SimplexFadTypes<P> F; typedef Plato::Geometric::SimplexFadTypes<P> GF;
        vp::eqi(Len<typename F::StateFad>::n, S, "StateFad"); vp::eqi(Len<typename F::LocalStateFad>::n, L, "LocalStateFad"); vp::eqi(Len<typename F::ControlFad>::n, Z, "ControlFad"); vp::eqi(Len<typename F::ConfigFad>::n, X, "ConfigFad"); vp::eqi(Len<typename F::NodeStateFad>::n, N, "NodeStateFad");
        vp::eqi(Len<typename GF::ControlFad>::n, Z, "geometric ControlFad"); vp::eqi(Len<typename GF::ConfigFad>::n, X, "geometric ConfigFad");
        { typedef Plato::Evaluation<P> E;
          typedef typename E::Residual R; typedef typename E::Jacobian J; typedef typename E::JacobianN JN; typedef typename E::JacobianP JP; typedef typename E::LocalJacobian LJ; typedef typename E::LocalJacobianP LJP; typedef typename E::GradientZ GZ; typedef typename E::GradientX GX;
          #define INC(T, s, ps, l, pl, n, z, x, r) BASE(T); IS(T, State, s); IS(T, PrevState, ps); IS(T, LocalState, l); IS(T, PrevLocalState, pl); IS(T, NodeState, n); IS(T, Control, z); IS(T, Config, x); IS(T, Result, r)
          INC(R, o, o, o, o, o, o, o, o); INC(J, S, o, o, o, o, o, o, S); INC(JP, o, S, o, o, o, o, o, S); INC(JN, o, o, o, o, N, o, o, N); INC(LJ, o, o, L, o, o, o, o, L); INC(LJP, o, o, o, L, o, o, o, L); INC(GZ, o, o, o, o, o, Z, o, Z); INC(GX, o, o, o, o, o, o, X, X); }
        { typedef Plato::Elliptic::Evaluation<P> E; typedef typename E::Residual R; typedef typename E::Jacobian J; typedef typename E::GradientZ GZ; typedef typename E::GradientX GX;
          #define ELL(T, s, z, x, r) BASE(T); IS(T, State, s); IS(T, Control, z); IS(T, Config, x); IS(T, Result, r)
          ELL(R, o, o, o, o); ELL(J, S, o, o, S); ELL(GZ, o, Z, o, Z); ELL(GX, o, o, X, X); }
        { typedef Plato::Parabolic::Evaluation<P> E; typedef typename E::Residual R; typedef typename E::GradientU U; typedef typename E::GradientV W; typedef typename E::GradientZ GZ; typedef typename E::GradientX GX;
          #define PAR(T, s, v, z, x, r) BASE(T); IS(T, State, s); IS(T, StateDot, v); IS(T, Control, z); IS(T, Config, x); IS(T, Result, r)
          PAR(R, o, o, o, o, o); PAR(U, S, o, o, o, S); PAR(W, o, S, o, o, S); PAR(GZ, o, o, Z, o, Z); PAR(GX, o, o, o, X, X); }
        { typedef Plato::Hyperbolic::Evaluation<P> E; typedef typename E::Residual R; typedef typename E::GradientU U; typedef typename E::GradientV W; typedef typename E::GradientA A; typedef typename E::GradientZ GZ; typedef typename E::GradientX GX;
          #define HYP(T, s, v, a, z, x, r) BASE(T); IS(T, State, s); IS(T, StateDot, v); IS(T, StateDotDot, a); IS(T, Control, z); IS(T, Config, x); IS(T, Result, r)
          HYP(R, o, o, o, o, o, o); HYP(U, S, o, o, o, o, S); HYP(W, o, S, o, o, o, S); HYP(A, o, o, S, o, o, S); HYP(GZ, o, o, o, Z, o, Z); HYP(GX, o, o, o, o, X, X); }
        { typedef Plato::Geometric::Evaluation<P> E; typedef typename E::Residual R; typedef typename E::GradientZ GZ; typedef typename E::GradientX GX;
          #define GEO(T, z, x, r) BASE(T); IS(T, Control, z); IS(T, Config, x); IS(T, Result, r)
          GEO(R, o, o, o); GEO(GZ, Z, o, Z); GEO(GX, o, X, X); }
        // the result of mixing scalars: the differentiated one wherever it stands, a plain number when there is none
        #define MIX(want, ...) vp::eqi(Len<Plato::fad_type_t<P, __VA_ARGS__>>::n, want, "fad_type_t<" #__VA_ARGS__ ">")
        typedef typename F::StateFad Sf; typedef typename F::ControlFad Zf; typedef typename F::ConfigFad Xf; typedef typename F::LocalStateFad Lf; typedef typename F::NodeStateFad Nf;
        MIX(o, double); MIX(o, double, double); MIX(o, double, double, double); MIX(o, double, double, double, double);
        #define AT(f, n) MIX(n, f); MIX(n, f, double); MIX(n, double, f); MIX(n, f, double, double); MIX(n, double, f, double); MIX(n, double, double, f); MIX(n, f, double, double, double); MIX(n, double, f, double, double); MIX(n, double, double, f, double); MIX(n, double, double, double, f)
        AT(Sf, S); AT(Zf, Z); AT(Xf, X); AT(Lf, L); AT(Nf, N);
        #define FAD(f) vp::check(Plato::is_fad<F, f>::value, "is_fad " #f)
        FAD(Sf); FAD(Zf); FAD(Xf); FAD(Lf); FAD(Nf); vp::check(!Plato::is_fad<F, double>::value, "is_fad double");
    });
}
template<int D> void dim()
{
    one<D, Plato::SimplexMechanics<D>>("mechanics", D, 0, 0); one<D, Plato::SimplexThermal<D>>("thermal", 1, 0, 0); one<D, Plato::SimplexThermomechanics<D>>("thermomechanics", D + 1, 0, 0);
    one<D, Plato::SimplexElectromechanics<D>>("electromechanics", D + 1, 0, 0); one<D, Plato::SimplexStabilizedMechanics<D>>("stabilized mechanics", D + 1, 0, D); one<D, Plato::SimplexStabilizedThermomechanics<D>>("stabilized thermomechanics", D + 2, 0, D);
    one<D, Plato::SimplexStructuralDynamics<D>>("structural dynamics", 2 * D, 0, 0);
    one<D, Plato::SimplexProjection<D, D + 1, D, 1>>("projection", D, 0, 1);
    const int t = D == 3 ? 14 : D == 2 ? 10 : 4;
    one<D, Plato::SimplexPlasticity<D>>("plasticity", D + 1, t, D); one<D, Plato::SimplexThermoPlasticity<D>>("thermoplasticity", D + 2, t, D);
    one<D, Plato::SimplexMechanics<D, 3>>("mechanics, 3 controls", D, 0, 0, 3); one<D, Plato::SimplexElectromechanics<D, 2>>("electromechanics, 2 controls", D + 1, 0, 0, 2); one<D, Plato::SimplexThermomechanics<D, 2>>("thermomechanics, 2 controls", D + 1, 0, 0, 2);
}
}
void explore_types() { dim<1>(); dim<2>(); dim<3>(); }
