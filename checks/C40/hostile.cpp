// C40: direct calls with unusual but well-typed arguments (negative, zero and huge integers; empty, one-element and
// mismatched containers; non-finite and denormal numbers). Only memory errors, undefined behaviour, leaks and
// exceptions that are not std::exception count, so nothing is judged about the values.
#include "mon.h"
#include "MMLBase.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "base/Matrix/Matrix3D.h"
#include "base/Polynom.h"
#include "base/ChebyshevPolynom.h"
#include "base/DiracDeltaFunction.h"
#include "base/StandardFunctions.h"
#include "base/DAESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "base/Intervals.h"
#include "base/Random.h"
#include "base/BaseUtils.h"
#include "base/Tensor.h"
#include "base/Graph.h"
#include "base/InterpolatedFunction.h"
#include "core/MatrixUtils.h"
#include "core/LinAlgEqSolvers.h"
#include "core/Integration.h"
#include "core/Derivation.h"
#include "core/OrthogonalBasis/LegendreBasis.h"
#include "core/OrthogonalBasis/HermiteBasis.h"
#include "core/OrthogonalBasis/LaguerreBasis.h"
#include "core/OrthogonalBasis/ChebyshevBasis.h"
#include "core/Curves.h"
#include "core/NumericValidation.h"
#include "algorithms/Fourier.h"
#include "algorithms/FourierRealFFT.h"
#include "algorithms/FourierWindowing.h"
#include "algorithms/ChebyshevApproximation.h"
#include "algorithms/CurveFitting.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/Distributions.h"
#include "algorithms/Statistics/StatisticsConfidence.h"
#include "algorithms/Statistics/StatisticsHypothesis.h"
#include "algorithms/Statistics/StatisticsRank.h"
#include "algorithms/RootFinding.h"
#include "algorithms/GraphAlgorithms.h"
#include "algorithms/EigenSystemSolvers.h"
#include "algorithms/MatrixAlg.h"
#include "algorithms/Optimization.h"
#include "algorithms/ODESolvers.h"
#include "algorithms/ComputationalGeometry.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
using namespace MML; using namespace MML::Fourier; using namespace MML::CompGeometry;
using mon::Case;

// `calls` counts what was really reached: returned or refused, per call site
#define T(...) do { try { (void)(__VA_ARGS__); } catch (const std::exception&) { refused++; } calls++; } while (0)
static long calls, refused;
struct Odd {
	Case& c;
	int in() { return c.r.pick(std::vector<int>{INT_MIN, INT_MIN + 1, -1000000, -46341, -3, -2, -1, 0, 1, 2, 3, 4, 7, 20, 21, 33, 46340, 46341, 65536, 1000000, INT_MAX - 1, INT_MAX}); }
	int sz() { return c.r.pick(std::vector<int>{INT_MIN, INT_MIN + 1, -1000, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 17, 64, 100, 1000}); }   // sizes: never so large that the allocation itself is the story
	int dim() { return c.r.pick(std::vector<int>{INT_MIN, -2, -1, 0, 1, 2, 3, 5, 8}); }
	int few() { return c.r.pick(std::vector<int>{-5, -1, 0, 1, 2, 3, 10, 50}); }  // iteration counts and orders whose cost grows with the value
	double x() { static const double v[] = {0.0, -0.0, 1, -1, 0.5, 2, 1e-16, 2.2e-16, 4.9e-324, -4.9e-324, 2.2e-308, 1.79e308, -1.79e308, 1e300, -1e300, 1e154, 1e-160, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 9.2233720368547758e18, -9.3e18, 1.8446744073709552e19, 1e10, 1e-10, 1e16, 3.5e38, 3.14159265358979, 7, 100, __builtin_inf(), -__builtin_inf(), __builtin_nan("")}; return c.r.coin(0.3) ? c.r.raw01() * 10 - 5 : v[c.r.next() % (sizeof v / sizeof *v)]; }
	int len() { return c.r.pick(std::vector<int>{0, 0, 1, 1, 2, 3, 4, 5, 8, 12}); }
	Vector<Real> v(int n) { bool sane = c.r.coin(0.3); Vector<Real> r(n); for (int i = 0; i < n; i++) r[i] = sane ? c.r.raw01() * 4 - 2 : x(); return r; }
	Vector<Real> v() { return v(len()); }
	Vector<Real> asc(int n) { Vector<Real> r(n); double a = c.r.coin(0.7) ? 0 : x(); for (int i = 0; i < n; i++) { r[i] = a; a += c.r.raw01() + 0.01; } return r; }
	Vector<Complex> vc(int n) { Vector<Complex> r(n); for (int i = 0; i < n; i++) r[i] = Complex(x(), x()); return r; }
	Matrix<Real> m(int r, int k) { bool sane = c.r.coin(0.5); Matrix<Real> a(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) a(i, j) = sane ? c.r.raw01() - 0.5 : x(); return a; }
	Matrix<Real> m() { int r = c.r.pick(std::vector<int>{0, 1, 2, 3, 4, 6}), k = c.r.coin(0.6) ? r : c.r.pick(std::vector<int>{0, 1, 2, 3, 5}); return m(r, k); }
	Matrix<Complex> mc() { int r = c.r.pick(std::vector<int>{0, 1, 2, 3}), k = c.r.coin(0.6) ? r : c.r.pick(std::vector<int>{0, 1, 2, 3}); Matrix<Complex> a(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) a(i, j) = Complex(x(), x()); return a; }
	std::vector<Real> sv(int n) { std::vector<Real> r(n); for (auto& e : r) e = x(); return r; }
};
static void start(Case& c) { calls = refused = 0; c.in("case", c.idx); }
static void finish(Case& c) { c.ev("direct_calls", calls); c.ev("direct_refused", refused); }

FAMILY(containers, 600) { start(c); Odd o{c};
	T(Vector<Real>(o.sz())); T(Vector<Real>(o.sz(), o.x())); T(Matrix<Real>(o.dim(), o.dim())); T(Matrix<Real>(o.dim(), o.dim(), o.x())); T(Matrix<Complex>(o.dim(), o.dim()));
	T(MatrixSym<Real>(o.dim())); T(Matrix3D<Real>(o.dim(), o.dim(), o.dim())); T(Matrix<Real>::Identity(o.dim())); T(Polynom<Real>::Monomial(o.sz()));
	auto v = o.v(); auto w = o.v(); T(v + w); T(v - w); T(v.at(o.in())); T(v.Resize(o.sz())); T(v.Resize(o.sz(), true)); T(v.NormL2()); T(Utils::ScalarProduct(v, w)); T(Utils::VectorsAngle(v, w)); T(Utils::VectorProjectionParallelTo(v, w)); T(Utils::OuterProduct(v, w));
	auto a = o.m(), b = o.m(); T(a + b); T(a - b); T(a * b); T(a * v); T(v * a); T(a.at(o.in(), o.in())); T(a.VectorFromRow(o.in())); T(a.VectorFromColumn(o.in())); T(a.diagonal()); T(a.inverse()); T(a.transpose()); T(a.trace()); T(a.Resize(o.dim(), o.dim())); T(a.Resize(o.dim(), o.dim(), true));
	T(Utils::Exp(b, o.few())); T(Utils::Sin(b, o.few())); T(Utils::Cos(b, o.few())); T(Utils::Sinh(b, o.few())); T(Utils::Cosh(b, o.few())); T(Utils::IsOrthogonal(b)); T(Utils::Commutator(b, o.m())); T(Utils::AntiCommutator(b, o.m())); { Matrix<Real> s, t; T(Utils::MatrixDecomposeToSymAntisym(b, s, t), 0); }
	auto mc = o.mc(); T(Utils::IsHermitian(mc)); T(Utils::IsUnitary(mc)); T(Utils::AddMat(mc, b)); T(Utils::MulMat(mc, b)); T(Utils::MulMat(b, mc)); T(Utils::MulMatVec(mc, v)); T(Utils::MulVecMat(v, mc)); T(Utils::AddVec(o.vc(o.len()), v));
	T(Utils::LeviCivita(o.in(), o.in(), o.in())); T(Utils::LeviCivita(o.in(), o.in(), o.in(), o.in())); T(Utils::KroneckerDelta(o.in(), o.in()));
	{ std::vector<Vector<Real>> rows(o.len()); for (auto& r : rows) r = o.v(); T(Utils::MatrixFromVectorsInRows(rows)); T(Utils::MatrixFromVectorsInColumns(rows)); }
	T(Utils::RowMatrixFromVector(v)); T(Utils::ColumnMatrixFromVector(v)); T(Utils::DiagonalMatrixFromVector(v));
	T(TridiagonalMatrix<Real>(o.dim(), o.v(), o.v(), o.v())); T(BandDiagonalMatrix(o.dim(), o.dim(), o.dim(), o.m()));
	finish(c); }

FAMILY(algebra, 500) { start(c); Odd o{c};
	auto a = o.m(); auto b = o.v(); auto bm = o.m();
	T(LUSolver<Real>(a).Solve(b)); T(LUSolver<Real>(a).det()); T(QRSolver<Real>(a).Solve(b)); T(QRSolver<Real>(a).LeastSquaresSolve(b)); T(CholeskySolver<Real>(a).Solve(b)); T(SVDecompositionSolver(a).Solve(b)); T(SVDecompositionSolver(a).Rank(o.x())); T(SVDecompositionSolver(a).Nullity()); T(GaussJordanSolver<Real>::SolveInPlace(a, bm), 0); T(LUSolverInPlace<Real>(a).Solve(b));
	auto s = o.m(); T(Utils::RankSVD(s, o.x())); T(Utils::Nullity(s, o.x())); T(Utils::ConditionNumber(s)); T(Utils::NullSpace(s, o.x())); T(Utils::ColumnSpace(s, o.x())); T(Utils::PseudoInverse(s, o.x())); T(Utils::ComputeFundamentalSubspaces(s, o.x())); { PolynomRealFunc cp; Real d; Matrix<Real> inv; T(Utils::FaddeevAlg(s, cp, d, inv), 0); }
	T(Utils::Det(s)); 
	T(MatrixAlg::IsPositiveDefinite(s));
	T(EigenSolver::Solve(s, o.x(), o.few())); { int n = c.r.pick(std::vector<int>{0, 1, 2, 3, 4}); MatrixSym<Real> y; try { y = MatrixSym<Real>(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) y(i, j) = o.x(); } catch (std::exception&) {} T(SymmMatEigenSolverJacobi::Solve(y, o.x(), o.few())); T(SymmMatEigenSolverQR::Solve(y, o.x(), o.few())); }
	Polynom<Real> p(o.sv(o.len())), q(o.sv(o.len())); Polynom<Real> qo, ro; T(p * q); T(p + q); T(p - q); T(Polynom<Real>::poldiv(p, q, qo, ro), 0); T(p(o.x())); T(p.SetDegree(o.dim() < -1 ? -1 : o.dim()), 0); T(p.to_string(c.r.i(0, 30), c.r.i(0, 20))); { Vector<Real> pd(o.len()); T(p.Derive(o.x(), pd), 0); } T(Polynom<Real>::FromValues(o.sv(o.len()), o.sv(o.len()))); T(p.Reduce(o.x()), 0); T(p.leadingTerm());
	T(RootFinding::LaguerreRoots(p)); T(RootFinding::EigenvalueRoots(p)); { Complex z1, z2, z3, z4; T(SolveQuadratic(o.x(), o.x(), o.x(), z1, z2)); T(SolveCubic(o.x(), o.x(), o.x(), o.x(), z1, z2, z3)); T(SolveQuartic(o.x(), o.x(), o.x(), o.x(), o.x(), z1, z2, z3, z4), 0); }
	finish(c); }

FAMILY(scalar_functions, 800) { start(c); Odd o{c};
	{ int N = o.in(); Real x = o.x(); T(DiracStep(N)(x)); T(DiracExp(N)(x)); T(DiracSqr(N)(x)); T(DiracSin(N)(x)); }
	T(ChebyshevT(o.few(), o.x())); T(ChebyshevU(o.few(), o.x())); T(Functions::FactorialInt(o.in())); T(Functions::Factorial(std::min(100000, o.in()))); T(Functions::FactorialStirling(o.in()));
	{ Real x = o.x(); T(Functions::Sec(x)); T(Functions::Csc(x)); T(Functions::Ctg(x)); T(Functions::Csch(x)); T(Functions::Ctgh(x)); T(Functions::LGamma(x)); T(Functions::TGamma(x)); T(Functions::Erf(x)); }
	{ Real d, m, s; T(Utils::AngleDegToExplicit(o.x(), d, m, s), 0); T(Utils::AngleRadToExplicit(o.x(), d, m, s), 0); T(Utils::AngleTo2PiRange(o.x())); T(Utils::AngleToPiPiRange(o.x())); T(Utils::CartesianToSpherical(o.x(), o.x(), o.x(), d, m, s), 0); }
	T(Random::UniformInt(o.in(), o.in())); T(Random::UniformReal(o.x(), o.x()));
	T(LegendreBasis().Evaluate(o.few(), o.x())); T(HermiteBasis().Evaluate(o.few(), o.x())); T(LaguerreBasis().Evaluate(o.few(), o.x())); T(ChebyshevBasis().Evaluate(o.few(), o.x())); T(LegendreBasis().Normalization(o.in())); T(HermiteBasis().Normalization(std::min(o.in(), 3000))); T(LaguerreBasis().Normalization(std::min(o.in(), 3000))); T(ChebyshevBasis().Normalization(o.in()));
	{ Real a, b, d; T(LegendreBasis().RecurrenceCoefficients(o.in(), a, b, d), 0); T(HermiteBasis().RecurrenceCoefficients(o.in(), a, b, d), 0); T(LaguerreBasis().RecurrenceCoefficients(o.in(), a, b, d), 0); T(ChebyshevBasis().RecurrenceCoefficients(o.in(), a, b, d), 0); T(AssociatedLegendreBasis(o.few()).Evaluate(o.few(), o.x())); T(ChebyshevBasis().GetZeros(o.sz())); T(ChebyshevBasis().GetExtrema(o.sz())); T(HermiteBasis().QuantumWavefunction(o.few(), o.x())); }
	T(ChebyshevRoots(o.sz())); T(ChebyshevExtrema(o.sz()));
	{ Curves::DeltoidCurve d(o.in()); T(d(o.x())); Curves::ToroidalSpiralCurve t(o.in()); T(t(o.x())); }
	T(FFT::NextPowerOfTwo(o.in())); T(FFT::Log2(o.in())); T(FFT::IsPowerOfTwo(o.in())); T(DFT::IsReasonableSize(o.in()));
	T(Windows::Hann(o.sz())); T(Windows::Hamming(o.sz())); T(Windows::Blackman(o.sz())); T(Windows::Bartlett(o.sz())); T(Windows::Welch(o.sz())); T(Windows::Rectangular(o.sz())); T(Windows::Kaiser(o.sz(), o.x())); T(Windows::Gaussian(o.sz(), o.x()));
	T(Statistics::ConfidenceIntervalProportion(o.in(), o.in(), o.x())); T(Statistics::ConfidenceIntervalProportionDifference(o.in(), o.in(), o.in(), o.in(), o.x()));
	T(Statistics::TDistribution(o.in()).cdf(o.x())); T(Statistics::ChiSquareDistribution(o.in()).cdf(o.x())); T(Statistics::FDistribution(o.in(), o.in()).cdf(o.x())); T(Statistics::TDistribution(o.in()).pdf(o.x())); T(Statistics::ChiSquareDistribution(o.in()).pdf(o.x()));
	T(ValidateMaxIterations(o.in()), 0);
	finish(c); }

FAMILY(transforms_and_samples, 500) { start(c); Odd o{c};
	auto z = o.vc(o.len()); auto v = o.v(); T(DFT::Forward(z)); T(DFT::Inverse(z)); T(DFT::ComputeBin(z, o.in())); T(FFT::Forward(z)); T(FFT::Inverse(z)); T(FFT::ZeroPad(z)); { auto t = z; T(FFT::Transform(t, o.in()), 0); } T(RealFFT::Forward(v)); T(RealFFT::Inverse(z)); { auto t = v; T(RealFFT::Transform(t, o.in()), 0); } T(DCT::ForwardII(v)); T(DCT::InverseII(v)); T(DCT::ForwardII_Fast(v)); T(DCT::InverseII_Fast(v)); T(DCT::ForwardDST(v)); T(DCT::InverseDST(v)); T(DCT::VerifyRoundTrip(v, o.x())); T(DCT::VerifyFastMatchesReference(v, o.x()));
	auto w = c.r.coin() ? o.v(v.size()) : o.v();
	T(Statistics::Mean(v)); T(Statistics::Median(v)); T(Statistics::Percentile(v, o.x())); T(Statistics::Mode(v)); T(Statistics::StdDev(v)); { Real a, b, d, e, f, g; T(Statistics::Moments(v, a, b, d, e, f, g), 0); } T(Statistics::Range(v)); T(Statistics::IQR(v)); T(Statistics::GeometricMean(v)); T(Statistics::HarmonicMean(v)); T(Statistics::TrimmedMean(v, o.x())); T(Statistics::PearsonCorrelation(v, w)); T(Statistics::SpearmanCorrelation(v, w)); T(Statistics::KendallCorrelation(v, w)); T(Statistics::OneSampleTTest(v, o.x(), o.x())); T(Statistics::TwoSampleTTest(v, w, o.x())); T(Statistics::WelchTTest(v, w, o.x())); T(Statistics::PairedTTest(v, w, o.x())); T(Statistics::ChiSquareGoodnessOfFit(v, w, o.x())); T(Statistics::ChiSquareIndependence(o.m(), o.x())); { std::vector<Vector<Real>> g(o.len()); for (auto& e : g) e = o.v(); T(Statistics::OneWayANOVA(g, o.x())); } T(Statistics::ConfidenceIntervalMean(v, o.x())); T(Statistics::ConfidenceIntervalMeanDifference(v, w, o.x())); T(Statistics::ConfidenceIntervalPairedDifference(v, w, o.x()));
	{ Real a, b; T(LinearLeastSquares(v, w, a, b), 0); } 
	{ int n = o.len(); auto xs = c.r.coin(0.6) ? o.asc(n) : o.v(n); auto ys = o.v(c.r.coin(0.8) ? n : o.len()); T(LinearInterpRealFunc(xs, ys)(o.x())); T(PolynomInterpRealFunc(xs, ys, o.dim())(o.x())); T(SplineInterpRealFunc(xs, ys)(o.x())); T(SplineInterpRealFunc(xs, ys, o.x(), o.x())(o.x())); T(BarycentricRationalInterp(xs, ys, o.dim())(o.x())); T(RationalInterpRealFunc(xs, ys, o.dim())(o.x())); try { SplineInterpRealFunc s(xs, ys); T(s.Derivative(o.x())); T(s.SecondDerivative(o.x())); T(s.Integrate(o.x(), o.x())); } catch (std::exception&) {} }
	{ auto f = [](Real x) { return std::sin(x); }; RealFunctionFromStdFunc g{std::function<Real(Real)>(f)}; T(ChebyshevApproximation(g, o.x(), o.x(), o.sz())); try { ChebyshevApproximation ap(g, -1, 1, c.r.i(1, 20)); T(ap.Coefficient(o.in())); T(ap.SetNumTerms(o.in()), 0); T(ap(o.x())); T(ap.ToPolynomial(o.in())); T(ap.Derivative()(o.x())); T(ap.Integral()(o.x())); } catch (std::exception&) {} }
	finish(c); }

FAMILY(quadrature_and_roots, 400) { start(c); Odd o{c};
	int kind = c.r.i(0, 4); RealFunctionFromStdFunc f{std::function<Real(Real)>([kind](Real x) -> Real { switch (kind) { case 0: return x * x - 2; case 1: return std::sin(x); case 2: return __builtin_nan(""); case 3: return 1 / x; default: return x > 0.3 ? 1 : -1; } })};
	T(GaussLegendreRule(o.sz(), o.x(), o.x())); T(GaussLaguerreRule(o.sz() > 64 ? 64 : o.sz(), o.x())); T(GaussHermiteRule(std::min(o.sz(), 100))); T(GaussJacobiRule(std::min(o.sz(), 64), o.x(), o.x())); T(GaussChebyshev1Rule(o.sz())); T(GaussChebyshev2Rule(o.sz()));
	T(IntegrateTrap(f, o.x(), o.x(), 1e-3)); T(IntegrateSimpson(f, o.x(), o.x(), 1e-3)); T(IntegrateRomberg(f, o.x(), o.x(), 1e-3)); T(IntegrateGauss10(f, o.x(), o.x()));
	T(Derivation::NDer1(f, o.x(), o.x())); T(Derivation::NDer2(f, o.x(), o.x())); T(Derivation::NDer4(f, o.x(), o.x())); T(Derivation::NDer6(f, o.x(), o.x())); T(Derivation::NDer8(f, o.x(), o.x())); T(Derivation::NSecDer4(f, o.x(), o.x())); T(Derivation::NThirdDer2(f, o.x(), o.x()));
	T(RootFinding::FindRootBisection(f, o.x(), o.x(), o.x())); T(RootFinding::FindRootNewton(f, o.x(), o.x(), o.x())); T(RootFinding::FindRootSecant(f, o.x(), o.x(), o.x())); T(RootFinding::FindRootRidders(f, o.x(), o.x(), o.x())); T(RootFinding::FindRootBrent(f, o.x(), o.x(), o.x())); T(RootFinding::FindRootFalsePosition(f, o.x(), o.x(), o.x())); { Real a = o.x(), b = o.x(); T(RootFinding::BracketRoot(f, a, b, o.few())); Vector<Real> l, r; T(RootFinding::FindRootBrackets(f, o.x(), o.x(), o.sz(), l, r)); }
	T(Minimization::GoldenSectionSearch(f, o.x(), o.x(), o.x())); T(Minimization::BrentMinimize(f, o.x(), o.x(), o.x(), o.few()));
	{ ClosedInterval iv(std::min(0.0, 1.0), 1.0); std::vector<Real> pts; T(iv.GetEquidistantCovering(o.sz(), pts), 0); T(ClosedInterval(o.x(), o.x()).GetEquidistantCovering(o.sz(), pts), 0); T(OpenInterval(o.x(), o.x()).GetEquidistantCovering(o.sz(), pts), 0); T(CompleteRInterval().GetEquidistantCovering(o.sz(), pts), 0);  }
	finish(c); }

FAMILY(solutions_and_graphs, 500) { start(c); Odd o{c};
	try { ODESystemSolution s(o.x(), o.x(), c.r.i(1, 3), c.r.i(0, 6)); for (int k = 0; k < 6; k++) switch (c.r.i(0, 9)) { case 0: T(s.fillValues(std::min(o.in(), 200), o.x(), o.v()), 0); break; case 1: T(s.setTVal(std::min(o.in(), 200), o.x()), 0); break; case 2: T(s.setXVal(std::min(o.in(), 200), o.in(), o.x()), 0); break; case 3: T(s.getXValues(o.in())); break; case 4: T(s.getSolAsLinInterp(o.in())); break; case 5: T(s.getSolAsSplineInterp(o.in())); break; case 6: T(s.getSolAsParamCurve2D(o.in(), o.in())); break; case 7: T(s.setFinalSize(c.r.i(-2, 10)), 0); break; case 8: T(s.reserve(o.sz()), 0); break; default: T(s.getSolAsPolyInterp(o.in(), o.dim())); } } catch (const std::exception&) {}
	try { DAESolution s(o.x(), o.x(), c.r.i(1, 3), c.r.i(0, 2), c.r.i(0, 6)); for (int k = 0; k < 8; k++) switch (c.r.i(0, 13)) { case 0: T(s.fillValues(std::min(o.in(), 200), o.x(), o.v(), o.v()), 0); break; case 1: T(s.setTVal(std::min(o.in(), 200), o.x()), 0); break; case 2: T(s.setXVal(std::min(o.in(), 200), o.in(), o.x()), 0); break; case 3: T(s.setYVal(std::min(o.in(), 200), o.in(), o.x()), 0); break; case 4: T(s.getXValues(o.in())); break; case 5: T(s.getYValues(o.in())); break; case 6: T(s.getTValue(o.in())); break; case 7: T(s.getXValue(o.in(), o.in())); break; case 8: T(s.getYValue(o.in(), o.in())); break; case 9: T(s.getXAsLinInterp(o.in())); break; case 10: T(s.getYAsSplineInterp(o.in())); break; case 11: T(s.getXAsParamCurve2D(o.in(), o.in())); break; case 12: T(s.getXAsParamCurve3D(o.in(), o.in(), o.in())); break; default: T(s.setFinalSize(c.r.i(-2, 10)), 0); } T(s.getXValuesAtEnd()); T(s.getYValuesAtEnd()); } catch (const std::exception&) {}
	{ Graph<int, Real> g(c.r.i(0, 6), c.r.coin() ? Graph<int, Real>::Type::Directed : Graph<int, Real>::Type::Undirected, c.r.coin()); auto id = [&] { return (size_t)c.r.pick(std::vector<long>{0, 1, 2, 3, 5, 6, 7, -1, 1L << 40}); };
		for (int k = 0; k < 10; k++) T(g.addEdge(id(), id(), o.x()), 0); T(g.hasEdge(id(), id())); T(g.edgeWeight(id(), id())); T(g.removeEdge(id(), id())); T(g.neighbors(id())); T(g.degree(id())); T(g.vertexData(id())); T(Dijkstra(g, id())); T(BFS(g, id())); T(DFS(g, id())); }
	{ RegularPolygon rp(std::max(o.dim(), -5), o.x()); T(rp.Area()); } T(RegularPolygon::FromArea(o.dim(), o.x())); T(RegularPolygon::FromCircumradius(o.dim(), o.x())); T(RegularPolygon::FromInradius(o.dim(), o.x()));
	std::vector<Pnt2Cart> p2; int n = o.len(); for (int i = 0; i < n; i++) p2.push_back(Pnt2Cart(o.x(), o.x())); std::vector<Pnt3Cart> p3; for (int i = 0; i < n; i++) p3.push_back(Pnt3Cart(o.x(), o.x(), o.x()));
	T(ConvexHull2D::Compute(p2)); T(ConvexHull3DComputer::Compute(p3)); T(Triangulation::ComputeDelaunay(p2)); T(Voronoi::ComputeVoronoi(p2));
	{ Polygon2D poly(p2); T(poly.Area()); T(poly.IsSimple()); T(poly.IsConvex()); T(poly.Contains(Pnt2Cart(o.x(), o.x()))); T(poly.Triangularization()); T(poly.Edge(o.in())); T(poly.Centroid()); T(poly.Vertex(o.in())); T(Triangulation::EarClipTriangulation(poly)); }
	T(Circles::MinimumEnclosingCircle(p2)); T(Circles::ClosestPair(p2));
	finish(c); }
MON_MAIN()
