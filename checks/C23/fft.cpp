// C23: Fourier, cosine and sine transforms, windows: long-double defining sums, inversion, Parseval, symmetry
#include "mon.h"
#include "mml/algorithms/Fourier.h"
#include "mml/algorithms/FourierRealFFT.h"
#include "mml/algorithms/FourierWindowing.h"
using namespace MML; using namespace MML::Fourier;
typedef long double L; typedef std::complex<L> LC; typedef std::vector<double> VD;
static const L PI_ = 3.141592653589793238462643383279502884L;
struct Sig { std::vector<LC> x; Vector<Complex> v; L e = 0, a = 0; };
static double amp(mon::Rng& r) { return r.coin(.8) ? r.pmag(-2, 2) : r.pick({1e-150, 1e-30, 1e30, 1e120}); }
static Sig gen(mon::Case& c, int n, bool real) { auto& r = c.r; Sig s; s.v = Vector<Complex>(n); int k = (int)r.i(0, 5); double sc = amp(r); int f = (int)r.i(0, n), p = (int)r.i(0, n - 1); VD flat; for (int i = 0; i < n; i++) { Complex z; if (k == 0) z = Complex(r.normal(), r.normal()); else if (k == 1) z = i == p ? 1. : 0.; else if (k == 2) z = 1.; else if (k == 3) z = std::polar(1., (double)(2 * PI_ * ((long long)f * i % n) / n)); else if (k == 4) z = Complex((double)r.i(-3, 3), (double)r.i(-3, 3)); else z = r.coin(.8) ? Complex(0, 0) : Complex(r.normal(), r.normal()); if (real) z = z.real(); z *= sc; s.v[i] = z; s.x.push_back(LC(z.real(), z.imag())); s.e += std::norm(s.x[i]); s.a += std::abs(s.x[i]); if (i < 40) { flat.push_back(z.real()); if (!real) flat.push_back(z.imag()); } } c.in("n", n); c.in("kind", k); c.in("x", flat); return s; }
static std::vector<LC> dft(const std::vector<LC>& x, int sg) { int n = (int)x.size(); std::vector<LC> w(n), o(n); for (int i = 0; i < n; i++) w[i] = std::polar((L)1, sg * 2 * PI_ * i / n); for (int k = 0; k < n; k++) { LC s = 0; for (int j = 0; j < n; j++) s += x[j] * w[(long long)j * k % n]; o[k] = s; } return o; }
static void same(mon::Case& c, const Vector<Complex>& g, const std::vector<LC>& w, double tol, const std::string& k) { if (!c.check(g.size() == (int)w.size(), k + "_size")) return; double worst = 0; int at = 0; for (int i = 0; i < g.size(); i++) { double d = (double)std::abs(LC(g[i].real(), g[i].imag()) - w[i]); if (!(d <= worst)) { worst = d; at = i; } } c.check(worst <= tol, k, [&] { std::ostringstream s; s << "bin " << at << " off by " << worst << " tol " << tol; return s.str(); }); }
static void sameR(mon::Case& c, const Vector<Real>& g, const std::vector<L>& w, double tol, const std::string& k) { if (!c.check(g.size() == (int)w.size(), k + "_size")) return; double worst = 0; int at = 0; for (int i = 0; i < g.size(); i++) { double d = (double)fabsl(g[i] - w[i]); if (!(d <= worst)) { worst = d; at = i; } } c.check(worst <= tol, k, [&] { std::ostringstream s; s << "entry " << at << " off by " << worst << " tol " << tol << " got " << g[at] << " want " << (double)w[at]; return s.str(); }); }
static int p2(mon::Rng& r, int lo = 0, int hi = 10) { return 1 << r.i(lo, hi); }
FAMILY(dft, 500) { auto& r = c.r; int n = r.coin(.3) ? (int)r.i(1, 9) : (int)r.i(1, 90); bool re = r.coin(.4); Sig s = gen(c, n, re); double tol = 2e-15 * n * (double)s.a; auto F = dft(s.x, -1); auto B = dft(s.x, 1); for (auto& z : B) z /= (L)n; c.ev("dft"); Vector<Complex> f = DFT::Forward(s.v); same(c, f, F, tol, "dft_forward"); same(c, DFT::Inverse(s.v), B, tol / n, "dft_inverse"); same(c, DFT::Inverse(f), s.x, tol, "dft_roundtrip"); int k = (int)r.i(0, n - 1); Complex b = DFT::ComputeBin(s.v, k); c.check((double)std::abs(LC(b.real(), b.imag()) - F[k]) <= tol, "dft_bin"); c.throws<std::invalid_argument>([&] { DFT::ComputeBin(s.v, r.pick({-1, n, n + 7})); }, "dft_bin_range");
	auto d = DFT::ForwardDetailed(s.v); c.check(d.status == AlgorithmStatus::Success && d.value.size() == n && d.input_size == n && d.function_evaluations == n * n, "dft_detailed"); for (int i = 0; i < n && i < d.value.size(); i++) c.check(d.value[i] == f[i], "dft_detailed_value"); auto di = DFT::InverseDetailed(s.v); Vector<Complex> iv = DFT::Inverse(s.v); for (int i = 0; i < n; i++) c.check(di.value.size() == n && di.value[i] == iv[i], "dft_inverse_detailed_value");
	if (re) { Vector<Real> x(n); for (int i = 0; i < n; i++) x[i] = s.v[i].real(); Vector<Complex> g = DFT::Forward(x); same(c, g, F, tol, "dft_forward_real"); Vector<Real> y = DFT::InverseReal(g); std::vector<L> w; for (auto& z : s.x) w.push_back(z.real()); sameR(c, y, w, tol, "dft_real_roundtrip"); auto dr = DFT::InverseRealDetailed(g); c.check(dr.status == AlgorithmStatus::Success && dr.value.size() == n && dr.value[0] == y[0], "dft_inverse_real_detailed"); auto dfr = DFT::ForwardDetailed(x); c.check(dfr.value.size() == n && dfr.value[n - 1] == g[n - 1], "dft_real_detailed"); } }
FAMILY(fft, 500) { auto& r = c.r; int n = p2(r, 0, 9); Sig s = gen(c, n, r.coin(.3)); double tol = 1e-15 * (n + 10) * (double)s.a; auto F = dft(s.x, -1); auto B = dft(s.x, 1); c.ev("fft"); Vector<Complex> f = FFT::Forward(s.v); same(c, f, F, tol, "fft_forward"); for (int i = 0; i < n; i++) c.check(s.v[i] == Complex((double)s.x[i].real(), (double)s.x[i].imag()), "fft_input_modified"); Vector<Complex> g = s.v; FFT::Transform(g); same(c, g, F, tol, "fft_transform"); g = s.v; FFT::Transform(g, -1); same(c, g, B, tol, "fft_transform_backward"); for (auto& z : B) z /= (L)n; same(c, FFT::Inverse(s.v), B, tol / n, "fft_inverse"); same(c, FFT::Inverse(f), s.x, tol, "fft_roundtrip");
	L e = 0; for (int i = 0; i < n; i++) e += std::norm(LC(f[i].real(), f[i].imag())); c.check(fabsl(e - n * s.e) <= 1e-13 * (n + 10) * n * s.e, "parseval"); auto d = FFT::ForwardDetailed(s.v); c.check(d.status == AlgorithmStatus::Success && d.value.size() == n && d.value[n - 1] == f[n - 1] && d.input_size == n, "fft_detailed"); auto di = FFT::InverseDetailed(f); c.check(di.status == AlgorithmStatus::Success && di.value.size() == n && di.value[0] == FFT::Inverse(f)[0], "fft_inverse_detailed");
	// linearity, circular shift, circular convolution
	Sig t = gen(c, n, false); Complex al(r.normal(), r.normal()); Vector<Complex> h(n); for (int i = 0; i < n; i++) h[i] = al * s.v[i] + t.v[i]; Vector<Complex> fh = FFT::Forward(h), ft = FFT::Forward(t.v); double lt = 3e-15 * (n + 10) * ((double)s.a * std::abs(al) + (double)t.a), bad = 0; for (int i = 0; i < n; i++) bad = std::max(bad, std::abs(fh[i] - al * f[i] - ft[i])); c.check(bad <= lt, "fft_linear"); int sh = (int)r.i(0, n - 1); for (int i = 0; i < n; i++) h[i] = s.v[(i + sh) % n]; fh = FFT::Forward(h); bad = 0; for (int k = 0; k < n; k++) bad = std::max(bad, (double)std::abs(LC(fh[k].real(), fh[k].imag()) - F[k] * std::polar((L)1, 2 * PI_ * ((long long)k * sh % n) / n))); c.check(bad <= 2 * tol, "fft_shift");
	if (n <= 64 && s.a < 1e60 && t.a < 1e60) { for (int k = 0; k < n; k++) h[k] = f[k] * ft[k]; h = FFT::Inverse(h); std::vector<LC> w(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[(i + j) % n] += s.x[i] * t.x[j]; same(c, h, w, 4e-15 * (n + 10) * (double)(s.a * t.a), "fft_convolution"); c.ev("convolution"); } }
FAMILY(fft_large, 12) { auto& r = c.r; int n = 1 << r.i(12, 17); Sig s = gen(c, n, false); Vector<Complex> f = FFT::Forward(s.v); L e = 0; for (int i = 0; i < n; i++) e += std::norm(LC(f[i].real(), f[i].imag())); c.check(fabsl(e - n * s.e) <= 1e-10 * n * s.e, "parseval_large"); double tol = 1e-15 * n * (double)s.a + 1e-300; for (int q = 0; q < 4; q++) { int k = (int)r.i(0, n - 1); LC w = 0; for (int j = 0; j < n; j++) w += s.x[j] * std::polar((L)1, -2 * PI_ * ((long long)j * k % n) / n); double d = (double)std::abs(LC(f[k].real(), f[k].imag()) - w); c.check(d <= tol, "fft_large_bin"); } same(c, FFT::Inverse(f), s.x, tol, "fft_large_roundtrip"); c.ev("fft_large"); }
FAMILY(realfft, 500) { auto& r = c.r; int n = p2(r, 1, 9); Sig s = gen(c, n, true); double tol = 2e-15 * (n + 10) * (double)s.a; auto F = dft(s.x, -1); Vector<Real> x(n); std::vector<L> xl; for (int i = 0; i < n; i++) { x[i] = s.v[i].real(); xl.push_back(x[i]); } Vector<Complex> f = RealFFT::Forward(x); std::vector<LC> H(F.begin(), F.begin() + n / 2 + 1); same(c, f, H, tol, "realfft_forward"); c.check(f[0].imag() == 0 && f[n / 2].imag() == 0, "realfft_real_ends"); sameR(c, RealFFT::Inverse(f), xl, tol, "realfft_roundtrip"); Vector<Real> d = x; RealFFT::Transform(d, 1); std::vector<L> w(n); w[0] = F[0].real(); w[1] = F[n / 2].real(); for (int k = 1; k < n / 2; k++) { w[2 * k] = F[k].real(); w[2 * k + 1] = F[k].imag(); } sameR(c, d, w, tol, "realfft_packed"); RealFFT::Transform(d, -1); sameR(c, d, xl, tol, "realfft_packed_roundtrip"); c.ev("realfft"); 
	// inverse of an arbitrary hermitian spectrum
	Vector<Complex> sp(n / 2 + 1); std::vector<LC> full(n); double ab = 0; for (int k = 0; k <= n / 2; k++) { Complex z(r.normal(), k == 0 || k == n / 2 ? 0 : r.normal()); sp[k] = z; full[k] = LC(z.real(), z.imag()); full[(n - k) % n] = std::conj(full[k]); ab += 2 * std::abs(z); } auto b = dft(full, 1); std::vector<L> bw; for (auto& z : b) bw.push_back(z.real() / n); sameR(c, RealFFT::Inverse(sp), bw, 4e-15 * (n + 10) * ab / n, "realfft_inverse"); }
FAMILY(realfft_large, 12) { auto& r = c.r; int n = 1 << r.i(10, 16); Sig s = gen(c, n, true); double tol = 2e-15 * n * (double)s.a + 1e-300; Vector<Real> x(n); std::vector<L> xl; for (int i = 0; i < n; i++) { x[i] = s.v[i].real(); xl.push_back(x[i]); } Vector<Complex> f = RealFFT::Forward(x), g = FFT::Forward(s.v); std::vector<LC> H; for (int k = 0; k <= n / 2; k++) H.push_back(LC(g[k].real(), g[k].imag())); same(c, f, H, tol, "realfft_large_forward"); sameR(c, RealFFT::Inverse(f), xl, tol, "realfft_large_roundtrip"); Vector<Real> d = x; RealFFT::Transform(d, 1); std::vector<L> w(n); w[0] = H[0].real(); w[1] = H[n / 2].real(); for (int k = 1; k < n / 2; k++) { w[2 * k] = H[k].real(); w[2 * k + 1] = H[k].imag(); } sameR(c, d, w, tol, "realfft_large_packed"); RealFFT::Transform(d, -1); sameR(c, d, xl, tol, "realfft_large_packed_roundtrip"); c.ev("realfft_large");
	if (n <= 2048) { double dt = 8e-15 * n * (double)s.a; Vector<Real> q = DCT::ForwardII_Fast(x), p = DCT::ForwardII(x); std::vector<L> pl; for (int i = 0; i < n; i++) pl.push_back(p[i]); sameR(c, q, pl, dt, "dct_large_fast"); sameR(c, DCT::InverseII_Fast(q), xl, dt * 2, "dct_large_roundtrip"); } }
FAMILY(dct, 700) { auto& r = c.r; int n = r.coin(.5) ? p2(r, 0, 9) : (int)r.i(1, 100); Sig s = gen(c, n, true); double tol = 4e-15 * (n + 10) * (double)s.a; Vector<Real> x(n); std::vector<L> xl; for (int i = 0; i < n; i++) { x[i] = s.v[i].real(); xl.push_back(x[i]); } std::vector<L> C4(4 * n); for (int i = 0; i < 4 * n; i++) C4[i] = cosl(PI_ * i / (2 * n)); std::vector<L> F(n), B(n); for (int k = 0; k < n; k++) { for (int j = 0; j < n; j++) F[k] += xl[j] * C4[(long long)k * (2 * j + 1) % (4 * n)]; F[k] *= (L)2 / n; } for (int j = 0; j < n; j++) { B[j] = xl[0] / 2; for (int k = 1; k < n; k++) B[j] += xl[k] * C4[(long long)k * (2 * j + 1) % (4 * n)]; } c.ev("dct"); Vector<Real> f = DCT::ForwardII(x); sameR(c, f, F, tol * 2 / n, "dct_forward"); sameR(c, DCT::InverseII(x), B, tol, "dct_inverse"); sameR(c, DCT::InverseII(f), xl, tol * 2, "dct_roundtrip"); sameR(c, DCT::ForwardII(DCT::InverseII(x)), xl, tol * 2, "dct_reverse_roundtrip"); if (FFT::IsPowerOfTwo(n)) { sameR(c, DCT::ForwardII_Fast(x), F, tol * 2 / n, "dct_fast"); sameR(c, DCT::InverseII_Fast(x), B, tol, "dct_inverse_fast"); c.ev("dct_fast"); } else c.throws<std::invalid_argument>([&] { if (r.coin()) DCT::ForwardII_Fast(x); else DCT::InverseII_Fast(x); }, "dct_fast_size"); if (s.a < 1e3) { c.check(DCT::VerifyRoundTrip(x, 2 * tol), "verify_round_trip"); c.check(DCT::VerifyFastMatchesReference(x, tol), "verify_fast"); } auto d = DCT::ForwardIIDetailed(x); c.check(d.status == AlgorithmStatus::Success && d.value.size() == n && d.value[n - 1] == f[n - 1], "dct_detailed"); auto di = DCT::InverseIIDetailed(x); c.check(di.value.size() == n && di.value[0] == DCT::InverseII(x)[0], "dct_inverse_detailed");
	std::vector<L> S(n); for (int k = 0; k < n; k++) { for (int j = 0; j < n; j++) S[k] += xl[j] * sinl(PI_ * ((long long)(k + 1) * (j + 1) % (2 * n + 2)) / (n + 1)); S[k] *= sqrtl((L)2 / (n + 1)); } Vector<Real> g = DCT::ForwardDST(x); sameR(c, g, S, tol, "dst_forward"); sameR(c, DCT::InverseDST(g), xl, tol * 2, "dst_roundtrip"); L e = 0; for (int i = 0; i < n; i++) e += (L)g[i] * g[i]; c.check(fabsl(e - s.e) <= 1e-12 * (n + 10) * s.e, "dst_energy"); auto ds = DCT::ForwardDSTDetailed(x); c.check(ds.value.size() == n && ds.value[0] == g[0], "dst_detailed"); auto dd = DCT::InverseDSTDetailed(g); c.check(dd.value.size() == n && dd.value[0] == DCT::InverseDST(g)[0], "dst_inverse_detailed"); }
static L i0(L x) { L s = 1, t = 1; for (int k = 1; k < 3000; k++) { t *= (x / 2 / k) * (x / 2 / k); s += t; if (t < 1e-22L * s) break; } return s; }
FAMILY(windows, 500) { auto& r = c.r; int n = r.coin(.3) ? (int)r.i(1, 4) : (int)r.i(1, 300); double beta = r.coin(.2) ? 0 : r.coin(.7) ? r.uni(0, 15) : r.uni(15, 600), sg = r.uni(.05, 2); c.in("n", n); c.in("beta", beta); c.in("sigma", sg); std::vector<Vector<Real>> W{Windows::Rectangular(n), Windows::Hann(n), Windows::Hamming(n), Windows::Blackman(n), Windows::Bartlett(n), Windows::Welch(n), Windows::Kaiser(n, beta), Windows::Gaussian(n, sg)}; const char* nm[]{"rectangular", "hann", "hamming", "blackman", "bartlett", "welch", "kaiser", "gaussian"}; c.ev("windows"); for (int w = 0; w < 8; w++) { if (!c.check(W[w].size() == n, std::string(nm[w]) + "_size")) continue; for (int i = 0; i < n; i++) { L t = n == 1 ? .5L : (L)i / (n - 1), u = 2 * t - 1, a = 2 * PI_ * t, want = 1; switch (w) { case 1: want = .5L - .5L * cosl(a); break; case 2: want = .54L - .46L * cosl(a); break; case 3: want = .42L - .5L * cosl(a) + .08L * cosl(2 * a); break; case 4: want = 1 - fabsl(u); break; case 5: want = 1 - u * u; break; case 6: want = i0(beta * sqrtl(std::max((L)0, 1 - u * u))) / i0(beta); break; case 7: want = expl(-u * u / 2 / ((L)sg * sg)); break; } double tol = w == 6 ? 1e-9 * (double)want * (1 + beta * .01) + 1e-14 : 1e-13; c.check(std::fabs(W[w][i] - (double)want) <= tol, nm[w], [&] { std::ostringstream s; s.precision(14); s << "i=" << i << " got " << W[w][i] << " want " << (double)want; return s.str(); }); } for (int i = 0; i < n; i++) c.check(std::fabs(W[w][i] - W[w][n - 1 - i]) <= 1e-9, std::string(nm[w]) + "_symmetric"); } }
FAMILY(sizes, 300) { auto& r = c.r; long long n = r.coin(.3) ? r.i(-5, 40) : r.coin(.8) ? r.i(1, 1 << 30) : r.pick({(long long)(1 << 30), (long long)(1 << 30) - 1, 1LL << 29, 0LL, -1LL, -2147483648LL}); c.in("n", (double)n); bool p = n > 0 && !(n & (n - 1)); c.check(FFT::IsPowerOfTwo((int)n) == p, "is_power_of_two"); long long q = 1; while (q < n) q *= 2; c.check(FFT::NextPowerOfTwo((int)n) == q, "next_power_of_two"); if (n > 0) { int l = 0; while ((2LL << l) <= n) l++; c.check(FFT::Log2((int)n) == l, "log2"); } c.ev("sizes"); int m = (int)r.i(1, 200); Vector<Complex> v(m); for (int i = 0; i < m; i++) v[i] = Complex(i + 1, -i); Vector<Complex> z = FFT::ZeroPad(v); int t = 1; while (t < m) t *= 2; if (c.check(z.size() == t, "zeropad_size")) for (int i = 0; i < t; i++) c.check(z[i] == (i < m ? v[i] : Complex(0, 0)), "zeropad"); }
FAMILY(invalid, 300) { auto& r = c.r; int n = (int)r.i(3, 300); while (FFT::IsPowerOfTwo(n)) n++; c.in("n", n); Vector<Complex> v(n), e0(0); Vector<Real> x(n), x0(0); typedef std::invalid_argument IA; c.ev("rejected_input"); c.throws<IA>([&] { FFT::Forward(v); }, "fft_size"); c.throws<IA>([&] { FFT::Inverse(v); }, "fft_size"); c.throws<IA>([&] { FFT::Transform(v, 1); }, "fft_size"); c.throws<IA>([&] { RealFFT::Forward(x); }, "realfft_size"); c.throws<IA>([&] { RealFFT::Transform(x, 1); }, "realfft_size"); c.throws<IA>([&] { RealFFT::Inverse(Vector<Complex>(n + 1)); }, "realfft_inverse_size"); c.throws<IA>([&] { RealFFT::Inverse(Vector<Complex>((int)r.i(0, 1))); }, "realfft_inverse_size"); c.throws<IA>([&] { DFT::Forward(e0); }, "dft_empty"); c.throws<IA>([&] { DFT::Forward(x0); }, "dft_empty"); c.throws<IA>([&] { DFT::Inverse(e0); }, "dft_empty"); c.throws<IA>([&] { FFT::Forward(e0); }, "fft_empty"); c.throws<IA>([&] { RealFFT::Forward(x0); }, "realfft_empty"); c.throws<IA>([&] { RealFFT::Forward(Vector<Real>(1)); }, "realfft_one"); c.throws<IA>([&] { DCT::ForwardII(x0); }, "dct_empty"); c.throws<IA>([&] { DCT::InverseII(x0); }, "dct_empty"); c.throws<IA>([&] { DCT::ForwardDST(x0); }, "dst_empty"); int b = r.pick({0, -1, -100}); c.throws<IA>([&] { Windows::Rectangular(b); }, "window_size"); c.throws<IA>([&] { Windows::Hann(b); }, "window_size"); c.throws<IA>([&] { Windows::Hamming(b); }, "window_size"); c.throws<IA>([&] { Windows::Blackman(b); }, "window_size"); c.throws<IA>([&] { Windows::Bartlett(b); }, "window_size"); c.throws<IA>([&] { Windows::Welch(b); }, "window_size"); c.throws<IA>([&] { Windows::Kaiser(b, 3); }, "window_size"); c.throws<IA>([&] { Windows::Gaussian(b, .4); }, "window_size"); double q = r.pick({-1., -1e-9, (double)NAN}); c.throws<IA>([&] { Windows::Kaiser(9, q); }, "kaiser_beta"); c.throws<IA>([&] { Windows::Gaussian(9, r.pick({0., -1., (double)NAN})); }, "gaussian_sigma"); FourierConfig cfg; cfg.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto d = FFT::ForwardDetailed(v, cfg); c.check(d.status != AlgorithmStatus::Success && !d.error_message.empty(), "fft_detailed_status"); c.throws<IA>([&] { FFT::ForwardDetailed(v); }, "fft_detailed_throw"); auto d2 = DFT::ForwardDetailed(e0, cfg); c.check(d2.status != AlgorithmStatus::Success, "dft_detailed_status"); auto d3 = DCT::ForwardIIDetailed(x0, cfg); c.check(d3.status != AlgorithmStatus::Success, "dct_detailed_status"); c.throws<IA>([&] { FFT::NextPowerOfTwo(r.pick({(1 << 30) + 1, 2147483647})); }, "next_power_overflow"); }
MON_MAIN()
