// C17 (events): every crossing in the requested direction is reported once, in order, at its true time; actions are honoured
#include "ode.h"
#include "mml/algorithms/ODESolvers/ODESolverEventDetection.h"
using namespace MML; using namespace ode;
static const char* NM[4] = {"dormand_prince5", "cash_karp", "dormand_prince8", "bulirsch_stoer"};
template <class F> static void disp(int k, F f) { switch (k) { case 0: f((DormandPrince5_Stepper*)0); break; case 1: f((CashKarp_Stepper*)0); break; case 2: f((DormandPrince8_Stepper*)0); break; default: f((BulirschStoer_Stepper*)0); } }
// independent oscillators: x_i = A_i sin(w_i t + p_i); event functions are linear in (t, x, v) plus a constant, optionally scaled
struct Osc : IODESystemWithEvents { int m = 1; VD w, A, p; struct E { VD cx, cv; double ct, c0, sc; EventDirection d; EventAction a; }; std::vector<E> ev; mutable long calls = 0, handled = 0; mutable std::vector<int> hist; mutable double lastHandled = -1e300;
  int getDim() const override { return 2 * m; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& d) const override { calls++; for (int i = 0; i < m; i++) { d[i] = x[m + i]; d[m + i] = -w[i] * w[i] * x[i]; } }
  int getNumEvents() const override { return (int)ev.size(); } Real eventFunction(int k, Real t, const Vector<Real>& x) const override { const E& e = ev[k]; double s = e.c0 + e.ct * t; for (int i = 0; i < m; i++) s += e.cx[i] * x[i] + e.cv[i] * x[m + i]; return s * e.sc; }
  EventDirection getEventDirection(int k) const override { return ev[k].d; } EventAction getEventAction(int k) const override { return ev[k].a; } void handleEvent(int k, Real t, Vector<Real>&) const override { handled++; hist.push_back(k); lastHandled = t; }
  L g(int k, L t, L* dg = nullptr) const { const E& e = ev[k]; L s = e.c0 + e.ct * t, d = e.ct; for (int i = 0; i < m; i++) { L a = A[i], q = (L)w[i] * t + p[i]; s += e.cx[i] * a * sinl(q) + e.cv[i] * a * w[i] * cosl(q); d += e.cx[i] * a * w[i] * cosl(q) - e.cv[i] * a * w[i] * w[i] * sinl(q); } if (dg) *dg = d; return s; }
  Vector<Real> x0(double t) const { Vector<Real> x(2 * m); for (int i = 0; i < m; i++) { x[i] = (double)((L)A[i] * sinl((L)w[i] * t + p[i])); x[m + i] = (double)((L)A[i] * w[i] * cosl((L)w[i] * t + p[i])); } return x; } };
struct Cr { L t; int k; bool inc; };
// true crossings from the closed form; false when some crossing is too nearly tangent to be decided
static bool truth(const Osc& S, double t0, double t1, std::vector<Cr>& out) { for (int k = 0; k < (int)S.ev.size(); k++) { L h = .002L, a = t0, ga, da; ga = S.g(k, a, &da); if (fabsl(ga) < 2e-3L) return false; while (a < t1) { L b = std::min<L>(a + h, t1), gb, db; gb = S.g(k, b, &db); if (da * db < 0 && std::min(fabsl(ga), fabsl(gb)) < 4e-3L) return false; if ((ga < 0) != (gb < 0)) { L lo = a, hi = b, gl = ga; for (int q = 0; q < 70; q++) { L mid = (lo + hi) / 2, gm = S.g(k, mid); if ((gm < 0) == (gl < 0)) lo = mid; else hi = mid; } bool inc = (gb > ga) == (S.ev[k].sc > 0); auto d = S.ev[k].d; if (d == EventDirection::Both || (d == EventDirection::Increasing) == inc) out.push_back({lo, k, inc}); } a = b; ga = gb; da = db; } if (fabsl(ga) < 2e-3L) return false; } std::sort(out.begin(), out.end(), [](const Cr& x, const Cr& y) { return x.t < y.t; }); return true; }
static void mk(mon::Rng& r, Osc& S, int ne) { S.m = (int)r.i(1, 3); for (int i = 0; i < S.m; i++) { S.w.push_back(r.uni(.4, 3)); S.A.push_back(r.uni(.4, 2)); S.p.push_back(r.uni(0, 6.28)); } for (int k = 0; k < ne; k++) { Osc::E e; e.cx.assign(S.m, 0); e.cv = e.cx; e.ct = 0; e.c0 = 0; e.sc = r.coin(.6) ? 1 : r.logmag(-4, 7); if (r.coin(.5)) e.sc = -e.sc; int kind = (int)r.i(0, 3); if (kind == 0) { e.cx[r.i(0, S.m - 1)] = 1; e.c0 = r.uni(-.6, .6); } else if (kind == 1) { e.cv[r.i(0, S.m - 1)] = 1; e.c0 = r.uni(-.6, .6); } else if (kind == 2) { e.ct = 1; e.c0 = -r.uni(-1, 6); } else { for (auto& v : e.cx) v = r.uni(-1, 1); for (auto& v : e.cv) v = r.uni(-.5, .5); e.ct = r.uni(-.2, .2); e.c0 = r.uni(-.5, .5); } e.d = r.pick({EventDirection::Both, EventDirection::Increasing, EventDirection::Decreasing}); e.a = EventAction::Continue; S.ev.push_back(e); } }
static void lg(mon::Case& c, const Osc& S) { c.in("w", S.w); c.in("A", S.A); c.in("p", S.p); for (auto& e : S.ev) { c.in("cx", e.cx); c.in("cv", e.cv); c.in("e", VD{e.ct, e.c0, e.sc, (double)(int)e.d, (double)(int)e.a}); } }
template <class St> static void osc(mon::Case& c, const std::string& key) { auto& r = c.r; Osc S; mk(r, S, (int)r.i(1, 4)); bool anyStop = false, anyRestart = false; if (r.coin(.6)) for (auto& e : S.ev) { double u = r.u01(); e.a = u < .2 ? EventAction::Stop : u < .6 ? EventAction::Restart : EventAction::Continue; anyStop |= u < .2; anyRestart |= u >= .2 && u < .6; } double t0 = r.uni(-1, 1), t1 = t0 + r.uni(.5, 6), eps = std::pow(10, -r.uni(8, 11)), iv = (t1 - t0) / r.uni(1, 20); lg(c, S); c.in("t", VD{t0, t1}); c.in("eps", eps); c.in("interval", iv); std::vector<Cr> T; if (!truth(S, t0, t1, T)) { c.trivial(); return; }
  ODEEventDetectionIntegrator<St> in(S); Vector<Real> xi = S.x0(t0); EventResult R(0, 1, 1, 0); double etol = 1e-12; if (!c.nothrow([&] { R = in.integrateWithEvents(S, xi, t0, t1, iv, eps, etol); }, (key + "_failed").c_str())) return; double hm = in.getStatistics().maxStepSize; c.maxi((key + " max step").c_str(), hm);
  // crossings closer together than a step cannot be told apart by any sampling detector
  for (size_t i = 0; i < T.size(); i++) for (size_t j = i + 1; j < T.size(); j++) if (T[j].k == T[i].k && T[j].t - T[i].t < 2.2 * hm && !(anyStop && T[i].k == T[j].k && 0)) { c.ev("too_close"); c.trivial(); return; } { Osc S2 = S; for (auto& e : S2.ev) e.d = EventDirection::Both; std::vector<Cr> U; if (!truth(S2, t0, t1, U)) { c.trivial(); return; } for (size_t i = 0; i < U.size(); i++) for (size_t j = i + 1; j < U.size(); j++) if (U[j].t - U[i].t < (U[j].k == U[i].k ? 2.2 * hm : 1e-5)) { c.ev("too_close"); c.trivial(); return; } }
  L W = 1, AA = 0; for (int i = 0; i < S.m; i++) { W = std::max<L>(W, S.w[i]); AA += S.A[i] * (1 + S.w[i]); } L herm = powl(hm, 4) / 384 * powl(W, 4) * AA * 4 + eps * AA * (in.getStatistics().acceptedSteps + 3) * 30 + 1e-12L * AA;
  std::vector<Cr> W2; bool stop = false; for (auto& q : T) { W2.push_back(q); if (S.ev[q.k].a == EventAction::Stop) { stop = true; break; } } c.ev("osc"); if (stop) c.ev("stop"); if (anyRestart) c.ev("restart_noop"); c.ev("crossings", (long)W2.size());
  std::string got = std::to_string(R.events.size()) + " events, expected " + std::to_string(W2.size()); if (!c.check(R.events.size() == W2.size(), key + (R.events.size() < W2.size() ? "_event_missed" : "_event_extra"), got)) return;
  size_t restarts = 0; for (size_t i = 0; i < W2.size(); i++) { auto& e = R.events[i]; c.check(e.eventIndex == W2[i].k, key + "_event_order"); if (e.eventIndex != W2[i].k) return; L dg; S.g(W2[i].k, W2[i].t, &dg); L gx = 0; for (int q = 0; q < S.m; q++) gx += fabsl((L)S.ev[W2[i].k].cx[q]) + fabsl((L)S.ev[W2[i].k].cv[q]); L tt = herm * (gx + fabsl((L)S.ev[W2[i].k].ct)) / fabsl(dg) + 3e-12L + etol / fabsl(dg * S.ev[W2[i].k].sc); if (fabsl(dg) < .02L) continue; c.maxi((key + " event time").c_str(), (double)(fabsl(e.time - W2[i].t) / tt)); c.check(fabsl(e.time - W2[i].t) <= tt * 1.5L, key + "_event_time", [&] { char b[99]; snprintf(b, 99, "off by %Lg tol %Lg", fabsl(e.time - W2[i].t), tt); return std::string(b); }); c.check((e.direction == EventDirection::Increasing) == W2[i].inc, key + "_event_direction"); if (i) c.check(e.time >= R.events[i - 1].time, key + "_events_not_chronological");
    c.check(e.eventValue == S.eventFunction(e.eventIndex, e.time, e.state), key + "_event_value_of_state"); c.check(std::fabs(e.eventValue) <= 1e-11 * std::fabs(S.ev[e.eventIndex].sc) * (double)(gx * AA * W + 2) + 2e-12, key + "_event_value_not_zero", [&] { return std::to_string(e.eventValue); }); VL ex = ode::toL(VD(2 * S.m)); auto xs = S.x0(e.time); L d = 0; for (int q = 0; q < 2 * S.m; q++) d = std::max(d, fabsl((L)xs[q] - e.state[q])); c.check(d <= herm * (W + 1), key + "_event_state"); if (S.ev[e.eventIndex].a == EventAction::Restart) restarts++; }
  c.check((size_t)S.handled == restarts, key + "_handler_calls"); c.check(R.terminatedByEvent == stop, key + "_terminated_flag"); double tf = stop ? R.events.back().time : t1; c.check(R.finalTime == tf, key + "_final_time"); { auto xs = S.x0(tf); L d = 0; for (int q = 0; q < 2 * S.m; q++) d = std::max(d, fabsl((L)xs[q] - R.finalState[q])); c.check(d <= herm * (W + 1), key + "_final_state"); }
  // saved output: the regular grid up to the final time, on the trajectory
  auto& sol = R.solution; int n = sol.size(); double q = (t1 - t0) / iv; int full = (int)std::ceil(q - 1e-9 * q) + 1; int want = stop ? 0 : full; if (stop) { while (want < full - 1 && t0 + want * iv <= tf) want++; c.check(std::abs(n - want) <= (std::fabs(tf - (t0 + want * iv)) < 1e-9 || std::fabs(tf - (t0 + (want - 1) * iv)) < 1e-9), key + "_stopped_output_count"); } else { c.check(n == full && sol.getTValue(n - 1) == t1, key + "_output_count", [&] { return std::to_string(n) + " want " + std::to_string(full); }); } c.check(sol.getTValues().size() == n, key + "_bulk_padding"); for (int k = 0; k < n; k++) { double tk = sol.getTValue(k); if (k < full - 1) c.check(std::fabs(tk - (t0 + k * iv)) < 1e-12, key + "_output_times"); auto xs = S.x0(tk); L d = 0; for (int i = 0; i < 2 * S.m; i++) d = std::max(d, fabsl((L)xs[i] - sol.getXValue(k, i))); c.check(d <= herm * (W + 1), key + "_output_values"); }
  for (int i = 0; i < 2 * S.m; i++) c.check(xi[i] == S.x0(t0)[i], key + "_initial_state_modified"); c.check(in.getStatistics().totalFuncEvals == S.calls, key + "_evaluation_count"); }
FAMILY(oscillators, 900) { int k = (int)c.r.i(0, 3); c.in("stepper", NM[k]); disp(k, [&](auto* s) { osc<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// bouncing ball with restitution: bounce times and peak states are a closed form; restarts change the state
struct Ball : IODESystemWithEvents { double g, rest, vx; int walls = 1; double xl, xr; mutable int bounces = 0; EventDirection dir = EventDirection::Decreasing; int getDim() const override { return 2; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& d) const override { d[0] = x[1]; d[1] = -g; } int getNumEvents() const override { return 2; } Real eventFunction(int k, Real, const Vector<Real>& x) const override { return k == 0 ? x[0] : x[1]; } EventDirection getEventDirection(int) const override { return dir; } EventAction getEventAction(int k) const override { return k == 0 ? EventAction::Restart : EventAction::Continue; } void handleEvent(int, Real, Vector<Real>& x) const override { bounces++; x[1] = -rest * x[1]; if (walls) x[0] = 0; } };
template <class St> static void ball(mon::Case& c, const std::string& key) { auto& r = c.r; Ball B; B.g = r.uni(2, 12); B.rest = r.uni(.6, 1); B.walls = r.coin(.5); double h0 = r.uni(.5, 4), v0 = r.uni(-3, 3); int nb = (int)r.i(1, 6); c.in("g", B.g); c.in("rest", B.rest); c.in("clamp", B.walls); c.in("h0", h0); c.in("v0", v0); L t = ((L)v0 + sqrtl((L)v0 * v0 + 2 * (L)B.g * h0)) / B.g, v = sqrtl((L)v0 * v0 + 2 * (L)B.g * h0); std::vector<L> bt, at; if (v0 > 0) at.push_back(v0 / (L)B.g); for (int k = 0; k < nb; k++) { bt.push_back(t); v *= B.rest; at.push_back(t + v / B.g); t += 2 * v / B.g; } double te = (double)(bt.back() + v / B.g * r.uni(.2, .8)); while (!at.empty() && at.back() > te) at.pop_back(); if (r.coin(.5)) B.dir = EventDirection::Both; bool both = B.dir == EventDirection::Both;
  ODEEventDetectionIntegrator<St> in(B); EventResult R(0, 1, 1, 0); if (!c.nothrow([&] { R = in.integrateWithEvents(B, toV({h0, v0}), 0, te, te / 7, 1e-10); }, (key + "_ball_failed").c_str())) return; std::vector<double> gb, ga; for (auto& e : R.events) { if (e.eventIndex == 0) gb.push_back(e.time); else { c.check(e.direction == EventDirection::Decreasing || both, key + "_apex_direction"); if (e.direction == EventDirection::Decreasing) ga.push_back(e.time); } } c.ev("ball"); c.ev("bounces", (long)bt.size()); c.check(gb.size() == bt.size() && B.bounces == (int)bt.size(), key + "_bounce_count", [&] { return std::to_string(gb.size()) + " want " + std::to_string(bt.size()); }); c.check(ga.size() == at.size(), key + "_apex_count", [&] { return std::to_string(ga.size()) + " want " + std::to_string(at.size()); }); for (size_t k = 0; k < std::min(gb.size(), bt.size()); k++) c.close(gb[k], (double)bt[k], 1e-8 * 10, key + "_bounce_time"); for (size_t k = 0; k < std::min(ga.size(), at.size()); k++) c.close(ga[k], (double)at[k], 1e-7, key + "_apex_time"); for (size_t k = 1; k < R.events.size(); k++) c.check(R.events[k].time >= R.events[k - 1].time, key + "_events_not_chronological"); L dt = te - bt.back(); c.close(R.finalState[0], (double)(v * dt - B.g * dt * dt / 2), 1e-6, key + "_ball_final_height"); c.close(R.finalState[1], (double)(v - B.g * dt), 1e-6, key + "_ball_final_speed"); c.check(R.finalTime == te && !R.terminatedByEvent, key + "_ball_final_time"); }
FAMILY(bouncing_ball, 300) { int k = (int)c.r.i(0, 3); c.in("stepper", NM[k]); disp(k, [&](auto* s) { ball<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
// hysteresis relay: a restart event flips the regime; switching times are a closed form
struct Relay : IODESystemWithEvents { double up, down, rate, lo, hi; mutable int mode = 1; int getDim() const override { return 1; } void derivs(const Real, const Vector<Real>&, Vector<Real>& d) const override { d[0] = mode ? up : -down; } int getNumEvents() const override { return 2; } Real eventFunction(int k, Real, const Vector<Real>& x) const override { return k == 0 ? x[0] - hi : x[0] - lo; } EventDirection getEventDirection(int k) const override { return k == 0 ? EventDirection::Increasing : EventDirection::Decreasing; } EventAction getEventAction(int) const override { return EventAction::Restart; } void handleEvent(int k, Real, Vector<Real>&) const override { mode = k == 1; } };
template <class St> static void relay(mon::Case& c, const std::string& key) { auto& r = c.r; Relay S; S.up = r.uni(.3, 4); S.down = r.uni(.3, 4); S.lo = r.uni(-1, 0); S.hi = S.lo + r.uni(.5, 2); double x0 = r.uni(S.lo + .05, S.hi - .05); std::vector<double> T; double t = (S.hi - x0) / S.up; int n = (int)r.i(1, 6); for (int k = 0; k < n; k++) { T.push_back(t); t += (S.hi - S.lo) / (k & 1 ? S.up : S.down); } double te = T.back() + (t - T.back()) * r.uni(.1, .9); c.in("p", VD{S.up, S.down, S.lo, S.hi, x0, te}); ODEEventDetectionIntegrator<St> in(S); EventResult R(0, 1, 1, 0); if (!c.nothrow([&] { R = in.integrateWithEvents(S, toV({x0}), 0, te, te / 5); }, (key + "_relay_failed").c_str())) return; c.ev("relay"); if (!c.check(R.events.size() == T.size(), key + "_relay_switches", [&] { return std::to_string(R.events.size()) + " want " + std::to_string(T.size()); })) return; for (size_t k = 0; k < T.size(); k++) { c.close(R.events[k].time, T[k], 1e-9, key + "_relay_time"); c.check(R.events[k].eventIndex == (int)(k & 1), key + "_relay_order"); } }
FAMILY(hysteresis_relay, 200) { int k = (int)c.r.i(0, 3); c.in("stepper", NM[k]); disp(k, [&](auto* s) { relay<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
FAMILY(bad_input, 100) { auto& r = c.r; Osc S; mk(r, S, 2); ODEEventDetectionIntegrator<> in(S); auto x = S.x0(0); c.ev("bad_input"); c.throws<ODESolverError>([&] { in.integrateWithEvents(S, x, 0, 1, r.pick({0.0, -1.0, (double)NAN})); }, "event_bad_interval"); c.throws<ODESolverError>([&] { in.integrateWithEvents(S, x, 1, 0, .1); }, "event_end_before_start"); c.throws<MMLException>([&] { in.integrateWithEvents(S, Vector<Real>(2 * S.m - 1), 0, 1, .1); }, "event_dimension"); auto e = in.integrateWithEvents(S, x, 1, 1, .1); c.check(e.events.empty() && e.finalTime == 1 && !e.terminatedByEvent && e.solution.size() == 1, "event_empty_interval"); Osc N = S; N.ev.clear(); auto q = in.integrateWithEvents(N, x, 0, 1, .25); c.check(q.events.empty() && q.solution.size() == 5 && q.finalTime == 1, "no_events"); }
// billiard in a box whose walls are hit at the same instant: every simultaneous event is recorded and handled once
struct Box : IODESystemWithEvents { int m; VD sc; bool clamp; int mon = -1; EventDirection dir; double msc = 1; mutable std::vector<long> hits; int stopAt = -1; int getDim() const override { return 2 * m; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& d) const override { for (int i = 0; i < m; i++) { d[i] = x[m + i]; d[m + i] = 0; } } int getNumEvents() const override { return 2 * m + (mon >= 0 ? 1 : 0); }
  int map(int k) const { if (mon < 0 || k < mon) return k; return k == mon ? -1 : k - 1; } Real eventFunction(int k, Real, const Vector<Real>& x) const override { k = map(k); if (k < 0) return msc * (x[0] - 1); return sc[k] * (k & 1 ? x[k / 2] + 1 : x[k / 2] - 1); } EventDirection getEventDirection(int k) const override { k = map(k); if (k < 0) return dir == EventDirection::Both ? dir : msc > 0 ? EventDirection::Increasing : EventDirection::Decreasing; return dir == EventDirection::Both ? dir : (sc[k] > 0) != (bool)(k & 1) ? EventDirection::Increasing : EventDirection::Decreasing; } EventAction getEventAction(int k) const override { return map(k) < 0 ? (stopAt >= 0 ? EventAction::Stop : EventAction::Continue) : EventAction::Restart; } void handleEvent(int k, Real, Vector<Real>& x) const override { k = map(k); hits[k]++; x[m + k / 2] = k & 1 ? std::fabs(x[m + k / 2]) : -std::fabs(x[m + k / 2]); if (clamp) x[k / 2] = k & 1 ? -1 : 1; } };
template <class St> static void box(mon::Case& c, const std::string& key) { auto& r = c.r; Box B; B.m = (int)r.i(1, 3); B.clamp = r.coin(.5); for (int k = 0; k < 2 * B.m; k++) B.sc.push_back((r.coin(.5) ? 1 : -1) * (r.coin(.5) ? 1 : r.logmag(-2, 3))); B.dir = r.coin(.3) ? EventDirection::Both : EventDirection::Increasing; B.hits.assign(2 * B.m, 0); if (r.coin(.6)) { B.mon = (int)r.i(0, 2 * B.m); B.msc = r.coin(.5) ? 1 : -1; B.sc[0] = r.coin(.5) ? 1 : -1; if (r.coin(.2)) B.stopAt = 1; } double v = r.uni(.3, 2); VD x0(2 * B.m, 0.0), sp; for (int i = 0; i < B.m; i++) { sp.push_back(v * r.pick({1.0, 1.0, 3.0, 5.0, 2.0}) * (r.coin(.5) ? 1 : -1)); x0[B.m + i] = sp[i]; } double T = (r.i(1, 12) + r.uni(.1, .9)) / (v * 5); for (double w : sp) { double q = (std::fabs(w) * T + 1) / 2; if (std::fabs(q - std::round(q)) < 1e-3) { c.trivial(); return; } } c.in("v", sp); c.in("scale", B.sc); c.in("monitor", B.mon); c.in("mscale", B.msc); c.in("clamp", B.clamp); c.in("both", (int)B.dir); c.in("T", T); c.in("stop", B.stopAt);
  auto side = [&](int i, bool right, double t) { long n = (long)std::floor((std::fabs(sp[i]) * t + 1) / 2); bool first = sp[i] > 0; return right == first ? (n + 1) / 2 : n / 2; }; double tf = T; bool stop = false; if (B.stopAt >= 0 && side(0, true, T) > 0) { stop = true; tf = sp[0] > 0 ? 1 / sp[0] : -3 / sp[0]; }
  ODEEventDetectionIntegrator<St> in(B); EventResult R(0, 1, 1, 0); if (!c.nothrow([&] { R = in.integrateWithEvents(B, toV(x0), 0, T, T / 5, 1e-10); }, (key + "_box_failed").c_str())) return; c.ev("box"); if (stop) c.ev("box_stop"); c.check(R.terminatedByEvent == stop, key + "_box_terminated"); c.close(R.finalTime, tf, 1e-9, key + "_box_final_time"); std::vector<long> ev(B.getNumEvents(), 0); double last = 0; long same = 0; for (size_t q = 0; q < R.events.size(); q++) { auto& e = R.events[q]; ev[e.eventIndex]++; c.check(e.time >= last, key + "_events_not_chronological"); if (q && e.time - last < 1e-9) same++; last = e.time; c.check(e.eventValue == B.eventFunction(e.eventIndex, e.time, e.state), key + "_event_value_of_state"); int k = B.map(e.eventIndex); double w = k < 0 ? std::fabs(B.msc) : std::fabs(B.sc[k]); c.check(std::fabs(e.eventValue) <= w * 1e-9 + 1e-11, key + "_event_value_not_zero"); c.check((e.direction == EventDirection::Increasing) == (k < 0 ? B.msc > 0 : (B.sc[k] > 0) != (bool)(k & 1)), key + "_event_direction"); }
  c.ev("simultaneous_events", same); double tc = stop ? tf - 1e-6 : tf; for (int k = 0; k < B.getNumEvents(); k++) { int q = B.map(k); int w = q < 0 ? 0 : q; long want = side(w / 2, !(w & 1), tc), hi = side(w / 2, !(w & 1), tf + (stop ? 1e-6 : 0)); if (q < 0 && stop) want = hi = 1; c.check(ev[k] >= want && ev[k] <= hi, key + "_simultaneous_event_count", [&] { return std::to_string(ev[k]) + " want " + std::to_string(want); }); if (q >= 0) c.check(B.hits[q] == ev[k], key + "_handler_calls"); }
  for (int i = 0; i < B.m; i++) { double u = std::fmod(std::fabs(sp[i]) * tf + 1, 4), x = u <= 2 ? u - 1 : 3 - u; if (sp[i] < 0) x = -x; c.close(R.finalState[i], x, 1e-7, key + "_box_position"); if (!stop) { double vv = (u <= 2 ? 1 : -1) * sp[i]; c.close(R.finalState[B.m + i], vv, 1e-9, key + "_box_velocity"); } } auto& sol = R.solution; for (int q = 0; q < sol.size(); q++) for (int i = 0; i < B.m; i++) { double u = std::fmod(std::fabs(sp[i]) * sol.getTValue(q) + 1, 4), x = u <= 2 ? u - 1 : 3 - u; if (sp[i] < 0) x = -x; c.close(sol.getXValue(q, i), x, 1e-7, key + "_box_output"); } }
FAMILY(corner_billiard, 400) { int k = (int)c.r.i(0, 3); c.in("stepper", NM[k]); disp(k, [&](auto* s) { box<std::remove_pointer_t<decltype(s)>>(c, NM[k]); }); }
MON_MAIN()
