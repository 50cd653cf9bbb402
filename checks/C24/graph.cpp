// C24: graph container and algorithms against brute-force references on random small graphs
#include "mon.h"
#include "mml/base/Graph.h"
#include "mml/algorithms/GraphAlgorithms.h"
#include "mml/algorithms/GraphSpectral.h"
#include <set>
#include <map>
using namespace MML; typedef Graph<int, Real> G; typedef std::vector<double> VD; typedef std::vector<size_t> VS;
static const double INF = std::numeric_limits<double>::infinity(); static const size_t NF = GRAPH_NOT_FOUND;
// reference: adjacency map
struct Ref { bool dir; std::vector<std::map<size_t, double>> a; size_t n() const { return a.size(); } };
struct Pair { G g; Ref r; };
// kinds: sparse, dense, disconnected clusters, tree-like, bipartite, layered; integer weights so that sums are exact
static Pair gen(mon::Case& c, int n, bool dir, int wlo, int whi, bool loops = false) { auto& r = c.r; Pair p{G(n, dir ? G::Type::Directed : G::Type::Undirected, loops), {dir, std::vector<std::map<size_t, double>>(n)}}; int kind = (int)r.i(0, 5); double pr = r.pick({.05, .15, .3, .6, 1.}); std::vector<int> grp(n), pos(n); for (int i = 0; i < n; i++) { grp[i] = (int)r.i(0, 2); pos[i] = i; } r.shuffle(pos); VD flat; std::vector<std::pair<int, int>> es; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j && !(loops && r.coin(.3))) continue; if (!dir && j < i) continue; bool e = r.coin(pr); if (kind == 2) e = e && grp[i] == grp[j]; if (kind == 3) e = (pos[j] == (pos[i] + 1)) || (!dir && pos[i] == pos[j] + 1) || (r.coin(.05)); if (kind == 4) e = e && grp[i] % 2 != grp[j] % 2; if (kind == 5) e = e && pos[i] < pos[j]; if (i == j) e = loops; if (e) es.push_back({i, j}); } r.shuffle(es); for (auto& e : es) { int i = e.first, j = e.second; if (!dir && r.coin()) std::swap(i, j); double w = (double)r.i(wlo, whi); p.g.addEdge(i, j, w); p.r.a[i][j] = w; if (!dir) p.r.a[j][i] = w; flat.push_back(i); flat.push_back(j); flat.push_back(w); } c.in("n", n); c.in("directed", (int)dir); c.in("edges", flat); return p; }
static void agree(mon::Case& c, const G& g, const Ref& f) { size_t n = f.n(), m = 0; if (!c.check(g.numVertices() == n, "num_vertices")) return; for (size_t i = 0; i < n; i++) { std::set<size_t> s; for (auto& e : g.neighbors(i)) { c.check(s.insert(e.to).second, "duplicate_neighbor"); auto it = f.a[i].find(e.to); c.check(it != f.a[i].end() && it->second == e.weight, "neighbor"); } c.check(s.size() == f.a[i].size() && g.degree(i) == s.size() && g.outDegree(i) == s.size(), "degree"); size_t in = 0; for (size_t j = 0; j < n; j++) { bool h = f.a[i].count(j); c.check(g.hasEdge(i, j) == h, "has_edge"); if (h) { c.check(g.edgeWeight(i, j) == f.a[i].at(j), "edge_weight"); m += f.dir || j >= i; } else c.throws<std::invalid_argument>([&] { g.edgeWeight(i, j); }, "missing_edge_weight"); in += f.a[j].count(i); } c.check(g.inDegree(i) == in, "in_degree"); } c.check(g.numEdges() == m, "num_edges"); c.check(g.isDirected() == f.dir && g.isUndirected() != f.dir && g.isEmpty() == (n == 0), "kind"); }
FAMILY(editing, 400) { auto& r = c.r; bool dir = r.coin(), loops = r.coin(.3); G g(dir ? G::Type::Directed : G::Type::Undirected, loops); Ref f{dir, {}}; std::vector<int> data; int steps = (int)r.i(5, 60); c.in("directed", (int)dir); c.in("loops", (int)loops); c.in("steps", steps); for (int s = 0; s < steps; s++) { int op = f.n() < 2 ? 0 : (int)r.i(0, 9); size_t n = f.n(); if (op <= 1 && n < 9) { int d = (int)r.i(-99, 99); size_t id = g.addVertex(d); c.check(id == n, "add_vertex_id"); f.a.push_back({}); data.push_back(d); } else if (op <= 6) { size_t i = r.i(0, n - 1), j = r.i(0, n - 1); double w = (double)r.i(-3, 9); bool dup = f.a[i].count(j); if ((i == j && !loops) || dup) { c.throws<std::invalid_argument>([&] { g.addEdge(i, j, w); }, dup ? "duplicate_edge" : "self_loop"); c.ev("rejected_edge"); } else { g.addEdge(i, j, w); f.a[i][j] = w; if (!dir) f.a[j][i] = w; } } else if (op <= 8) { size_t i = r.i(0, n - 1), j = r.i(0, n - 1); bool h = f.a[i].count(j); c.check(g.removeEdge(i, j) == h, "remove_edge"); f.a[i].erase(j); if (!dir) f.a[j].erase(i); if (h) c.ev("removed_edge"); } else { size_t b = n + r.i(0, 3), i = r.i(0, n - 1); c.throws<std::out_of_range>([&] { g.addEdge(i, b); }, "bad_vertex"); c.throws<std::out_of_range>([&] { g.addEdge(b, i); }, "bad_vertex"); c.throws<std::out_of_range>([&] { g.neighbors(b); }, "bad_vertex"); c.throws<std::out_of_range>([&] { g.degree(b); }, "bad_vertex"); c.throws<std::out_of_range>([&] { g.inDegree(b); }, "bad_vertex"); c.throws<std::out_of_range>([&] { g.vertexData(b); }, "bad_vertex"); c.throws<std::out_of_range>([&] { g.edgeWeight(i, b); }, "bad_vertex"); c.check(!g.hasEdge(i, b) && !g.hasEdge(b, i) && !g.removeEdge(i, b) && !g.removeEdge(b, i), "bad_vertex_query"); c.check(BFS(g, b).visitOrder.empty() && DFS(g, b).visitOrder.empty() && Dijkstra(g, b).distance.empty() && !DijkstraPath(g, b, i).found && !DijkstraPath(g, i, b).found && !ShortestPathUnweighted(g, i, b).found && !HasNegativeCycle(g, b), "bad_vertex_search"); } if (r.coin(.3) || s == steps - 1) { agree(c, g, f); for (size_t i = 0; i < f.n(); i++) c.check(g.vertexData(i) == data[i], "vertex_data"); c.ev("editing"); } } g.clear(); c.check(g.isEmpty() && g.numEdges() == 0, "clear"); }
static std::vector<VD> fw(const Ref& f, bool unit) { size_t n = f.n(); std::vector<VD> d(n, VD(n, INF)); for (size_t i = 0; i < n; i++) { d[i][i] = 0; for (auto& e : f.a[i]) d[i][e.first] = std::min(d[i][e.first], unit ? (i == e.first ? 0. : 1.) : e.second); } for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j]; return d; }
static void path(mon::Case& c, const Ref& f, const VS& p, size_t s, size_t t, double want, bool unit, const std::string& k) { if (!c.check(!p.empty() && p.front() == s && p.back() == t, k + "_ends")) return; double w = 0; for (size_t i = 0; i + 1 < p.size(); i++) { auto it = p[i] < f.n() ? f.a[p[i]].find(p[i + 1]) : f.a[0].end(); if (!c.check(p[i] < f.n() && it != f.a[p[i]].end(), k + "_edge")) return; w += unit ? 1 : it->second; } c.check(w == want, k + "_cost"); std::set<size_t> q(p.begin(), p.end()); c.check(q.size() == p.size(), k + "_simple"); }
FAMILY(traversal, 900) { auto& r = c.r; int n = (int)r.i(1, 14); bool dir = r.coin(); Pair p = gen(c, n, dir, 1, 1, r.coin(.15)); auto D = fw(p.r, true); size_t s = r.i(0, n - 1); auto b = BFS(p.g, s); size_t reach = 0; c.ev("traversal"); for (int v = 0; v < n; v++) reach += D[s][v] < INF; c.check(b.nodesVisited == reach && b.visitOrder.size() == reach, "bfs_count"); double last = 0; std::set<size_t> seen; for (size_t v : b.visitOrder) { c.check(seen.insert(v).second && D[s][v] < INF && D[s][v] >= last, "bfs_order"); last = D[s][v]; } for (int v = 0; v < n; v++) { c.check(b.distance[v] == D[s][v], "bfs_distance"); if ((size_t)v == s || D[s][v] == INF) c.check(b.parent[v] == NF, "bfs_no_parent"); else c.check(b.parent[v] < (size_t)n && p.r.a[b.parent[v]].count(v) && D[s][b.parent[v]] + 1 == D[s][v], "bfs_parent"); }
	VS vo; BFSVisit(p.g, s, [&](size_t v) { vo.push_back(v); return true; }); c.check(vo == b.visitOrder, "bfs_visit"); size_t stop = r.i(1, reach); vo.clear(); BFSVisit(p.g, s, [&](size_t v) { vo.push_back(v); return vo.size() < stop; }); c.check(vo == VS(b.visitOrder.begin(), b.visitOrder.begin() + stop), "bfs_visit_stop");
	auto d = DFS(p.g, s); c.check(d.nodesVisited == reach && d.visitOrder.size() == reach && d.parent[s] == NF && d.distance[s] == 0, "dfs_count"); std::vector<char> vis(n); VS stk; bool ok = true; for (size_t i = 0; i < d.visitOrder.size() && ok; i++) { size_t v = d.visitOrder[i]; if (i == 0) { ok = v == s; } else { while (!stk.empty()) { bool open = false; for (auto& e : p.r.a[stk.back()]) open |= !vis[e.first]; if (open) break; stk.pop_back(); } ok = !stk.empty() && !vis[v] && p.r.a[stk.back()].count(v); if (!c.check(ok, "dfs_order")) break; c.check(d.parent[v] == stk.back(), "dfs_parent"); c.check(d.distance[v] == (double)stk.size(), "dfs_depth"); } vis[v] = 1; stk.push_back(v); } c.check(ok, "dfs_order"); for (int v = 0; v < n; v++) if (D[s][v] == INF) c.check(d.parent[v] == NF && d.distance[v] == INF, "dfs_unreached"); vo.clear(); DFSVisit(p.g, s, [&](size_t v) { vo.push_back(v); return true; }); c.check(vo == d.visitOrder, "dfs_visit"); vo.clear(); DFSVisit(p.g, s, [&](size_t v) { vo.push_back(v); return vo.size() < stop; }); c.check(vo == VS(d.visitOrder.begin(), d.visitOrder.begin() + stop), "dfs_visit_stop");
	for (int t = 0; t < n; t++) { auto q = ShortestPathUnweighted(p.g, s, t); c.check(q.found == (D[s][t] < INF), "unweighted_found"); if (q.found) { c.check(q.totalWeight == D[s][t], "unweighted_weight"); path(c, p.r, q.path, s, t, D[s][t], true, "unweighted"); c.check(ReconstructPath(b.parent, s, t) == q.path || (size_t)t == s, "reconstruct"); } else c.check(q.path.empty() && ReconstructPath(b.parent, s, t).empty(), "unweighted_none"); }
	if (!dir) { auto k = ConnectedComponents(p.g); std::set<size_t> all; size_t cnt = 0; for (int v = 0; v < n; v++) { for (int u = 0; u < n; u++) c.check((k.componentId[u] == k.componentId[v]) == (D[u][v] < INF), "component_id"); bool first = true; for (int u = 0; u < v; u++) first &= D[u][v] == INF; cnt += first; } c.check(k.numComponents == cnt && k.components.size() == cnt, "component_count"); for (size_t q = 0; q < k.components.size(); q++) for (size_t v : k.components[q]) c.check(all.insert(v).second && k.componentId[v] == q, "component_list"); c.check(all.size() == (size_t)n, "component_list"); c.check(IsConnected(p.g) == (cnt == 1) && IsConnectedSpectral(p.g) == (cnt == 1), "is_connected"); c.ev(cnt > 1 ? "disconnected" : "connected"); } }
FAMILY(shortest, 900) { auto& r = c.r; int n = (int)r.i(1, 12); bool dir = r.coin(); Pair p = gen(c, n, dir, r.coin(.3) ? 0 : 1, r.pick({2, 10, 1000})); auto D = fw(p.r, false); size_t s = r.i(0, n - 1); auto d = Dijkstra(p.g, s); auto b = BellmanFord(p.g, s); c.ev("shortest"); if (!c.check(d.distance.size() == (size_t)n && b.distance.size() == (size_t)n, "distance_size")) return; c.check(!HasNegativeCycle(p.g, s), "no_negative_cycle"); size_t reach = 0; for (int t = 0; t < n; t++) { reach += D[s][t] < INF; c.check(d.distance[t] == D[s][t], "dijkstra"); c.check(b.distance[t] == D[s][t], "bellman_ford"); auto q = DijkstraPath(p.g, s, t); c.check(q.found == (D[s][t] < INF), "dijkstra_path_found"); if (q.found) { c.check(q.totalWeight == D[s][t], "dijkstra_path_weight"); path(c, p.r, q.path, s, t, D[s][t], false, "dijkstra_path"); path(c, p.r, ReconstructPath(d.parent, s, t), s, t, D[s][t], false, "dijkstra_tree"); path(c, p.r, ReconstructPath(b.parent, s, t), s, t, D[s][t], false, "bellman_tree"); c.ev("paths"); } else { c.check(q.path.empty() && !q.diagnostics.empty(), "dijkstra_path_none"); c.check(ReconstructPath(d.parent, s, t).empty(), "dijkstra_tree_none"); c.ev("unreachable"); } } c.check(d.nodesVisited == reach && b.nodesVisited == reach, "nodes_visited"); }
FAMILY(negative, 700) { auto& r = c.r; int n = (int)r.i(1, 10); Pair p = gen(c, n, true, r.pick({-1, -2, -5}), r.pick({4, 8, 20}), r.coin(.1)); auto D = fw(p.r, false); size_t s = r.i(0, n - 1); bool neg = false, anyneg = false; for (int v = 0; v < n; v++) neg |= D[s][v] < INF && D[v][v] < 0; for (int v = 0; v < n; v++) if (D[s][v] < INF) for (auto& e : p.r.a[v]) anyneg |= e.second < 0; auto b = BellmanFord(p.g, s); c.check(HasNegativeCycle(p.g, s) == neg, "has_negative_cycle"); if (neg) { c.check(b.distance.empty() && b.parent.empty(), "negative_cycle_result"); c.ev("negative_cycle"); } else { c.ev("negative_weights"); if (c.check(b.distance.size() == (size_t)n, "bellman_size")) for (int t = 0; t < n; t++) { c.check(b.distance[t] == D[s][t], "bellman_negative"); if (D[s][t] < INF) path(c, p.r, ReconstructPath(b.parent, s, t), s, t, D[s][t], false, "bellman_negative_tree"); } }
	if (anyneg) { c.throws<std::invalid_argument>([&] { Dijkstra(p.g, s); }, "dijkstra_negative_weight"); } c.check(!HasNegativeCycle(p.g, n + 2), "negative_cycle_bad_start"); }
FAMILY(topo, 700) { auto& r = c.r; int n = (int)r.i(0, 12); bool dir = !r.coin(.1); Pair p = gen(c, n, dir, 1, 3, r.coin(.1)); auto D = fw(p.r, true); bool cyc = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cyc |= p.r.a[i].count(j) && D[j][i] < INF; auto t = TopologicalSort(p.g); if (!dir) { if (n) c.check(!t.isDAG && !IsDAG(p.g), "undirected_not_dag"); return; } c.check(t.isDAG == !cyc && IsDAG(p.g) == !cyc, "is_dag"); if (!cyc) { std::vector<int> pos(n, -1); for (size_t i = 0; i < t.order.size(); i++) pos[t.order[i]] = (int)i; c.check(t.order.size() == (size_t)n, "topo_size"); for (int i = 0; i < n; i++) { c.check(pos[i] >= 0, "topo_all"); for (auto& e : p.r.a[i]) c.check(pos[i] < pos[e.first], "topo_order"); } c.ev("dag"); } else { c.check(t.order.empty() && !t.diagnostics.empty(), "cycle_report"); c.ev("cyclic"); } }
FAMILY(mst, 800) { auto& r = c.r; int n = (int)r.i(0, 12); Pair p = gen(c, n, false, r.pick({-5, 0, 1}), r.pick({2, 10, 100})); std::vector<std::tuple<double, int, int>> es; for (int i = 0; i < n; i++) for (auto& e : p.r.a[i]) if ((int)e.first > i) es.push_back({e.second, i, (int)e.first}); std::sort(es.begin(), es.end()); std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; double tot = 0; int cnt = 0; for (auto& e : es) { int a = id[std::get<1>(e)], b = id[std::get<2>(e)]; if (a != b) { for (auto& x : id) if (x == b) x = a; tot += std::get<0>(e); cnt++; } } bool conn = n == 0 || cnt == n - 1; size_t s = n ? r.i(0, n - 1) : 0; auto k = Kruskal(p.g); auto q = Prim(p.g, s); c.check(k.isComplete == conn && q.isComplete == conn, "mst_complete"); c.ev(conn ? "mst" : "forest"); auto chk = [&](const MSTResult& m, const std::string& nm, bool full) { double w = 0; std::vector<int> u(n); for (int i = 0; i < n; i++) u[i] = i; for (auto& e : m.edges) { size_t a = std::get<0>(e), b = std::get<1>(e); if (!c.check(a < (size_t)n && p.r.a[a].count(b) && p.r.a[a].at(b) == std::get<2>(e), nm + "_edge")) return; int x = u[a], y = u[b]; c.check(x != y, nm + "_cycle"); for (auto& z : u) if (z == y) z = x; w += std::get<2>(e); } c.check(w == m.totalWeight, nm + "_total"); if (full) c.check(m.edges.size() == (size_t)cnt && w == tot, nm + "_minimal"); }; chk(k, "kruskal", true); chk(q, "prim", conn); if (!conn) { std::vector<int> u(id); size_t comp = 0; double w = 0; for (auto& e : es) (void)e; for (int i = 0; i < n; i++) comp += id[i] == id[s]; c.check(q.edges.size() == comp - 1, "prim_component"); c.check(!k.diagnostics.empty(), "mst_diagnostics"); (void)w; } }
FAMILY(matrices, 500) { auto& r = c.r; int n = (int)r.i(1, 10); bool dir = r.coin(); Pair p = gen(c, n, dir, 1, r.pick({1, 9}), r.coin(.2)); auto A = p.g.toAdjacencyMatrix(); auto Dg = p.g.toDegreeMatrix(); auto L = p.g.toLaplacianMatrix(); auto N = p.g.toNormalizedLaplacian(); bool wt = false; VD dg(n); for (int i = 0; i < n; i++) for (auto& e : p.r.a[i]) { dg[i] += e.second; wt |= e.second != 1; } c.check(p.g.isWeighted() == wt, "is_weighted"); c.ev("matrices"); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { double a = p.r.a[i].count(j) ? p.r.a[i][j] : 0; c.check(A(i, j) == a, "adjacency"); c.check(Dg(i, j) == (i == j ? dg[i] : 0), "degree_matrix"); c.check(L(i, j) == (i == j ? dg[i] : 0) - a, "laplacian"); double w = (i == j) - (dg[i] > 0 && dg[j] > 0 ? a / std::sqrt(dg[i] * dg[j]) : 0); c.check(std::fabs(N(i, j) - w) < 1e-12, "normalized_laplacian"); } } std::string s = p.g.toString(); c.check(s.find("V=" + std::to_string(n)) != std::string::npos && s.find("E=" + std::to_string(p.g.numEdges())) != std::string::npos, "to_string"); }
// spectral and centrality quantities
FAMILY(measures, 700) { auto& r = c.r; int n = (int)r.i(1, 12); bool dir = r.coin(.3); Pair p = gen(c, n, dir, 1, 1); auto D = fw(p.r, true); auto dc = DegreeCentrality(p.g); auto cc = ClosenessCentrality(p.g); auto bc = BetweennessCentrality(p.g, false), bn = BetweennessCentrality(p.g, true); c.ev("measures"); std::vector<VD> sg(n, VD(n)); for (int s = 0; s < n; s++) { std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int b) { return D[s][a] < D[s][b]; }); for (int v : o) if (v == s) sg[s][v] = 1; else if (D[s][v] < INF) for (int u = 0; u < n; u++) if (p.r.a[u].count(v) && D[s][u] + 1 == D[s][v]) sg[s][v] += sg[s][u]; } double diam = 0, tl = 0; int np = 0; for (int v = 0; v < n; v++) { double sum = 0; int re = 0; for (int u = 0; u < n; u++) { if (u != v && D[v][u] < INF) { sum += D[v][u]; re++; } diam = std::max(diam, D[v][u]); if (u != v && D[v][u] < INF) { tl += D[v][u]; np++; } } if (n > 1) c.check(std::fabs(dc[v] - (double)p.r.a[v].size() / (n - 1)) < 1e-14, "degree_centrality"); if (re == n - 1 && n > 1) c.check(std::fabs(cc[v] - (n - 1) / sum) < 1e-13, "closeness"); c.check(cc[v] >= 0 && cc[v] <= 1 && (re > 0) == (cc[v] > 0), "closeness_range"); double b = 0; for (int s = 0; s < n; s++) for (int t = 0; t < n; t++) if (s != v && t != v && s != t && D[s][t] < INF && D[s][v] + D[v][t] == D[s][t]) b += sg[s][v] * sg[v][t] / sg[s][t]; if (!dir) b /= 2; c.check(std::fabs(bc[v] - b) < 1e-10, "betweenness"); if (n > 2) { c.check(std::fabs(bn[v] - b * (dir ? 1. : 2.) / ((n - 1.) * (n - 2.))) < 1e-10, "betweenness_normalized", [&] { return std::to_string(bn[v]) + " for raw " + std::to_string(b); }); c.check(bn[v] <= 1 + 1e-12, "betweenness_unit"); } }
	c.check(GraphDiameter(p.g) == (n > 1 ? diam : 0), "diameter"); c.check(std::fabs(AveragePathLength(p.g) - (np ? tl / np : 0)) < 1e-12, "average_path_length", [&] { return std::to_string(AveragePathLength(p.g)) + " want " + std::to_string(np ? tl / np : 0); }); if (n > 1) c.check(std::fabs(GraphDensity(p.g) - p.g.numEdges() / (n * (n - 1.) / (dir ? 1 : 2))) < 1e-14, "density"); if (!dir) { double t = 0; int q = 0; for (int v = 0; v < n; v++) { int k = (int)p.r.a[v].size(), tr = 0; if (k < 2) continue; for (auto& a : p.r.a[v]) for (auto& b : p.r.a[v]) tr += a.first < b.first && p.r.a[a.first].count(b.first); t += tr * 2. / (k * (k - 1.)); q++; } c.check(std::fabs(AverageClusteringCoefficient(p.g) - (q ? t / q : 0)) < 1e-12, "clustering"); } }
FAMILY(spectral, 500) { auto& r = c.r; int n = (int)r.i(1, 12); Pair p = gen(c, n, false, 1, r.pick({1, 1, 9})); auto ev = LaplacianEigenvalues(p.g); auto L = p.g.toLaplacianMatrix(); if (!c.check(ev.size() == (size_t)n, "spectrum_size")) return; double sum = 0, sq = 0, tr = 0, fr = 0; auto D = fw(p.r, true); int comp = 0; for (int v = 0; v < n; v++) { bool f = true; for (int u = 0; u < v; u++) f &= D[u][v] == INF; comp += f; } double sc = 1; for (int i = 0; i < n; i++) { tr += L(i, i); for (int j = 0; j < n; j++) { fr += L(i, j) * L(i, j); sc = std::max(sc, std::fabs(L(i, j))); } sum += ev[i]; sq += ev[i] * ev[i]; if (i) c.check(ev[i] >= ev[i - 1], "spectrum_sorted"); } double tol = 1e-8 * sc * n; int zero = 0; for (double x : ev) { c.check(x >= -tol, "spectrum_nonnegative"); zero += x < 1e-6; } c.check(std::fabs(sum - tr) < tol && std::fabs(sq - fr) < tol * sc * n, "spectrum_moments"); c.check(zero == comp, "spectrum_components"); c.ev("spectral"); double ac = AlgebraicConnectivity(p.g); c.check(n < 2 ? ac == 0 : std::fabs(ac - ev[1]) < tol, "algebraic_connectivity"); double lb = AlgebraicConnectivityBound(p.g); c.check(lb >= 0 && lb <= ac + tol, "connectivity_lower_bound", [&] { return "bound " + std::to_string(lb) + " value " + std::to_string(ac); }); if (comp == 1 && n > 1) c.check(lb > 0, "connectivity_bound_positive"); if (comp > 1) c.check(lb == 0, "connectivity_bound_zero"); auto ds = LaplacianDegreeSequence(p.g); VD w; for (int i = 0; i < n; i++) w.push_back(L(i, i)); std::sort(w.begin(), w.end()); c.check(VD(ds.begin(), ds.end()) == w, "degree_sequence");
	// eigenvector centrality: nonnegative unit eigenvector of the adjacency matrix for its largest eigenvalue
	if (comp == 1 && n > 1) { auto x = EigenvectorCentrality(p.g, 20000, 1e-11); auto A = p.g.toAdjacencyMatrix(); double nn = 0, rq = 0, res = 0; VD y(n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) y[i] += A(i, j) * x[j]; nn += x[i] * x[i]; rq += x[i] * y[i]; c.check(x[i] > 0, "eigenvector_positive"); } for (int i = 0; i < n; i++) res = std::max(res, std::fabs(y[i] - rq * x[i])); c.check(std::fabs(nn - 1) < 1e-9, "eigenvector_unit"); c.check(res < 1e-6 * rq, "eigenvector_residual", [&] { return std::to_string(res); }); c.ev("eigenvector"); } }
FAMILY(pagerank, 400) { auto& r = c.r; int n = (int)r.i(1, 12); bool dir = r.coin(.7); Pair p = gen(c, n, dir, 1, 1); double d = r.pick({0., .5, .85, .95}); auto x = PageRank(p.g, d, 5000, 1e-13); double sum = 0; for (double v : x) { c.check(v >= (1 - d) / n - 1e-12, "pagerank_floor"); sum += v; } c.check(std::fabs(sum - 1) < 1e-12, "pagerank_sum"); VD y(n, (1 - d) / n); for (int v = 0; v < n; v++) { if (p.r.a[v].empty()) for (auto& q : y) q += d * x[v] / n; else for (auto& e : p.r.a[v]) y[e.first] += d * x[v] / p.r.a[v].size(); } for (int v = 0; v < n; v++) c.check(std::fabs(x[v] - y[v]) < 1e-9, "pagerank_fixed_point"); auto z = PageRank(p.g); double s2 = 0; for (double v : z) s2 += v; c.check(std::fabs(s2 - 1) < 1e-12, "pagerank_default_sum"); c.ev("pagerank"); }
// larger graphs: long chains numbered against the sweep order, grids and random graphs, against a plain label-correcting reference
FAMILY(large, 60) { auto& r = c.r; int n = (int)r.i(30, 220); bool dir = r.coin(), neg = dir && r.coin(.3); int kind = (int)r.i(0, 3); c.in("n", n); c.in("directed", (int)dir); c.in("kind", kind); c.in("negative", (int)neg); G g(n, dir ? G::Type::Directed : G::Type::Undirected); std::vector<std::tuple<int, int, double>> es; std::set<std::pair<int, int>> have; std::vector<int> pos(n); for (int i = 0; i < n; i++) pos[i] = n - 1 - i; if (r.coin(.3)) r.shuffle(pos); std::vector<double> pot(n); for (auto& v : pot) v = (double)r.i(0, 20);
  auto add = [&](int a, int b) { if (a == b || have.count({a, b}) || (!dir && have.count({b, a}))) return; have.insert({a, b}); double w = (double)r.i(0, 50) + (neg ? pot[a] - pot[b] : 0); es.push_back({a, b, w}); }; // potentials: negative edges, no negative cycle
  if (kind != 1) for (int i = 0; i + 1 < n; i++) if (kind != 3 || r.coin(.97)) add(pos[i], pos[i + 1]); int extra = kind == 0 ? (int)r.i(0, 5) : kind == 1 ? (int)r.i(n / 2, 4 * n) : (int)r.i(0, n); for (int k = 0; k < extra; k++) add((int)r.i(0, n - 1), (int)r.i(0, n - 1)); r.shuffle(es); for (auto& e : es) g.addEdge(std::get<0>(e), std::get<1>(e), std::get<2>(e)); c.ev("large_graphs");
  size_t s = kind != 1 && r.coin(.7) ? pos[0] : r.i(0, n - 1); VD d(n, INF), h(n, INF); d[s] = h[s] = 0; for (int k = 0; k < n; k++) for (auto& e : es) for (int q = 0; q < (dir ? 1 : 2); q++) { int a = q ? std::get<1>(e) : std::get<0>(e), b = q ? std::get<0>(e) : std::get<1>(e); d[b] = std::min(d[b], d[a] + std::get<2>(e)); h[b] = std::min(h[b], h[a] + 1); }
  auto b = BellmanFord(g, s); if (c.check(b.distance.size() == (size_t)n, "large_bellman_size")) { c.check(b.distance == d, "large_bellman"); } c.check(!HasNegativeCycle(g, s), "large_no_negative_cycle"); if (!neg) { c.check(Dijkstra(g, s).distance == d, "large_dijkstra"); size_t t = r.i(0, n - 1); auto q = DijkstraPath(g, s, t); c.check(q.found == (d[t] < INF) && (!q.found || q.totalWeight == d[t]), "large_dijkstra_path"); } c.check(BFS(g, s).distance == h, "large_bfs"); size_t reach = 0; double far = 0; for (int v = 0; v < n; v++) if (h[v] < INF) { reach++; far = std::max(far, h[v]); } c.maxi("longest shortest path", far); c.check(DFS(g, s).visitOrder.size() == reach, "large_dfs");
  if (neg && reach > 1) { int v = 0; do v = (int)r.i(0, n - 1); while (h[v] == INF || v == (int)s); if (!have.count({v, (int)s})) { g.addEdge(v, s, -d[v] - 1); c.check(HasNegativeCycle(g, s) && BellmanFord(g, s).distance.empty(), "large_negative_cycle"); c.ev("large_negative_cycles"); } }
  if (dir) { auto t = TopologicalSort(g); std::vector<int> indeg(n), st; std::vector<std::vector<int>> adj(n); for (int i = 0; i < n; i++) for (auto& e : g.neighbors(i)) { adj[i].push_back((int)e.to); indeg[e.to]++; } for (int i = 0; i < n; i++) if (!indeg[i]) st.push_back(i); int cnt = 0; while (!st.empty()) { int u = st.back(); st.pop_back(); cnt++; for (int v : adj[u]) if (--indeg[v] == 0) st.push_back(v); } c.check(t.isDAG == (cnt == n) && IsDAG(g) == t.isDAG, "large_dag"); if (t.isDAG) { std::vector<int> at(n, -1); for (size_t i = 0; i < t.order.size(); i++) at[t.order[i]] = (int)i; bool ok = t.order.size() == (size_t)n; for (int i = 0; ok && i < n; i++) for (int v : adj[i]) ok &= at[i] < at[v]; c.check(ok, "large_topological_order"); } }
  else { std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; auto so = es; std::sort(so.begin(), so.end(), [](auto& x, auto& y) { return std::get<2>(x) < std::get<2>(y); }); double tot = 0; int cnt = 0; for (auto& e : so) { int x = id[std::get<0>(e)], y = id[std::get<1>(e)]; if (x != y) { for (auto& z : id) if (z == y) z = x; tot += std::get<2>(e); cnt++; } } auto k = Kruskal(g); auto chk = [&](const MSTResult& m, const char* nm) { std::vector<int> u(n); for (int i = 0; i < n; i++) u[i] = i; bool ok = true; for (auto& e : m.edges) { int x = u[std::get<0>(e)], y = u[std::get<1>(e)]; ok &= x != y; for (auto& z : u) if (z == y) z = x; } c.check(ok, std::string(nm) + "_cycle"); c.check((int)m.edges.size() == cnt && m.totalWeight == tot && m.isComplete == (cnt == n - 1), nm); }; chk(k, "large_kruskal"); if (cnt == n - 1) chk(Prim(g, s), "large_prim"); auto cc = ConnectedComponents(g); c.check((int)cc.numComponents == n - cnt, "large_components"); c.check(IsConnected(g) == (cnt == n - 1), "large_connected"); } }
FAMILY(builders, 60) { auto& r = c.r; int n = (int)r.i(0, 9), m = (int)r.i(0, 5); c.in("n", n); c.in("m", m); G pa = createPathGraph<int, Real>(n), cy = createCycleGraph<int, Real>(n), co = createCompleteGraph<int, Real>(n), st = createStarGraph<int, Real>(n), gr = createGridGraph<int, Real>(n, m); c.ev("builders"); auto ck = [&](const G& g, size_t N, std::function<bool(int, int)> e, const char* k) { Ref f{false, std::vector<std::map<size_t, double>>(N)}; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (i != j && (e((int)i, (int)j) || e((int)j, (int)i))) f.a[i][j] = 1; c.note(k); agree(c, g, f); }; ck(pa, n, [](int i, int j) { return j == i + 1; }, "path"); ck(cy, n, [n](int i, int j) { return j == i + 1 || (n > 2 && i == n - 1 && j == 0); }, "cycle"); ck(co, n, [](int, int) { return true; }, "complete"); ck(st, n, [](int i, int) { return i == 0; }, "star"); ck(gr, (size_t)n * m, [m](int i, int j) { return j == i + m || (j == i + 1 && j % m); }, "grid"); G e0(0); c.check(ConnectedComponents(e0).numComponents == 0 && Kruskal(e0).isComplete && Prim(e0).isComplete && TopologicalSort(e0).isDAG && !HasNegativeCycle(e0, 0) && PageRank(e0).empty() && EigenvectorCentrality(e0).empty() && LaplacianEigenvalues(e0).empty(), "empty_graph"); }
MON_MAIN()
