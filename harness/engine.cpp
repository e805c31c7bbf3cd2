// The engines behind their public interface.
//  Buffers are read back after every operation and decoded as integer combinations of known vectors
//  (patterns 1..4, the vector of ones, and force vectors computed here by direct summation).
#include "hcommon.h"
#include "nbody_engines.h"
#include <memory>
#include <fstream>
#include <exception>
#include <set>

typedef std::vector<double> vec;
static const int NPAT = 4;
static int g_scale = 0;
static std::unique_ptr<nbody_data> g_data;
static std::unique_ptr<nbody_engine> g_e;
static std::map<int, nbody_engine::memory*> g_buf;
static std::vector<vec> g_basis;
static std::set<std::vector<long>> g_args;	// arguments of the derivative so far
struct foreign_memory : public nbody_engine::memory { size_t size() const override { return 8; } };
static foreign_memory g_foreign;

static double pattern(int p, size_t i)
{
	mix m(p * 1000003ull + i * 7919ull + 17);
	m.next();
	return double(int(m.next() % 101)) - 50;
}
static std::string num(double v) { char b[40]; if(!std::isfinite(v)) return "null"; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string arr(const vec& v) { std::string s("["); for(double x : v) s += (s.size() > 1 ? "," : "") + num(x); return s + "]"; }

static vec read(nbody_engine::memory* m)
{
	vec v(m->size() / sizeof(nbcoord_t), -12345.678);
	g_e->read_buffer(v.data(), m);
	return v;
}
static void basis(size_t n)
{
	g_basis.clear();
	g_args.clear();
	for(int p = 1; p <= NPAT; ++p)
	{
		vec v(n);
		for(size_t i = 0; i != n; ++i) v[i] = pattern(p, i);
		g_basis.push_back(v);
	}
	g_basis.push_back(vec(n, 1.0));
}
// coefficients of x over the basis; empty if x is no integer combination
static std::vector<long> decode(const vec& x)
{
	size_t n = x.size(), k = g_basis.size();
	for(double v : x) if(!std::isfinite(v)) return {};
	std::vector<std::vector<long double>> a(k, std::vector<long double>(k + 1, 0));
	for(size_t r = 0; r != k; ++r)
	{
		for(size_t c = 0; c != k; ++c) for(size_t i = 0; i != n; ++i) a[r][c] += (long double)g_basis[r][i] * g_basis[c][i];
		for(size_t i = 0; i != n; ++i) a[r][k] += (long double)g_basis[r][i] * x[i];
	}
	for(size_t c = 0; c != k; ++c)
	{
		size_t p = c;
		for(size_t r = c; r != k; ++r) if(fabsl(a[r][c]) > fabsl(a[p][c])) p = r;
		std::swap(a[c], a[p]);
		if(fabsl(a[c][c]) < 1e-12) return {};
		for(size_t r = 0; r != k; ++r) if(r != c)
		{
			long double f = a[r][c] / a[c][c];
			for(size_t j = c; j <= k; ++j) a[r][j] -= f * a[c][j];
		}
	}
	std::vector<long> out(k);
	for(size_t c = 0; c != k; ++c)
	{
		long double q = a[c][k] / a[c][c];
		if(fabsl(q) > 1e9) return {};
		out[c] = lroundl(q);
	}
	bool forces = k > NPAT + 1;		// then rounding may have taken place
	for(size_t i = 0; i != n; ++i)
	{
		long double s = 0, mag = 0;
		for(size_t c = 0; c != k; ++c) { s += (long double)out[c] * g_basis[c][i]; mag += fabsl((long double)out[c] * g_basis[c][i]) + (c > NPAT ? fabsl(g_basis[c][i]) : 0); }
		if(forces ? fabsl(s - x[i]) > 1e-9L * (1 + mag) : s != (long double)x[i]) return {};
	}
	return out;
}
static std::string dtext(const std::vector<long>& d)
{
	std::string s("[");
	for(long x : d) s += (s.size() > 1 ? "," : "") + std::to_string(x);
	return s + "]";
}
static std::string state()
{
	std::string s("[");
	for(auto& b : g_buf) s += (s.size() > 1 ? "," : "") + dtext(decode(read(b.second)));
	return s + "]";
}
static nbody_engine::memory* B(int id) { return id == 0 ? NULL : id == 99 ? &g_foreign : g_buf.at(id); }

// direct summation of the attractions
static vec direct(const vec& y, const vec& mass)
{
	size_t n = mass.size();
	vec f(6 * n, 0.0);
	for(size_t i = 0; i != n; ++i)
	{
		long double ax = 0, ay = 0, az = 0;
		for(size_t j = 0; j != n; ++j) if(j != i)
		{
			long double dx = y[i] - y[j], dy = y[n + i] - y[n + j], dz = y[2 * n + i] - y[2 * n + j];
			long double r2 = std::max<long double>(dx * dx + dy * dy + dz * dz, 1e-8L);
			long double k = mass[j] / (r2 * sqrtl(r2));
			ax -= dx * k; ay -= dy * k; az -= dz * k;
		}
		for(int d = 0; d != 3; ++d) f[d * n + i] = y[(3 + d) * n + i];
		f[3 * n + i] = double(ax); f[4 * n + i] = double(ay); f[5 * n + i] = double(az);
	}
	return f;
}
static QVariantMap params(std::istringstream& in)
{
	QVariantMap p;
	std::string w;
	while(in >> w)
	{
		if(w == ":") continue;
		size_t e = w.find('=');
		p[QString::fromStdString(w.substr(0, e))] = QString::fromStdString(w.substr(e + 1));
	}
	return p;
}
static void drop()
{
	if(g_e)
	{
		for(auto& b : g_buf) if(b.first != 1) g_e->free_buffer(b.second);
		g_buf.clear();
		g_e.reset();
	}
	g_data.reset();
}
static vec masses()
{
	return vec(g_data->get_mass(), g_data->get_mass() + g_data->get_count());
}

static void command(const std::string& cmd, std::istringstream& in)
{
	if(cmd == "data")			// data <bodies> [mass]: bodies at the places of pattern 1 (positions) and 2 (velocities)
	{
		drop();
		size_t n;
		double m = 100;
		in >> n >> m;
		g_data.reset(new nbody_data);
		g_data->resize(n);
		for(size_t i = 0; i != n; ++i)
		{
			g_data->get_vertites()[i] = nbvertex_t(pattern(1, i), pattern(1, n + i), pattern(1, 2 * n + i));
			g_data->get_velosites()[i] = nbvertex_t(pattern(1, 3 * n + i), pattern(1, 4 * n + i), pattern(1, 5 * n + i));
			const_cast<nbcoord_t*>(g_data->get_mass())[i] = m + double(i % 5);
		}
		basis(6 * n);
	}
	else if(cmd == "body")		// body <i> x y z vx vy vz m
	{
		size_t i;
		double v[7];
		in >> i;
		for(double& x : v) in >> x;
		g_data->get_vertites()[i] = nbvertex_t(v[0], v[1], v[2]);
		g_data->get_velosites()[i] = nbvertex_t(v[3], v[4], v[5]);
		const_cast<nbcoord_t*>(g_data->get_mass())[i] = v[6];
	}
	else if(cmd == "step") { size_t s; in >> s; g_data->set_step(s); }
	else if(cmd == "engine")	// engine <params>
	{
		g_e.reset(nbody_create_engine(params(in)));
		bool ok = g_e && g_e->init(g_data.get());
		if(ok) g_buf[1] = g_e->get_y();
		ev("engine").flag("ok", ok).str("type", g_e ? g_e->type_name() : "").num("count", (long long)g_data->get_count()).raw("bufs", ok ? state() : "[]").out();
	}
	else if(cmd == "buf")
	{
		int id, pat = 0;		// buf <id> <pattern, 0: zeros>
		in >> id >> pat;
		nbody_engine::memory* m = g_e->create_buffer(sizeof(nbcoord_t) * g_e->problem_size());
		bool ok = m && m->size() == sizeof(nbcoord_t) * g_e->problem_size();
		if(ok)
		{
			g_buf[id] = m;
			if(pat) g_e->write_buffer(m, g_basis[pat - 1].data());
			else g_e->fill_buffer(m, 0);
		}
		ev("buf").num("id", id).num("pat", pat).flag("ok", ok).raw("bufs", state()).out();
	}
	else if(cmd == "op")
	{
		std::string op, rest;
		in >> op;
		std::getline(in, rest);
		std::istringstream a(rest);
		std::string extra;
		std::vector<double> norm_in;
		int d;
		// scaled calls: factors are small (large) and what they multiply is as much larger (smaller), so that the outcome is the same
		nbody_engine::memory_array temp;
		auto M = [&](int b) -> nbody_engine::memory*
		{
			nbody_engine::memory* m = B(b);
			if(g_scale == 0 || b == 0 || b == 99) return m;
			vec v(read(m));
			for(double& x : v) x = std::ldexp(x, g_scale);
			nbody_engine::memory* t = g_e->create_buffer(m->size());
			g_e->write_buffer(t, v.data());
			temp.push_back(t);
			return t;
		};
		auto F = [&](double c) { return std::ldexp(c, -g_scale); };
		auto list = [&](nbody_engine::memory_array& l) { int k; a >> k; for(int i = 0; i != k; ++i) { int b; a >> b; l.push_back(M(b)); } };
		auto coef = [&](vec& c) { int k; a >> k; for(int i = 0; i != k; ++i) { double x; a >> x; c.push_back(F(x)); } };
		a >> d;
		ev e("op");
		if(op == "copy") { int s; a >> s; g_e->copy_buffer(B(d), B(s)); }
		else if(op == "fill") { double v; a >> v; g_e->fill_buffer(B(d), v); }
		else if(op == "write") { int p; a >> p; g_e->write_buffer(B(d), g_basis[p - 1].data()); }
		else if(op == "fmaddi") { int s; double c; a >> s >> c; g_e->fmadd_inplace(B(d), M(s), F(c)); }
		else if(op == "fmadd") { int s, t; double c; a >> s >> t >> c; g_e->fmadd(B(d), B(s), M(t), F(c)); }
		else if(op == "fmaddni") { nbody_engine::memory_array l; vec c; list(l); coef(c); g_e->fmaddn_inplace(B(d), l, c.empty() ? NULL : c.data(), c.size()); }
		else if(op == "fmaddn") { int s; a >> s; nbody_engine::memory_array l; vec c; list(l); coef(c); g_e->fmaddn(B(d), B(s), l, c.empty() ? NULL : c.data(), c.size()); }
		else if(op == "corr") { int s; a >> s; nbody_engine::memory_array l; vec c; list(l); coef(c); g_e->fmaddn_corr(B(d), B(s), l, c.empty() ? NULL : c.data(), c.size()); }
		else if(op == "max")
		{
			double r = -1;
			g_e->fmaxabs(B(d), r);
			bool ok = true;
			if(d != 0 && d != 99)
			{
				vec x(read(B(d)));
				double m = 0;
				for(double v : x) m = std::max(m, std::fabs(v));
				ok = r == m;
			}
			e.flag("normok", ok);
		}
		else if(op == "force")	// force <f> <y>
		{
			int s;
			a >> s;
			if(d == 0 || d == 99 || s == 0 || s == 99) g_e->fcompute(0, B(s), B(d));
			else
			{
				vec y(read(B(s)));
				std::vector<long> before(decode(y));
				// the argument as the exact combination it stands for
				vec exact(y.size(), 0.0);
				if(before.empty()) exact = y;
				else for(size_t i = 0; i != y.size(); ++i) { long double t = 0; for(size_t c = 0; c != before.size(); ++c) t += (long double)before[c] * g_basis[c][i]; exact[i] = double(t); }
				g_e->fcompute(0, B(s), B(d));
				if(!before.empty())
				{
					std::vector<long> key(before);
					while(!key.empty() && key.back() == 0) key.pop_back();
					if(g_args.insert(key).second) g_basis.push_back(direct(exact, masses()));
				}
			}
		}
		else if(op == "read") { vec x(g_basis[0].size()); g_e->read_buffer(x.data(), B(d)); }
		else if(op == "clamp") { double b; a >> b; g_e->clamp(B(d), b); }
		g_e->free_buffers(temp);
		e.raw("bufs", state()).out();
	}
	else if(cmd == "scale") in >> g_scale;
	else if(cmd == "kahan")		// kahan <rounds> <terms>: 2^53 plus rounds*terms ones
	{
		int rounds, terms;
		in >> rounds >> terms;
		size_t n = g_e->problem_size();
		nbody_engine::memory* a = g_e->create_buffer(n * sizeof(nbcoord_t));
		nbody_engine::memory* c = g_e->create_buffer(n * sizeof(nbcoord_t));
		nbody_engine::memory_array b(g_e->create_buffers(n * sizeof(nbcoord_t), terms));
		vec one(n), big(n, 9007199254740992.0);
		for(size_t i = 0; i != n; ++i) one[i] = i % 2 ? 1.0 : 0.5;
		g_e->write_buffer(a, big.data());
		g_e->fill_buffer(c, 0);
		for(auto m : b) g_e->write_buffer(m, one.data());
		vec co(terms, 1.0);
		for(int r = 0; r != rounds; ++r) g_e->fmaddn_corr(a, c, b, co.data(), terms);
		vec x(read(a));
		double worst = 0;
		for(size_t i = 0; i != n; ++i) worst = std::max(worst, std::fabs((x[i] - 9007199254740992.0) - one[i] * rounds * terms));
		g_e->free_buffer(a); g_e->free_buffer(c); g_e->free_buffers(b);
		ev("kahan").num("added", rounds * terms).num("off", (long long)std::ceil(worst)).out();
	}
	else if(cmd == "bits")		// bits <a> <b>: arbitrary bit patterns written to a, copied to b and read back
	{
		int a, b;
		in >> a >> b;
		vec v(g_e->problem_size()), sa(read(B(a))), sb(read(B(b)));
		mix m(4711);
		for(double& x : v) x = odd_double(m);
		g_e->write_buffer(B(a), v.data());
		g_e->copy_buffer(B(b), B(a));
		vec x(read(B(b))), y(read(B(a)));
		size_t sz = v.size() * sizeof(double);
		bool same = !memcmp(x.data(), v.data(), sz) && !memcmp(y.data(), v.data(), sz);
		g_e->write_buffer(B(a), sa.data());
		g_e->write_buffer(B(b), sb.data());
		ev("bits").flag("same", same).out();
	}
	else if(cmd == "norms")		// norms <rounds>: the largest element at every place in turn, of either sign; ascending values
	{
		int rounds;
		in >> rounds;
		size_t n = g_e->problem_size(), stride = std::max<size_t>(1, n / rounds);
		nbody_engine::memory* a = g_e->create_buffer(n * sizeof(nbcoord_t));
		long bad = 0, all = 0;
		std::vector<size_t> places;
		for(size_t at = 0; at < n; at += stride) places.push_back(at);
		for(size_t k = 1; k <= 4; ++k) { places.push_back(n / k - 1); places.push_back(n - n / k); places.push_back(n / 4 * 3 - 1); }
		for(size_t at : places)
		{
			++all;
			vec v(n);
			for(size_t i = 0; i != n; ++i) v[i] = all % 3 == 2 ? double(i) : pattern(1 + all % 4, i);
			double want = all % 3 == 2 ? double(n) + 5 : 60 + double(all % 7);
			v[at] = all % 2 ? -want : want;
			if(all % 5 == 4) { v[at] = n + 3; for(size_t i = 0; i != n; ++i) if(i != at) v[i] = -double(i) - 1; want = double(n) + 3; }
			g_e->write_buffer(a, v.data());
			double r = -1;
			g_e->fmaxabs(a, r);
			bad += r != want;
			vec x(read(a));
			bad += memcmp(x.data(), v.data(), n * sizeof(double)) != 0;
		}
		g_e->free_buffer(a);
		ev("norms").num("all", all).num("bad", bad).out();
	}
	else if(cmd == "set")		// set <buffer> <6n numbers>
	{
		int id;
		in >> id;
		vec v(g_e->problem_size());
		for(double& x : v) in >> x;
		g_e->write_buffer(B(id), v.data());
	}
	else if(cmd == "fraw")		// fraw <f> <y>: the derivative, and what it left of y
	{
		int f, y;
		in >> f >> y;
		vec before(read(B(y)));
		g_e->fcompute(g_e->get_time(), B(y), B(f));
		vec after(read(B(y)));
		ev("f").raw("f", arr(read(B(f)))).flag("kept", memcmp(before.data(), after.data(), before.size() * sizeof(double)) == 0).out();
	}
	else if(cmd == "raw") { int id; in >> id; ev("raw").raw("v", arr(read(B(id)))).out(); }
	else if(cmd == "clamp") { int id; double b; in >> id >> b; g_e->clamp(B(id), b); }
	else if(cmd == "getdata")	// the bodies as the engine returns them, into a body set of its own
	{
		nbody_data o;
		o.resize(g_data->get_count());
		g_e->get_data(&o);
		vec v;
		for(int d = 0; d != 6; ++d) for(size_t i = 0; i != o.get_count(); ++i)
		{
			const nbvertex_t& p(d < 3 ? o.get_vertites()[i] : o.get_velosites()[i]);
			v.push_back(d % 3 == 0 ? p.x : d % 3 == 1 ? p.y : p.z);
		}
		ev("getdata").raw("v", arr(v)).raw("m", arr(masses())).out();
	}
	else if(cmd == "pairs")		// pairs <bodies> <seed> <bodies whose influence is measured> ... : <engine>
	{
		size_t n, seed, k;
		in >> n >> seed >> k;
		std::vector<size_t> cols(k);
		for(size_t& c : cols) in >> c;
		QVariantMap p(params(in));
		mix m(seed);
		vec pos(3 * n), a0;
		for(double& x : pos) x = 2 * m.uni() - 1;
		auto accel = [&](size_t heavy) -> vec
		{
			nbody_data d;
			d.resize(n);
			for(size_t i = 0; i != n; ++i) d.get_mass()[i] = i == heavy ? 2 : 1;
			std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
			if(!e || !e->init(&d)) return vec();
			vec y(6 * n, 0.0), f(6 * n, 1e300);
			for(size_t i = 0; i != 3 * n; ++i) y[i] = pos[i];
			nbody_engine::memory* a = e->create_buffer(6 * n * sizeof(double));
			nbody_engine::memory* b = e->create_buffer(6 * n * sizeof(double));
			e->write_buffer(a, y.data());
			e->write_buffer(b, f.data());
			e->fcompute(0, a, b);
			e->read_buffer(f.data(), b);
			e->free_buffer(a);
			e->free_buffer(b);
			return f;
		};
		a0 = accel(n);
		long total = 0;
		std::string bad("[");
		for(size_t j : cols)
		{
			vec a(a0.empty() ? a0 : accel(j));
			if(a.empty()) { bad += "[0,0]"; break; }
			for(size_t i = 0; i != n; ++i)
			{
				double da[3], kk[3], r2 = 0, dot = 0, k2 = 0;
				for(int c = 0; c != 3; ++c) { da[c] = a[(3 + c) * n + i] - a0[(3 + c) * n + i]; kk[c] = pos[c * n + j] - pos[c * n + i]; r2 += kk[c] * kk[c]; }
				double q;
				if(i == j) q = std::max(std::fabs(da[0]), std::max(std::fabs(da[1]), std::fabs(da[2])));
				else
				{
					for(int c = 0; c != 3; ++c) { kk[c] /= r2 * std::sqrt(r2); dot += da[c] * kk[c]; k2 += kk[c] * kk[c]; }
					q = dot / k2;
				}
				long cnt = std::fabs(q) < 1e6 ? lround(q) : -999;
				if(std::fabs(q - double(cnt)) > 1e-6) cnt = -998;
				total += cnt;
				if(cnt != (i != j) && bad.size() < 200) bad += (bad.size() > 1 ? ",[" : "[") + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(cnt) + "]";
			}
		}
		ev("pairs").num("n", (long long)n).num("cols", (long long)cols.size()).num("total", total).raw("bad", bad + "]").out();
	}
	else if(cmd == "kernel")	// kernel <bodies> <i> <j> <e> <d0> <d1> <d2> <mi> <mj> : <engine>; body j at 10^-e * d from body i
	{
		size_t n, i, j;
		int ex, dd[3], mi, mj;
		in >> n >> i >> j >> ex >> dd[0] >> dd[1] >> dd[2] >> mi >> mj;
		QVariantMap p(params(in));
		nbody_data d;
		d.resize(n);
		double s = std::pow(10.0, -ex);
		for(size_t k = 0; k != n; ++k)
		{
			d.get_mass()[k] = k == i ? mi : k == j ? mj : 1e-290;
			d.get_vertites()[k] = k == i ? nbvertex_t(0, 0, 0) : k == j ? nbvertex_t(dd[0] * s, dd[1] * s, dd[2] * s) : nbvertex_t(1000.0 + k, 2000.0, 10.0 * k);
			d.get_velosites()[k] = nbvertex_t(0, 0, 0);
		}
		std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
		std::string A[2] = {"[]", "[]"};
		bool kept = false;
		if(e && e->init(&d))
		{
			vec f(6 * n), y0(6 * n), y1(6 * n);
			nbody_engine::memory* b = e->create_buffer(6 * n * sizeof(double));
			e->read_buffer(y0.data(), e->get_y());
			e->fcompute(0, e->get_y(), b);
			e->read_buffer(y1.data(), e->get_y());
			kept = y0 == y1;
			e->read_buffer(f.data(), b);
			e->free_buffer(b);
			double q2 = dd[0] * dd[0] + dd[1] * dd[1] + dd[2] * dd[2];
			// far: a * r^3 / s, with r = s * sqrt(q2); near: a * limit^1.5 / s
			double lim = 1e-8, r2 = q2 * s * s, scale = (r2 < lim * (1 - 1e-9) ? lim * std::sqrt(lim) : r2 * std::sqrt(r2)) / s;
			for(int w = 0; w != 2; ++w)
			{
				A[w] = "[";
				for(int c = 0; c != 3; ++c)
				{
					double x = f[(3 + c) * n + (w ? j : i)] * scale;
					long q = std::fabs(x) < 1e9 ? lround(x) : -999999;
					if(!(std::fabs(x - double(q)) <= 1e-9 * (1 + std::fabs(x)))) q = -999998;
					A[w] += (c ? "," : "") + std::to_string(q);
				}
				A[w] += "]";
			}
		}
		ev("kernel").num("ex", ex).raw("d", "[" + std::to_string(dd[0]) + "," + std::to_string(dd[1]) + "," + std::to_string(dd[2]) + "]").num("mi", mi).num("mj", mj)
			.raw("ai", A[0]).raw("aj", A[1]).flag("kept", kept).out();
	}
	else if(cmd == "sum")		// sum <bodies> <seed> <kind> : <engine>; derivative of several states against direct summation
	{
		size_t n, seed;
		int kind;
		in >> n >> seed >> kind;
		QVariantMap p(params(in));
		mix m(seed);
		nbody_data d;
		d.resize(n);
		for(size_t i = 0; i != n; ++i) d.get_mass()[i] = std::pow(10.0, 3 * m.uni() - 1);
		std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
		long worst = -1, rounds = 0;
		bool rates = true, kept = true;
		if(e && e->init(&d))
		{
			vec mass(d.get_mass(), d.get_mass() + n);
			nbody_engine::memory* a = e->create_buffer(6 * n * sizeof(double));
			nbody_engine::memory* b = e->create_buffer(6 * n * sizeof(double));
			for(; rounds != 3; ++rounds)
			{
				vec y(6 * n), f(6 * n, 1e300), y1(6 * n);
				double size = std::pow(10.0, 4 * m.uni() - 2);
				for(size_t i = 0; i != 6 * n; ++i) y[i] = size * (2 * m.uni() - 1);
				if(kind == 1)		// coincident and nearly coincident bodies
					for(size_t i = 1; i < n; ++i) if(m.next() % 3 == 0)
					{
						size_t j = m.next() % i;
						double shift = m.next() % 2 ? 0 : std::pow(10.0, -3 - 4 * m.uni());
						for(int c = 0; c != 3; ++c) y[c * n + i] = y[c * n + j] + shift * (m.uni() - 0.5);
					}
				if(kind == 2) for(size_t i = 0; i != 3 * n; ++i) y[i] = double(int(m.next() % 5)) - 2;		// a lattice, many equal coordinates
				nbody_engine::memory* src = rounds == 2 ? e->get_y() : a;
				e->write_buffer(src, y.data());
				e->write_buffer(b, f.data());
				e->fcompute(0, src, b);
				e->read_buffer(f.data(), b);
				e->read_buffer(y1.data(), src);
				kept = kept && y1 == y;
				vec g(direct(y, mass));
				for(size_t i = 0; i != 3 * n; ++i) rates = rates && f[i] == y[3 * n + i];
				for(size_t i = 0; i != n; ++i)
				{
					long double mag = 0;
					for(size_t j = 0; j != n; ++j) if(j != i)
					{
						long double dx = y[i] - y[j], dy = y[n + i] - y[n + j], dz = y[2 * n + i] - y[2 * n + j], r2 = dx * dx + dy * dy + dz * dz, q = std::max<long double>(r2, 1e-8L);
						mag += mass[j] * sqrtl(r2) / (q * sqrtl(q));
					}
					for(int c = 3; c != 6; ++c)
					{
						long double dev = fabsl((long double)f[c * n + i] - g[c * n + i]);
						long u = !std::isfinite(f[c * n + i]) ? 1000000000L : dev == 0 ? 0 : mag == 0 ? 1000000000L : long(std::min<long double>(1e9L, dev / (mag * 2.3e-16L)));
						worst = std::max(worst, u);
					}
				}
			}
			e->free_buffer(a);
			e->free_buffer(b);
		}
		ev("sum").num("n", (long long)n).num("worst", worst).num("rounds", rounds).flag("rates", rates).flag("kept", kept).out();
	}
	else if(cmd == "identity")	// identity <bodies> <seed> : <engine>; bodies loaded and fetched back, into the same and another body set
	{
		size_t n, seed;
		in >> n >> seed;
		QVariantMap p(params(in));
		mix m(seed);
		nbody_data d, o;
		d.resize(n);
		o.resize(n);
		for(size_t i = 0; i != n; ++i)
		{
			d.get_vertites()[i] = nbvertex_t(odd_double(m), odd_double(m), odd_double(m));
			d.get_velosites()[i] = nbvertex_t(odd_double(m), odd_double(m), odd_double(m));
			d.get_mass()[i] = 1 + double(i);
		}
		d.set_time(0.75);
		d.set_step(12345);
		std::vector<nbvertex_t> v(d.get_vertites(), d.get_vertites() + n), w(d.get_velosites(), d.get_velosites() + n);
		vec mass(d.get_mass(), d.get_mass() + n);
		std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
		bool same = false;
		if(e && e->init(&d))
		{
			same = true;
			for(nbody_data* t : {&o, &d})
			{
				e->get_data(t);
				same = same && !memcmp(t->get_vertites(), v.data(), n * sizeof(nbvertex_t)) && !memcmp(t->get_velosites(), w.data(), n * sizeof(nbvertex_t));
			}
			same = same && !memcmp(d.get_mass(), mass.data(), n * sizeof(double)) && d.get_time() == 0.75 && d.get_step() == 12345 && e->get_time() == 0.75
				&& e->get_step() == 12345 && e->problem_size() == 6 * n && d.get_count() == n;
		}
		ev("identity").num("n", (long long)n).flag("same", same).out();
	}
	else if(cmd == "select")	// select <engine>: is an engine with these settings made?
	{
		nbody_data d;
		d.resize(64);
		for(size_t i = 0; i != 64; ++i) { d.get_mass()[i] = 1; d.get_vertites()[i] = nbvertex_t(double(i), 0, 0); }
		std::unique_ptr<nbody_engine> e(nbody_create_engine(params(in)));
		bool made = e != NULL, ready = made && e->init(&d);
		ev("select").flag("made", made).flag("ready", ready).out();
	}
	else if(cmd == "drop") drop();
}

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string line;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		std::string cmd;
		in >> cmd;
		try { command(cmd, in); }
		catch(const std::exception& x) { ev("threw").str("cmd", line).str("what", x.what()).out(); }
	}
	drop();
	return 0;
}
