// Tree and neighbour-scheme engines behind their public interface: which cells explain the measured accelerations?
//  The cells are found by an independent reading of the definition (median halves, mass centre, box, radius); what is
//  logged is the explanation and how far the measured accelerations are from it.
#include "hcommon.h"
#include "nbody_engines.h"
#include <memory>
#include <algorithm>
#include <exception>
#include <set>

typedef long double real;
struct vec3 { real c[3]; };
typedef std::vector<vec3> places;
static real dist(const vec3& a, const vec3& b) { real s = 0; for(int k = 0; k != 3; ++k) s += (a.c[k] - b.c[k]) * (a.c[k] - b.c[k]); return sqrtl(s); }

static QVariantMap params(std::istringstream& in)
{
	QVariantMap p;
	std::string w;
	while(in >> w)
	{
		if(w == ":") continue;
		size_t e = w.find('=');
		p[QString::fromStdString(w.substr(0, e))] = QString::fromStdString(w.substr(e + 1));
	}
	return p;
}

struct cell { int lo, hi, left, right; vec3 mc, mid; real mass, radius; };
struct cells
{
	std::vector<int> perm;
	std::vector<cell> c;
	static int left_size(int rule, int n)
	{
		if(rule == 0) return n / 2;
		if(rule == 1) return n - n / 2;
		int p = 1;
		while(2 * p <= n) p *= 2;
		return std::min(n - p / 2, p);
	}
	int group(const places& x, int lo, int n, int rule, int dim)
	{
		int id = int(c.size());
		c.push_back(cell());
		int l = -1, r = -1;
		if(n > 1)
		{
			std::stable_sort(perm.begin() + lo, perm.begin() + lo + n, [&](int a, int b) { return x[a].c[dim] < x[b].c[dim]; });
			int k = left_size(rule, n);
			l = group(x, lo, k, rule, (dim + 1) % 3);
			r = group(x, lo + k, n - k, rule, (dim + 1) % 3);
		}
		c[id].lo = lo; c[id].hi = lo + n - 1; c[id].left = l; c[id].right = r;
		return id;
	}
	cells(const places& x, int rule, int dim)
	{
		for(size_t i = 0; i != x.size(); ++i) perm.push_back(int(i));
		group(x, 0, int(x.size()), rule, dim);
	}
	void measure(const places& x, const std::vector<double>& mass)
	{
		for(cell& k : c)
		{
			vec3 lo = x[perm[k.lo]], hi = lo;
			k.mass = 0;
			k.mc = vec3{{0, 0, 0}};
			for(int i = k.lo; i <= k.hi; ++i)
			{
				const vec3& p = x[perm[i]];
				real m = mass[perm[i]];
				k.mass += m;
				for(int d = 0; d != 3; ++d) { k.mc.c[d] += m * p.c[d]; lo.c[d] = std::min(lo.c[d], p.c[d]); hi.c[d] = std::max(hi.c[d], p.c[d]); }
			}
			for(int d = 0; d != 3; ++d) { k.mc.c[d] = k.lo == k.hi ? lo.c[d] : k.mc.c[d] / k.mass; k.mid.c[d] = (lo.c[d] + hi.c[d]) / 2; }
			bool point = true;
			for(int d = 0; d != 3; ++d) point = point && lo.c[d] == hi.c[d];
			if(point) k.mc = k.mid = lo;
			k.radius = dist(lo, hi) / 2 + dist(k.mid, k.mc);
		}
	}
	// cells used for the body at position rank; how: used, opened, smallest/largest margin
	void cover(int id, const vec3& at, real ratio, std::vector<int>& used, std::vector<int>& opened, real& least, real& most) const
	{
		const cell& k = c[id];
		real d = dist(at, k.mc), r = k.radius * ratio;
		if(k.left < 0) { used.push_back(id); return; }
		real q = r == 0 ? (d > 0 ? 1e9L : 0) : d * d / (r * r);
		if(q > 1) { used.push_back(id); least = std::min(least, q); return; }
		opened.push_back(id);
		most = std::max(most, q);
		cover(k.left, at, ratio, used, opened, least, most);
		cover(k.right, at, ratio, used, opened, least, most);
	}
};

static double lim = 1e-8;
// adds the pull of mass m at p on a body at x; mag: sizes, with room for the rounding of mass centres
static void pull(const vec3& x, const vec3& p, real m, real coord, bool single, real* a, real& mag)
{
	real d = dist(x, p), r2 = std::max<real>(d * d, lim), k = m / (r2 * sqrtl(r2));
	for(int c = 0; c != 3; ++c) a[c] -= (x.c[c] - p.c[c]) * k;
	mag += d * k + (single ? 0 : 4 * coord * k);
}
static long units(const double* f, const real* a, real mag)
{
	real worst = 0;
	for(int c = 0; c != 3; ++c)
	{
		if(!std::isfinite(f[c])) return 1000000000L;
		real dev = fabsl(real(f[c]) - a[c]);
		if(dev > 0) worst = std::max(worst, mag == 0 ? 1e9L : dev / (mag * 2.3e-16L));
	}
	return long(std::min<real>(worst, 1e9L));
}

struct scene
{
	std::vector<double> mass;
	places x;
	std::vector<double> v;
	real coord = 0;
};
static void place(scene& s, size_t n, mix& m, int kind, double scale)
{
	s.x.resize(n);
	std::vector<int> row[3];
	for(int d = 0; d != 3; ++d)
	{
		for(int k = -20; k <= 20; ++k) row[d].push_back(k);
		for(int k = 40; k > 0; --k) std::swap(row[d][k], row[d][m.next() % (k + 1)]);
	}
	std::vector<int> odd[3];
	for(int d = 0; d != 3; ++d) for(int k : row[d]) if(k % 2) odd[d].push_back(k);
	size_t nc = 1 + m.next() % 5;
	places centre(nc);
	for(auto& c : centre) for(int d = 0; d != 3; ++d) c.c[d] = double(2 * m.uni() - 1);
	for(size_t i = 0; i != n; ++i) for(int d = 0; d != 3; ++d)
	{
		double q = 2 * m.uni() - 1;
		switch(kind)
		{
		case 1: q = row[d][i % 41]; break;				// whole numbers, all different in each direction
		case 2: q = double(centre[i % nc].c[d]) + 0.01 * q; break;	// clusters
		case 3: q = double(int(m.next() % 3)) - 1; break;		// a lattice
		case 4: q = 1.0 / 3; break;					// all at one place
		case 5: q = (d == 0 ? -1 : d == 1 ? 2 : 3) * (double(i) * 0.37 - 1.3) + 1e-3 * q; break;	// nearly on a line
		case 7: q = row[d][(i / 2) % 41]; break;			// pairs at one place
		case 8:								// the first (and, for even counts, the second) exactly at the mass centre of all
		{
			size_t lone = 2 - n % 2;
			q = row[d][40] % 6;
			if(i >= lone) { int o = odd[d][(i - lone) / 2 % 20]; q += (i - lone) % 2 ? -2 * o : o; }
			break;
		}
		}
		s.x[i].c[d] = double(q * scale);
	}
	s.coord = 0;
	for(auto& p : s.x) for(int d = 0; d != 3; ++d) s.coord = std::max(s.coord, fabsl(p.c[d]));
}
static void weigh(scene& s, size_t n, mix& m, int kind)
{
	s.mass.resize(n);
	for(size_t i = 0; i != n; ++i)
	{
		s.mass[i] = std::pow(10.0, 2 * m.uni() - 1);
		if(kind == 1) s.mass[i] = double(1 + m.next() % 3);
		if(kind == 3 || kind == 4 || kind == 7) s.mass[i] = 2;
		if(kind == 8) s.mass[i] = i < 2 - n % 2 ? 1 : (i - (2 - n % 2)) % 2 ? 1 : 2;
		if(kind == 6) s.mass[i] = i == n / 2 ? 1000 : 1;
	}
	s.v.resize(3 * n);
	for(auto& q : s.v) q = m.uni() - 0.5;
}
static std::vector<double> flat(const scene& s)
{
	size_t n = s.x.size();
	std::vector<double> y(6 * n);
	for(size_t i = 0; i != n; ++i) for(int d = 0; d != 3; ++d) { y[d * n + i] = double(s.x[i].c[d]); y[(3 + d) * n + i] = s.v[d * n + i]; }
	return y;
}
struct bench
{
	nbody_data d;
	std::unique_ptr<nbody_engine> e;
	nbody_engine::memory *y = NULL, *f = NULL;
	bool start(const QVariantMap& p, const scene& s)
	{
		size_t n = s.mass.size();
		d.resize(n);
		for(size_t i = 0; i != n; ++i)
		{
			d.get_mass()[i] = s.mass[i];
			d.get_vertites()[i] = nbvertex_t(double(i), 0, 0);
			d.get_velosites()[i] = nbvertex_t(0, 0, 0);
		}
		e.reset(nbody_create_engine(p));
		if(!e || !e->init(&d)) return false;
		y = e->create_buffer(6 * n * sizeof(double));
		f = e->create_buffer(6 * n * sizeof(double));
		return y && f;
	}
	std::vector<double> compute(const scene& s, bool& rates)
	{
		size_t n = s.mass.size();
		std::vector<double> a(flat(s)), b(6 * n, 1e300), c(6 * n);
		e->write_buffer(y, a.data());
		e->write_buffer(f, b.data());
		e->fcompute(0, y, f);
		e->read_buffer(b.data(), f);
		e->read_buffer(c.data(), y);
		rates = c == a;
		for(size_t i = 0; i != 3 * n; ++i) rates = rates && b[i] == a[3 * n + i];
		return b;
	}
	~bench() { if(e) { if(y) e->free_buffer(y); if(f) e->free_buffer(f); } }
};
static void shown(const std::vector<double>& f, size_t n, size_t i, double* o) { for(int c = 0; c != 3; ++c) o[c] = f[(3 + c) * n + i]; }

// largest deviation of the accelerations from those explained by a grouping; skip: bodies too close to a decision
static size_t seedling = 0;
static long explain(const cells& t, const scene& s, const std::vector<double>& f, real ratio, long good, long& skip, long stop)
{
	size_t n = s.mass.size();
	long worst = 0;
	skip = 0;
	for(size_t i = n > 2000 ? seedling % 97 : 0; i < n; i += n > 2000 ? 97 : 1)	// large scenes: every 97th body
	{
		std::vector<int> used, opened;
		real least = 1e9L, most = 0, a[3] = {0, 0, 0}, mag = 0;
		t.cover(0, s.x[i], ratio, used, opened, least, most);
		if(least < 1 + 1e-9L || most > 1 - 1e-9L) { ++skip; continue; }
		for(int id : used)
		{
			const cell& k = t.c[id];
			if(k.left < 0 && t.perm[k.lo] == int(i)) continue;
			pull(s.x[i], k.mc, k.mass, s.coord, k.left < 0, a, mag);
		}
		double o[3];
		shown(f, n, i, o);
		worst = std::max(worst, units(o, a, mag));
		if(worst > stop) break;
	}
	(void)good;
	return worst;
}
static std::string seq(const std::vector<long>& v) { std::string s("["); for(long x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string spans(const cells& t, const std::vector<int>& ids) { std::string s("["); for(int i : ids) s += (s.size() > 1 ? ",[" : "[") + std::to_string(t.c[i].lo) + "," + std::to_string(t.c[i].hi) + "]"; return s + "]"; }
static long milli(real q) { return long(std::min<real>(q * 1000, 1000000)); }

static void command(const std::string& cmd, std::istringstream& in)
{
	if(cmd == "tree")		// tree <bodies> <seed> <kind> <p> <q> <bodies to show> : <engine>; opening ratio p/q
	{
		size_t n, seed, show;
		int kind, p, q;
		in >> n >> seed >> kind >> p >> q >> show;
		QVariantMap par(params(in));
		real ratio = real(p) / q;
		par["distance_to_node_radius_ratio"] = QString::number(double(ratio), 'g', 17);
		ratio = double(ratio);
		seedling = seed;
		mix m(seed);
		scene s;
		double scale = kind == 1 || kind == 7 ? std::ldexp(1.0, int(m.next() % 9) - 4) : std::pow(10.0, 4 * m.uni() - 2);
		if(kind == 8) scale = 232792560;		// mass centres of up to 20 mass units are whole numbers
		weigh(s, n, m, kind);
		place(s, n, m, kind, scale);
		bench b;
		if(!b.start(par, s)) { ev("tree").num("n", (long long)n).num("worst", -1).out(); return; }
		bool rates;
		std::vector<double> f(b.compute(s, rates));
		long best = 2000000000L, skip = 0;
		std::unique_ptr<cells> t;
		for(int v = 0; v != 9 && (!t || best > 1000); ++v)
		{
			std::unique_ptr<cells> u(new cells(s.x, v % 3, v / 3));
			u->measure(s.x, s.mass);
			long k, w = explain(*u, s, f, ratio, 1000, k, 1000000000L);
			if(w < best) { best = w; skip = k; t = std::move(u); }
		}
		// exactness against direct summation when nothing may be lumped together
		bool whole = true;
		std::string bodies("[");
		std::set<size_t> pick;
		for(size_t i = 0; i != n && show >= n; ++i) pick.insert(i);
		while(pick.size() < std::min(show, n)) pick.insert(m.next() % n);
		for(size_t i = 0; i != n; ++i)
		{
			if(n > 2000 && !pick.count(i)) { whole = false; continue; }
			std::vector<int> used, opened;
			real least = 1e9L, most = 0;
			t->cover(0, s.x[i], ratio, used, opened, least, most);
			for(int id : used) whole = whole && (t->c[id].left < 0 || t->c[id].radius == 0);
			if(!pick.count(i)) continue;
			long rank = std::find(t->perm.begin(), t->perm.end(), int(i)) - t->perm.begin();
			std::vector<int> others;
			for(int id : used) if(t->c[id].lo != rank || t->c[id].left >= 0) others.push_back(id);
			bodies += std::string(bodies.size() > 1 ? "," : "") + "{\"rank\":" + std::to_string(rank) + ",\"used\":" + spans(*t, others) + ",\"opened\":" + spans(*t, opened)
				+ ",\"least\":" + std::to_string(milli(least)) + ",\"most\":" + std::to_string(milli(most)) + "}";
		}
		std::vector<long> perm(t->perm.begin(), t->perm.end()), mass;
		std::string pos("[");
		bool exact = (kind == 1 || kind == 8) && n <= 12;
		for(size_t i = 0; exact && i != n; ++i)
		{
			int id = t->perm[i];
			mass.push_back(long(s.mass[id]));
			std::vector<long> c;
			for(int d = 0; d != 3; ++d) c.push_back(long(s.x[id].c[d] / scale));
			pos += (i ? "," : "") + seq(c);
		}
		ev("tree").num("n", (long long)n).num("worst", best).num("skip", skip).flag("rates", rates).flag("whole", whole).num("p", p).num("q", q)
			.raw("bodies", bodies + "]").flag("exact", exact).raw("mass", seq(mass)).raw("pos", pos + "]").out();
	}
	else if(cmd == "hist")		// hist <bodies> <seed> <kind> <p> <q> <k> <step>*k : <engine>; one computation per step number, bodies moved before each
	{
		size_t n, seed, k;
		int kind, p, q;
		in >> n >> seed >> kind >> p >> q >> k;
		std::vector<size_t> steps(k);
		for(size_t& x : steps) in >> x;
		QVariantMap par(params(in));
		real ratio = double(real(p) / q);
		par["distance_to_node_radius_ratio"] = QString::number(double(ratio), 'g', 17);
		mix m(seed);
		scene s;
		weigh(s, n, m, kind);
		bench b;
		ev("history").num("n", (long long)n).flag("ok", b.start(par, s)).out();
		if(!b.f) return;
		std::vector<places> was;
		for(size_t v = 0; v != k; ++v)
		{
			if(v == 0 || m.next() % 2) place(s, n, m, kind, 1.0);
			else for(auto& x : s.x) for(int d = 0; d != 3; ++d) x.c[d] = double(x.c[d] + 0.2 * (m.uni() - 0.5));
			was.push_back(s.x);
			b.d.set_step(steps[v]);
			bool rates;
			std::vector<double> f(b.compute(s, rates));
			std::vector<long> by;
			long skip = 0;
			for(size_t g = 0; g <= v; ++g)
			{
				bool ok = false;
				for(int r = 0; r != 9 && !ok; ++r)
				{
					cells t(was[g], r % 3, r / 3);
					t.measure(s.x, s.mass);
					ok = explain(t, s, f, ratio, 1000, skip, 1000) <= 1000;
				}
				if(ok) by.push_back(long(g) + 1);
			}
			ev("compute").num("step", (long long)steps[v]).num("v", (long long)v + 1).flag("rates", rates).raw("by", seq(by)).out();
		}
	}
	else if(cmd == "near")		// near <bodies> <seed> <kind> <k> <step>*k : <engine>; the same for the neighbour scheme
	{
		size_t n, seed, k;
		int kind;
		in >> n >> seed >> kind >> k;
		std::vector<size_t> steps(k);
		for(size_t& x : steps) in >> x;
		QVariantMap par(params(in));
		double far = par.value("max_dist", 10.0).toDouble(), weak = par.value("min_force", 1e-4).toDouble();
		mix m(seed);
		scene s;
		weigh(s, n, m, kind);
		bench b;
		ev("history").num("n", (long long)n).flag("ok", b.start(par, s)).out();
		if(!b.f) return;
		std::vector<places> was;
		for(size_t v = 0; v != k; ++v)
		{
			if(v == 0 || m.next() % 2) place(s, n, m, kind, 1.0);
			else for(auto& x : s.x) for(int d = 0; d != 3; ++d) x.c[d] = double(x.c[d] + 0.2 * (m.uni() - 0.5));
			was.push_back(s.x);
			b.d.set_step(steps[v]);
			bool rates;
			std::vector<double> f(b.compute(s, rates));
			std::vector<long> by;
			for(size_t g = 0; g <= v; ++g)
			{
				long worst = 0;
				for(size_t i = 0; i != n && worst <= 1000; ++i)
				{
					real a[3] = {0, 0, 0}, mag = 0;
					bool close = false;
					for(size_t j = 0; j != n; ++j) if(j != i)
					{
						const places& x = was[g];
						real d = dist(x[i], x[j]), r2 = std::max<real>(d * d, lim), fo = s.mass[i] * s.mass[j] * d / (r2 * sqrtl(r2));
						close = close || fabsl(d - far) < 1e-9L * far || fabsl(fo - weak) < 1e-9L * weak;
						const places& y = d < far || fo > weak ? s.x : x;
						pull(y[i], y[j], s.mass[j], s.coord, true, a, mag);
					}
					double o[3];
					shown(f, n, i, o);
					if(!close) worst = std::max(worst, units(o, a, mag));
				}
				if(worst <= 1000) by.push_back(long(g) + 1);
			}
			ev("compute").num("step", (long long)steps[v]).num("v", (long long)v + 1).flag("rates", rates).raw("by", seq(by)).out();
		}
	}
}

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string line;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		std::string cmd;
		in >> cmd;
		try { command(cmd, in); }
		catch(const std::exception& x) { ev("threw").str("cmd", line).str("what", x.what()).out(); }
	}
	return 0;
}
