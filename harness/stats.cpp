// Conservation statistics of nbody_data.
// stdin:  start <engine name> <time> <step> <n> <7n ints> | list <letters or -> | bodies <n> <7n> | engine <n> <7n> | stat <0/1> <time> <step> | random <n> <seed> <scale>
#include "hcommon.h"
#include <memory>
#include "nbody_engines.h"

static std::string line_out;
static void keep(QtMsgType, const QMessageLogContext&, const QString& s) { line_out += s.toStdString() + "\n"; }
static std::unique_ptr<nbody_data> data, own;		// own: the object the engine was started with
static std::unique_ptr<nbody_engine> engine;
static std::string checked("PLV");
typedef std::vector<std::vector<double>> table;

static table read(std::istringstream& in)
{
	size_t n; in >> n;
	table t(n, std::vector<double>(7));
	for(auto& b : t) for(double& x : b) in >> x;
	return t;
}
static void put(nbody_data& d, const table& t)
{
	d.resize(t.size());
	for(size_t i = 0; i != t.size(); ++i)
	{
		d.get_vertites()[i] = nbvertex_t(t[i][0], t[i][1], t[i][2]);
		d.get_velosites()[i] = nbvertex_t(t[i][3], t[i][4], t[i][5]);
		d.get_mass()[i] = t[i][6];
	}
}
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, x == floor(x) && fabs(x) < 1e9 ? "%.0f" : "%.17g", x == 0 ? 0.0 : x); return b; }
static std::string text(const nbvertex_t* r, const nbvertex_t* v, const nbcoord_t* m, size_t n)
{
	std::string s("[");
	for(size_t i = 0; i != n; ++i)
		s += (i ? ",[" : "[") + num(r[i].x) + "," + num(r[i].y) + "," + num(r[i].z) + "," + num(v[i].x) + "," + num(v[i].y) + "," + num(v[i].z) + "," + num(m[i]) + "]";
	return s + "]";
}
static std::string text(const nbody_data& d) { return text(d.get_vertites(), d.get_velosites(), d.get_mass(), d.get_count()); }
static std::string held()
{
	size_t n = own->get_count();
	std::vector<nbcoord_t> y(6 * n);
	engine->read_buffer(y.data(), engine->get_y());
	std::vector<nbvertex_t> r(n), v(n);
	for(size_t i = 0; i != n; ++i) { r[i] = nbvertex_t(y[i], y[n + i], y[2 * n + i]); v[i] = nbvertex_t(y[3 * n + i], y[4 * n + i], y[5 * n + i]); }
	return text(r.data(), v.data(), own->get_mass(), n);
}
static std::string vec(const nbvertex_t& v, double f) { char b[120]; snprintf(b, sizeof b, "[%.17g,%.17g,%.17g]", v.x * f, v.y * f, v.z * f); return b; }
static std::string val(double x) { char b[60]; snprintf(b, sizeof b, std::isfinite(x) ? "%.17g" : "\"%g\"", x); return b; }
static std::string sca(double x) { char b[60]; snprintf(b, sizeof b, "[%.17g]", x); return b; }
static double mass() { double s = 0; for(size_t i = 0; i != data->get_count(); ++i) s += data->get_mass()[i]; return s; }

int main()
{
	qInstallMessageHandler(keep);
	std::string line, cmd, w;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		in >> cmd;
		if(cmd == "start")
		{
			double t; size_t st;
			in >> w >> t >> st;
			table b(read(in));
			engine.reset();
			data.reset(new nbody_data);
			own.reset(new nbody_data);
			put(*data, b); put(*own, b);
			data->set_time(t); data->set_step(st); data->set_box_size(17);
			QVariantMap p;
			p["engine"] = QString::fromStdString(w);
			engine.reset(nbody_create_engine(p));
			if(!engine || !engine->init(own.get())) return 3;
			checked = "PLV";
			ev("start").raw("bodies", text(*data)).out();
		}
		else if(cmd == "list") { in >> w; checked = w == "-" ? "" : w; data->set_check_list(QString::fromStdString(checked)); std::string s("["); for(char c : checked) s += (s.size() > 1 ? ",\"" : "\"") + std::string(1, c) + "\""; ev("list").raw("list", s + "]").out(); }
		else if(cmd == "bodies") { put(*data, read(in)); ev("bodies").raw("bodies", text(*data)).out(); }
		else if(cmd == "engine")
		{
			table b(read(in));
			std::vector<nbcoord_t> y(6 * b.size());
			for(size_t i = 0; i != b.size(); ++i) for(int k = 0; k != 6; ++k) y[k * b.size() + i] = b[i][k];
			engine->write_buffer(engine->get_y(), y.data());
			ev("engine").raw("bodies", held()).out();
		}
		else if(cmd == "stat")
		{
			int we; double t; size_t st, n = data->get_count();
			in >> we >> t >> st;
			data->set_time(t);
			data->set_step(st);
			line_out.clear();
			data->print_statistics(we ? engine.get() : nullptr);
			double M = mass();
			nbvertex_t way(data->get_last_mass_center() - data->get_initial_mass_center());
			ev("stat").flag("engine", we).raw("bodies", text(*data)).raw("held", held())
				.flag("kept", data->get_time() == t && data->get_step() == st && data->get_count() == n && data->get_box_size() == 17)
				.raw("ref", "{\"P\":" + vec(data->get_initial_impulce(), 1) + ",\"L\":" + vec(data->get_initial_impulce_moment(), 1) + ",\"V\":" + vec(data->get_initial_mass_center(), M) + ",\"E\":" + sca(data->get_initial_energy()) + "}")
				.raw("last", "{\"P\":" + vec(data->get_last_total_impulce(), 1) + ",\"L\":" + vec(data->get_last_total_impulce_moment(), 1) + ",\"V\":" + vec(data->get_last_mass_center(), M) + ",\"E\":" + sca(data->get_last_total_energy()) + "}")
				.raw("err", "{\"P\":" + val(data->get_impulce_err()) + ",\"L\":" + val(data->get_impulce_moment_err()) + ",\"E\":" + val(data->get_energy_err()) + "}")
				.raw("vcm", val(way.length() / t)).str("line", line_out).str("list", checked).out();
		}
		else if(cmd == "random")
		{
			// totals of arbitrary bodies against long double sums
			size_t n; uint64_t seed; double scale;
			in >> n >> seed >> scale;
			mix m(seed);
			nbody_data d;
			auto u = [&]() { return (2 * m.uni() - 1) * pow(10.0, scale * (2 * m.uni() - 1)); };
			for(size_t i = 0; i != n; ++i) { double a = u(), b = u(), c = u(), e = u(), f = u(), g = u(); d.add_body(nbvertex_t(a, b, c), nbvertex_t(e, f, g), fabs(u()) + 0.01, nbcolor_t(1, 1, 1, 1), 0); }
			d.set_check_list("PLVE");
			d.set_time(1);
			d.print_statistics(nullptr);
			long double P[3] = {0}, L[3] = {0}, C[3] = {0}, M = 0, E = 0, aP = 0, aL = 0, aC = 0, aE = 0;
			for(size_t i = 0; i != n; ++i)
			{
				const nbvertex_t& r = d.get_vertites()[i];
				const nbvertex_t& v = d.get_velosites()[i];
				long double ms = d.get_mass()[i], x[3] = { r.x, r.y, r.z }, y[3] = { v.x, v.y, v.z };
				M += ms;
				for(int k = 0; k != 3; ++k)
				{
					int a = (k + 1) % 3, b = (k + 2) % 3;
					P[k] += ms * y[k]; aP += fabsl(ms * y[k]);
					L[k] += ms * (x[a] * y[b] - x[b] * y[a]); aL += ms * (fabsl(x[a] * y[b]) + fabsl(x[b] * y[a]));
					C[k] += ms * x[k]; aC += fabsl(ms * x[k]);
					E += ms * y[k] * y[k] / 2; aE += ms * y[k] * y[k] / 2;
				}
				for(size_t j = 0; j != i; ++j)
				{
					const nbvertex_t& q = d.get_vertites()[j];
					long double r2 = (x[0] - q.x) * (x[0] - q.x) + (x[1] - q.y) * (x[1] - q.y) + (x[2] - q.z) * (x[2] - q.z);
					long double e = r2 < 1e-8L ? 0 : ms * d.get_mass()[j] / sqrtl(r2);
					if(fabsl(r2 - 1e-8L) < 1e-10L) e = 0;
					E -= e; aE += e;
				}
			}
			nbvertex_t p(d.get_last_total_impulce()), l(d.get_last_total_impulce_moment()), c(d.get_last_mass_center());
			const long double eps = 1e-12L;
			bool ok = fabsl(p.x - P[0]) + fabsl(p.y - P[1]) + fabsl(p.z - P[2]) <= eps * aP && fabsl(l.x - L[0]) + fabsl(l.y - L[1]) + fabsl(l.z - L[2]) <= eps * aL
				&& fabsl(c.x * M - C[0]) + fabsl(c.y * M - C[1]) + fabsl(c.z * M - C[2]) <= eps * aC && fabsl(d.get_last_total_energy() - E) <= eps * aE;
			ev("close").num("n", n).flag("ok", ok).out();
		}
		else return 2;
	}
	return 0;
}
