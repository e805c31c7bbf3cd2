// Wrapping into the box, by itself and in runs.
// stdin:  clamp <which: y or b> <n> <b ticks> <power of two per tick> <3n ticks> : engine=... ...
//         run <n> <box> <ticks per unit> <steps> <clamp 0/1> <3n ticks> <3n ticks per step> : engine=.. solver=..
#include "hcommon.h"
#include <memory>
#include "nbody_engines.h"
#include "nbody_solvers.h"

static QVariantMap params(std::istringstream& in)
{
	QVariantMap p;
	std::string w;
	while(in >> w)
	{
		if(w == ":") continue;
		size_t e = w.find('=');
		p[QString::fromStdString(w.substr(0, e))] = QString::fromStdString(w.substr(e + 1));
	}
	return p;
}
// a whole number of ticks, exactly or up to rounding
static std::string tick(double x, double unit, double tol)
{
	double t = x / unit, r = std::round(t);
	return std::isfinite(t) && fabs(t) < 1e9 && fabs(t - r) <= tol ? std::to_string((long long)r) : "-987654321";
}
static std::string list(const std::vector<double>& v, size_t from, size_t n, double unit, double tol)
{
	std::string s("[");
	for(size_t i = 0; i != n; ++i) s += (i ? "," : "") + tick(v[from + i], unit, tol);
	return s + "]";
}
int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string line, cmd;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		in >> cmd;
		if(cmd == "clamp")
		{
			std::string which; size_t n; long long b; int ex;
			in >> which >> n >> b >> ex;
			double unit = std::ldexp(1.0, ex);
			std::vector<double> y(6 * n), z(6 * n), was, mass(n);
			for(size_t i = 0; i != 3 * n; ++i) { long long t; in >> t; y[i] = double(t) * unit; }
			mix m(n);
			for(size_t i = 3 * n; i != 6 * n; ++i) y[i] = (m.uni() - 0.5) * 100 * double(b) * unit;
			QVariantMap p(params(in));
			nbody_data d;
			for(size_t i = 0; i != n; ++i) d.add_body(nbvertex_t(double(i), 0, 0), nbvertex_t(0, 0, 0), mass[i] = 1 + double(i), nbcolor_t(1, 1, 1, 1), 0);
			std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
			if(!e || !e->init(&d)) return 3;
			nbody_engine::memory* other = e->create_buffer(y.size() * sizeof(double));
			nbody_engine::memory* a = which == "y" ? e->get_y() : other;
			nbody_engine::memory* o = which == "y" ? other : e->get_y();
			e->write_buffer(a, y.data());
			e->write_buffer(o, y.data());
			was = y;
			e->clamp(a, double(b) * unit);
			e->read_buffer(y.data(), a);
			e->read_buffer(z.data(), o);
			bool keep = z == was;
			for(size_t i = 3 * n; i != 6 * n; ++i) keep = keep && y[i] == was[i];
			for(size_t i = 0; i != n; ++i) keep = keep && d.get_mass()[i] == mass[i];
			std::string s1("["), s2("[");
			for(int k = 0; k != 3; ++k) { s1 += (k ? "," : "") + list(was, k * n, n, unit, 0); s2 += (k ? "," : "") + list(y, k * n, n, unit, 0); }
			// every copy the engine keeps must be the wrapped one: what is computed from it is what is computed from the values read
			std::unique_ptr<nbody_engine> e2(nbody_create_engine(p));
			if(!e2 || !e2->init(&d)) return 3;
			nbody_engine::memory* f1 = e->create_buffer(y.size() * sizeof(double));
			nbody_engine::memory* f2 = e2->create_buffer(y.size() * sizeof(double));
			nbody_engine::memory* y2 = e2->create_buffer(y.size() * sizeof(double));
			std::vector<double> a1(6 * n), a2(6 * n);
			e2->write_buffer(y2, y.data());
			e->fcompute(0, a, f1);
			e2->fcompute(0, y2, f2);
			e->read_buffer(a1.data(), f1);
			e2->read_buffer(a2.data(), f2);
			double top = 0;
			for(double t : a2) if(std::isfinite(t)) top = std::max(top, fabs(t));
			for(size_t i = 0; i != 6 * n; ++i) keep = keep && ((!std::isfinite(a1[i]) && !std::isfinite(a2[i])) || fabs(a1[i] - a2[i]) <= 1e-6 * (i < 3 * n ? fabs(a2[i]) : top));
			e->free_buffer(f1); e2->free_buffer(f2); e2->free_buffer(y2);
			ev("clamp").num("b", b).raw("before", s1 + "]").raw("after", s2 + "]").flag("keep", keep).out();
			e->free_buffer(other);
		}
		else if(cmd == "run")
		{
			size_t n, box, per; int steps, cl;
			in >> n >> box >> per >> steps >> cl;
			const double dt = 1.0 / 64, unit = 1.0 / double(per);
			std::vector<double> x(3 * n), v(3 * n), y(6 * n);
			for(double& t : x) in >> t;
			for(double& t : v) in >> t;
			QVariantMap p(params(in));
			p["max_step"] = dt; p["min_step"] = 1e-9; p["clamp"] = cl ? "true" : "false";
			nbody_data d;
			for(size_t i = 0; i != n; ++i)
				d.add_body(nbvertex_t(x[i] * unit, x[n + i] * unit, x[2 * n + i] * unit), nbvertex_t(v[i] * unit / dt, v[n + i] * unit / dt, v[2 * n + i] * unit / dt), 1e-290, nbcolor_t(1, 1, 1, 1), 0);
			d.set_box_size(box);
			std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
			if(!e || !e->init(&d)) return 3;
			std::unique_ptr<nbody_solver> s(nbody_create_solver(p));
			if(!s) return 3;
			s->set_engine(e.get());
			int rc = s->run(&d, nullptr, steps * dt - dt / 4, 0, 0);
			e->read_buffer(y.data(), e->get_y());
			bool keep = d.get_box_size() == box;
			for(size_t i = 0; i != 3 * n; ++i) keep = keep && fabs(y[3 * n + i] - v[i] * unit / dt) < 1e-9;
			for(size_t i = 0; i != n; ++i) keep = keep && d.get_mass()[i] == 1e-290;
			std::string vs("[");
			for(size_t i = 0; i != 3 * n; ++i) vs += (i ? "," : "") + std::to_string((long long)v[i]);
			ev("run").num("rc", rc).num("b", (long long)(box * per)).num("steps", steps).flag("clamp", cl).raw("before", list(x, 0, 3 * n, 1, 0)).raw("vel", vs + "]").raw("after", list(y, 0, 3 * n, unit, 1e-6)).flag("keep", keep).out();
		}
		else return 2;
	}
	return 0;
}
