// Objects made by the factories from argument lists, compared with objects built directly.
// stdin, fields separated by |:  parse|arg|arg...      make|solver or engine|kind k=v ...|arg|arg...
//  (settings of an Adams solver's starter are written starter.k=v, its kind starter=kind; all settings are given)
#include "hcommon.h"
#include <memory>
#include <exception>
#include <functional>
#include "nbody_arg_parser.h"
#include "nbody_solvers.h"
#include "nbody_engines.h"

typedef std::map<std::string, std::string> dict;
static std::vector<std::string> split(const std::string& s, char c)
{
	std::vector<std::string> r(1);
	for(char x : s) if(x == c) r.push_back(""); else r.back() += x;
	return r;
}
static double num(const dict& d, const std::string& k) { return strtod(d.at(k).c_str(), nullptr); }
static size_t cnt(const dict& d, const std::string& k) { return strtoull(d.at(k).c_str(), nullptr, 10); }
static bool yes(const dict& d, const std::string& k) { return d.at(k) == "true"; }

template<class S> static nbody_solver* rk(const dict& d, const std::string& p)
{
	nbody_solver_rk_butcher* s = new S();
	s->set_error_threshold(num(d, p + "error_threshold"));
	s->set_max_recursion(cnt(d, p + "max_recursion"));
	s->set_refine_steps_count(cnt(d, p + "refine_steps_count"));
	s->set_substep_subdivisions(cnt(d, p + "substep_subdivisions"));
	s->set_correction(yes(d, p + "correction"));
	return s;
}
static nbody_solver* direct(const dict& d, const std::string& kind, const std::string& p)
{
	nbody_solver* s = nullptr;
	if(kind == "adams") s = new nbody_solver_adams(direct(d, d.at("starter"), "starter."), cnt(d, p + "rank"), yes(d, p + "correction"));
	else if(kind == "bs") s = new nbody_solver_bulirsch_stoer(cnt(d, p + "max_level"), num(d, p + "error_threshold"));
	else if(kind == "euler") s = new nbody_solver_euler();
	else if(kind == "midpoint") s = new nbody_solver_midpoint();
	else if(kind == "midpoint-st") s = new nbody_solver_midpoint_stetter();
	else if(kind == "rk4") s = new nbody_solver_rk4();
	else if(kind == "rkck") s = rk<nbody_solver_rkck>(d, p);
	else if(kind == "rkdp") s = rk<nbody_solver_rkdp>(d, p);
	else if(kind == "rkdverk") s = rk<nbody_solver_rkdverk>(d, p);
	else if(kind == "rkf") s = rk<nbody_solver_rkf>(d, p);
	else if(kind == "rkfeagin10") s = rk<nbody_solver_rkfeagin10>(d, p);
	else if(kind == "rkfeagin12") s = rk<nbody_solver_rkfeagin12>(d, p);
	else if(kind == "rkfeagin14") s = rk<nbody_solver_rkfeagin14>(d, p);
	else if(kind == "rkgl") s = rk<nbody_solver_rkgl>(d, p);
	else if(kind == "rklc") s = rk<nbody_solver_rklc>(d, p);
	else if(kind == "trapeze") { nbody_solver_trapeze* t = new nbody_solver_trapeze(); t->set_refine_steps_count(cnt(d, p + "refine_steps_count")); s = t; }
	else abort();
	s->set_time_step(num(d, p + "min_step"), num(d, p + "max_step"));
	s->set_clamp_to_box(yes(d, p + "clamp"));
	return s;
}
static nbody_engine* direct_engine(const dict& d, const std::string& kind)
{
	e_traverse_type tt = d.count("traverse_type") && d.at("traverse_type") == "nested_tree" ? ett_nested_tree : ett_cycle;
	std::string lay = d.count("tree_layout") ? d.at("tree_layout") : "";
	if(kind == "simple") return new nbody_engine_simple();
	if(kind == "openmp") return new nbody_engine_openmp();
	if(kind == "block") return new nbody_engine_block();
	if(kind == "ah") return new nbody_engine_ah(cnt(d, "full_recompute_rate"), num(d, "max_dist"), num(d, "min_force"));
	if(kind == "simple_bh")
	{
		double r = num(d, "distance_to_node_radius_ratio");
		size_t b = cnt(d, "tree_build_rate");
		if(lay == "tree") return new nbody_engine_simple_bh_tree(r, tt, b);
		if(lay == "heap") return new nbody_engine_simple_bh_heap(r, tt, b);
		return new nbody_engine_simple_bh_heap_stackless(r, tt, b);
	}
	nbody_engine_opencl* e = kind == "opencl" ? new nbody_engine_opencl() :
		new nbody_engine_opencl_bh(num(d, "distance_to_node_radius_ratio"), tt, cnt(d, "tree_build_rate"), lay == "heap" ? etl_heap : etl_heap_stackless);
	e->set_block_size(int(cnt(d, "block_size")));
	if(0 != e->select_devices(QString::fromStdString(d.at("device")), false, false)) abort();
	return e;
}

static uint64_t fnv(const void* p, size_t n, uint64_t h)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for(size_t i = 0; i != n; ++i) h = (h ^ c[i]) * 1099511628211ull;
	return h;
}
static void bodies(nbody_data& d, int n, double speed, double box)
{
	mix m(77);
	for(int i = 0; i != n; ++i)
		d.add_body(nbvertex_t((2 * m.uni() - 1) * box, (2 * m.uni() - 1) * box, (2 * m.uni() - 1) * box),
				   nbvertex_t((2 * m.uni() - 1) * speed, (2 * m.uni() - 1) * speed, (2 * m.uni() - 1) * speed), 0.2 + m.uni(), nbcolor_t(1, 1, 1, 1), 0);
	d.set_box_size(1);
}
// what a solver does to some bodies: type, steps, time and coordinates
static std::string behaviour(nbody_solver* s, bool tight)
{
	nbody_data d;
	bodies(d, 6, 9, 1);
	if(tight) d.get_vertites()[1] = nbvertex_t(d.get_vertites()[0].x + 0.02, d.get_vertites()[0].y - 0.03, d.get_vertites()[0].z + 0.01);
	nbody_engine_simple e;
	if(!e.init(&d)) abort();
	s->set_engine(&e);
	std::string r(s->type_name());
	double mx = s->get_max_step();
	int rc = s->run(&d, nullptr, 14 * mx, 0, 0);
	e.get_data(&d);
	uint64_t h = fnv(d.get_vertites(), d.get_count() * sizeof(nbvertex_t), 14695981039346656037ull);
	h = fnv(d.get_velosites(), d.get_count() * sizeof(nbvertex_t), h);
	char b[200];
	snprintf(b, sizeof b, " %d %zu %.17g %.17g %.17g %016llx", rc, d.get_step(), double(d.get_time()), double(s->get_min_step()), mx, (unsigned long long)h);
	delete s;
	return r + b;
}
static std::string behaviour(nbody_engine* e, int n, double size)
{
	nbody_data d;
	bodies(d, n, 1, size);
	std::string r(e->type_name());
	if(!e->init(&d)) { delete e; return r + " no init"; }
	uint64_t h = 14695981039346656037ull;
	size_t ps = e->problem_size();
	nbody_engine::memory* f = e->create_buffer(ps * sizeof(nbcoord_t));
	nbody_engine::memory* y = e->get_y();
	std::vector<nbcoord_t> v(ps), w(ps);
	e->read_buffer(v.data(), y);
	for(int k = 0; k != 7; ++k)
	{
		try { e->fcompute(0, y, f); }
		catch(const std::exception& x) { delete e; return r + " refuses"; }		// (OpenCL: they fill no whole blocks)
		e->read_buffer(w.data(), f);
		h = fnv(w.data(), ps * sizeof(nbcoord_t), h);
		for(size_t i = 0; i != ps / 2; ++i) v[i] += 0.3 * sin(double(i * (k + 1)));
		e->write_buffer(y, v.data());
		e->advise_time(0.5);
	}
	e->free_buffer(f);
	char b[40];
	snprintf(b, sizeof b, " %016llx", (unsigned long long)h);
	delete e;
	return r + b;
}
static dict settings(const std::string& text, std::string& kind)
{
	std::istringstream in(text);
	in >> kind;
	std::string w;
	dict d;
	while(in >> w) { size_t e = w.find('='); d[w.substr(0, e)] = w.substr(e + 1); }
	return d;
}

int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string line;
	std::map<std::string, std::string> known;		// what a directly built object does
	while(std::getline(std::cin, line))
	{
		std::vector<std::string> f(split(line, '|'));
		size_t first = f[0] == "parse" ? 1 : 3;
		std::vector<std::string> a(1, "program");
		a.insert(a.end(), f.begin() + first, f.end());
		std::vector<char*> argv;
		for(std::string& s : a) argv.push_back(&s[0]);
		QVariantMap p(nbody_parse_arguments(int(argv.size()), argv.data()));
		if(f[0] == "parse")
		{
			std::string s("[");
			for(auto i = p.begin(); i != p.end(); ++i)
				s += (s.size() > 1 ? "," : "") + std::string("{\"name\":") + jstr(i.key().toStdString()) + ",\"value\":" + jstr(i.value().toString().toStdString()) + "}";
			ev("parse").raw("got", s + "]").out();
			continue;
		}
		std::string kind, made, same;
		dict d(settings(f[2], kind));
		ev e("make");
		if(f[1] == "solver")
		{
			nbody_solver* s = nbody_create_solver(p);
			bool is = s != nullptr;
			e.flag("made", is);
			if(is) made = behaviour(s, false) + behaviour(nbody_create_solver(p), true);
			if(is && kind != "refused" && !known.count(f[2])) known[f[2]] = behaviour(direct(d, kind, ""), false) + behaviour(direct(d, kind, ""), true);
		}
		else
		{
			nbody_engine* s = nbody_create_engine(p);
			bool is = s != nullptr;
			e.flag("made", is);
			auto all = [&](nbody_engine* x, std::function<nbody_engine*()> again) { std::string r(behaviour(x, 24, 2)); return r + behaviour(again(), 48, 9) + behaviour(again(), 24, 70) + behaviour(again(), 64, 9); };
			if(is) made = all(s, [&]() { return nbody_create_engine(p); });
			if(is && kind != "refused" && !known.count(f[2])) known[f[2]] = all(direct_engine(d, kind), [&]() { return direct_engine(d, kind); });
		}
		same = known.count(f[2]) ? known[f[2]] : "";
		e.flag("same", made == same && !made.empty()).str("does", made).str("direct", same).out();
	}
	return 0;
}
