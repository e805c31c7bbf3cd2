// Body files: load, load_initial, load_zeno_ascii and save of nbody_data.
// stdin: fresh | load <file> <unit 0..2> | zeno <file> | initial <file> <name or @>  | round <file> <n> <8n hex doubles> | save <file> <n>
#include "hcommon.h"
#include <memory>
#include <fstream>

static std::unique_ptr<nbody_data> data;
static std::string hex(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, sizeof b, "\"%016llx\"", (unsigned long long)u); return b; }
static double unhex(const std::string& s) { uint64_t u = strtoull(s.c_str(), nullptr, 16); double d; memcpy(&d, &u, 8); return d; }
// the radius shows in what save writes only
static std::vector<double> radii(const nbody_data& d, const QString& tmp)
{
	std::vector<double> r;
	if(d.save(tmp))
	{
		std::ifstream f(tmp.toStdString());
		std::string line, w;
		while(std::getline(f, line))
		{
			std::istringstream in(line);
			for(int k = 0; k != 8; ++k) { w.clear(); in >> w; }
			r.push_back(w.empty() ? NAN : strtod(w.c_str(), nullptr));
		}
	}
	r.resize(d.get_count(), NAN);
	return r;
}
static std::string bodies(const nbody_data& d, const std::vector<double>& rad)
{
	std::string s("[");
	for(size_t n = 0; n != d.get_count(); ++n)
	{
		const nbvertex_t& r = d.get_vertites()[n];
		const nbvertex_t& v = d.get_velosites()[n];
		s += (n ? ",[" : "[") + hex(r.x) + "," + hex(r.y) + "," + hex(r.z) + "," + hex(v.x) + "," + hex(v.y) + "," + hex(v.z) + "," + hex(d.get_mass()[n]) + "," + hex(rad[n]) + "]";
	}
	return s + "]";
}
int main()
{
	qInstallMessageHandler(quiet_messages);
	data.reset(new nbody_data);
	std::string line, cmd, fn, w;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		in >> cmd;
		if(cmd == "fresh") { data.reset(new nbody_data); continue; }
		in >> fn;
		QString q(QString::fromStdString(fn));
		if(cmd == "round")
		{
			size_t n; in >> n;
			nbody_data d;
			std::vector<double> rad;
			for(size_t i = 0; i != n; ++i)
			{
				double c[8];
				for(double& x : c) { in >> w; x = unhex(w); }
				d.add_body(nbvertex_t(c[0], c[1], c[2]), nbvertex_t(c[3], c[4], c[5]), c[6], nbcolor_t(1, 1, 1, 1), c[7]);
				rad.push_back(c[7]);
			}
			bool saved = d.save(q), loaded = data->load(q);
			ev("round").raw("before", bodies(d, rad)).flag("saved", saved).flag("loaded", loaded).raw("after", bodies(*data, radii(*data, q + ".again"))).out();
			continue;
		}
		if(cmd == "save")
		{
			size_t n; in >> n;
			nbody_data d;
			for(size_t i = 0; i != n; ++i) d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 7, nbcolor_t(1, 1, 1, 1), 8);
			ev("save").flag("ok", d.save(q)).out();
			continue;
		}
		bool ok = false;
		if(cmd == "load") { int u; in >> u; ok = data->load(q, u == 0 ? eut_G1 : u == 1 ? eut_SI : eut_au_day_kg); }
		else if(cmd == "zeno") ok = data->load_zeno_ascii(q);
		else if(cmd == "initial") { in >> w; ok = data->load_initial(q, w == "@" ? QString() : QString::fromStdString(w)); }
		else return 2;
		ev("load").flag("ok", ok).raw("bodies", ok ? bodies(*data, radii(*data, q + ".again")) : "[]").out();
	}
	return 0;
}
