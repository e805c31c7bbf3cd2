// Calls into streams, readers, body tables and runs while the operating system refuses chosen file operations.
// stdin:
//   start <dir> | data <run> <n> <box> | open <nm> <limit> | append <nm> <limit> | close
//   fault <k> <torn> <errno> <suffix or -> <sticky>      applies to the next call
//   write <fid> <step> <time> <run> | look <nm> | faultyread <nm> | run <frames> | save <run> | loadtable <rows>
//   idx <json-less description>                          see do_idx
#include "hcommon.h"
#include <memory>
#include <sys/stat.h>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "nbody_engine_simple.h"
#include "nbody_solver_euler.h"
#include "fault.h"

static std::string dir, cur;
static std::map<int, std::unique_ptr<nbody_data>> runs;
static std::map<std::string, int> content, masses, colors;
static std::unique_ptr<nbody_data_stream> writer;
static struct { int at, torn, err, sticky; std::string kind; bool pending; } want;

static QString base(const std::string& nm) { return QString::fromStdString(dir + "/" + nm + "/s"); }
static std::string bytes(const void* p, size_t n) { return std::string(static_cast<const char*>(p), n); }
static std::string frame_bytes(const nbody_data& d)
{
	return bytes(d.get_vertites(), sizeof(nbvertex_t) * d.get_count()) + bytes(d.get_velosites(), sizeof(nbvertex_t) * d.get_count());
}
static void arm()
{
	fault::refused = fault::count = fault::hits = 0;
	fault::shortened = false;
	if(!want.pending) return;
	fault::at = want.at; fault::torn = want.torn; fault::err = want.err; fault::from = want.sticky; fault::kind = want.kind;
	fault::action = fault::fail;
	fault::root = dir;
	fault::armed = true;
}
static int disarm()
{
	fault::armed = false;
	fault::action = fault::none;
	want.pending = false;
	int r = fault::refused;
	fault::refused = 0;
	return r;
}
static void make_run(int run, size_t n, size_t box)
{
	std::string fn(dir + "/init.txt");
	FILE* f = fopen(fn.c_str(), "w");
	for(size_t i = 0; i != n; ++i) fprintf(f, "%zu %zu 0 0 0 0 1\n", box, i % box);
	fclose(f);
	std::unique_ptr<nbody_data> d(new nbody_data);
	if(!d->load_initial(QString::fromStdString(fn), "G1")) exit(3);
	for(size_t i = 0; i != n; ++i)
	{
		d->get_mass()[i] = run + 0.001 * double(i);
		d->get_color()[i] = nbcolor_t(float(run), float(i), 0, 1);
	}
	masses[bytes(d->get_mass(), n * sizeof(nbcoord_t))] = run;
	colors[bytes(d->get_color(), n * sizeof(nbcolor_t))] = run;
	runs[run] = std::move(d);
}
static void fill_frame(nbody_data& d, int fid)
{
	mix m(uint64_t(9900 + fid));
	for(size_t i = 0; i != d.get_count(); ++i)
	{
		d.get_vertites()[i] = nbvertex_t(m.uni(), m.uni(), fid);
		d.get_velosites()[i] = nbvertex_t(m.uni(), m.uni(), -fid);
	}
	content[frame_bytes(d)] = fid;
}
static std::string read_all(nbody_data_stream_reader& rd, int& rc, int& mass, int& col)
{
	std::string fr("[");
	nbody_data d;
	d.resize(rd.get_body_count());
	for(size_t k = 0; k != rd.get_frame_count(); ++k)
	{
		memset((void*)d.get_vertites(), 0x5a, sizeof(nbvertex_t) * d.get_count());
		memset((void*)d.get_velosites(), 0x5a, sizeof(nbvertex_t) * d.get_count());
		int r = rd.seek(k);
		if(r == 0) r = rd.read(&d);
		if(r != 0) rc = r;
		auto it = content.find(frame_bytes(d));
		if(k) fr += ",";
		fr += "{\"fid\":" + std::to_string(r == 0 && it != content.end() ? it->second : 0) + ",\"step\":" + jstr(fmt_u(d.get_step())) + ",\"time\":" + jstr(fmt_time(d.get_time())) + "}";
	}
	auto m = masses.find(bytes(d.get_mass(), d.get_count() * sizeof(nbcoord_t)));
	auto c = colors.find(bytes(d.get_color(), d.get_count() * sizeof(nbcolor_t)));
	mass = m == masses.end() ? -1 : m->second;
	col = c == colors.end() ? -1 : c->second;
	return fr + "]";
}

// idx <c> <b> <x> <k> <kinds...>: writes a three-frame stream, then an index made of lines of these kinds, then reads everything
static void do_idx(std::istringstream& is)
{
	std::string c, b, x; int k; std::vector<std::string> kinds;
	is >> c >> b >> x >> k;
	for(int i = 0; i < k; ++i) { std::string s; is >> s; kinds.push_back(s); }
	const size_t n = 3;
	static nbody_data* d = NULL;
	if(!runs.count(1)) make_run(1, n, 4);
	d = runs[1].get();
	{
		nbody_data_stream w;
		w.open(base("i"), 0);
		for(int f = 1; f <= 4; ++f) { fill_frame(*d, f); d->set_step(size_t(f)); d->set_time(f); w.write(d); }
		w.close();
	}
	std::string t;
	auto hdr = [&](const std::string& key, const std::string& kind, const std::string& good)
	{
		if(kind == "ok") t += key + " " + good + "\n";
		else if(kind == "text") t += key + " x\n";
		else if(kind == "short") t += key + "\n";
		else if(kind == "zero") t += key + " 0\n";
		else if(kind == "other") t += key + " 4\n";
	};
	hdr("#coord_size", c, "8");
	hdr("#body_count", b, "3");
	hdr("#box_size", x, "4");
	for(int i = 0; i < k; ++i)
	{
		const std::string& q(kinds[size_t(i)]);
		std::string st(std::to_string(i + 1)), tm(std::to_string(i + 1)), part("0"), off(std::to_string(size_t(i) * n * 48));
		if(q == "few") { t += st + "\t" + tm + "\t" + part + "\n"; continue; }
		if(q == "many") { t += st + "\t" + tm + "\t" + part + "\t" + off + "\t0\n"; continue; }
		if(q == "step") st = "one";
		if(q == "time") tm = "1,5x";
		if(q == "part") part = "p";
		if(q == "off") off = "12z";
		if(q == "negoff") off = "-144";
		if(q == "far") off = "100000";
		if(q == "nopart") part = "7";
		if(q == "tail") off = std::to_string(4 * n * 48 - n * 48 / 2);
		t += st + "\t" + tm + "\t" + part + "\t" + off + "\n";
	}
	FILE* f = fopen((dir + "/i/s.idx").c_str(), "w");
	fputs(t.c_str(), f);
	fclose(f);
	nbody_data_stream_reader rd;
	ev e("idx");
	int rc = rd.load(base("i"));
	e.num("rc", rc);
	std::string fr("[");
	if(rc == 0)
	{
		nbody_data out;
		out.resize(rd.get_body_count());
		for(size_t i = 0; i != rd.get_frame_count(); ++i)
		{
			memset((void*)out.get_vertites(), 0x5a, sizeof(nbvertex_t) * out.get_count());
			int r = rd.seek(i);
			if(r == 0) r = rd.read(&out);
			auto it = content.find(frame_bytes(out));
			if(i) fr += ",";
			fr += r != 0 ? "-1" : std::to_string(it == content.end() ? 0 : it->second);
		}
	}
	e.raw("frames", fr + "]").out();
}

// spoil <what> <bytes>: a good three-frame stream in two parts loses a file or its end; then everything is read
static void do_spoil(std::istringstream& is)
{
	std::string what; long cut;
	is >> what >> cut;
	if(!runs.count(2)) make_run(2, 5, 4);
	nbody_data* d = runs[2].get();
	{
		nbody_data_stream w;
		w.open(base("sp"), 2 * 5 * 48);
		for(int f = 11; f <= 13; ++f) { fill_frame(*d, f); d->set_step(size_t(f)); d->set_time(f); w.write(d); }
		w.close();
	}
	std::string fn(dir + "/sp/s" + what);
	struct stat st;
	if(0 != stat(fn.c_str(), &st)) exit(3);
	if(cut < 0) unlink(fn.c_str());
	else if(0 != truncate(fn.c_str(), st.st_size - cut)) exit(3);
	nbody_data_stream_reader rd;
	ev e("spoil");
	e.str("what", what).num("cut", cut);
	int rc = rd.load(base("sp"));
	e.num("rc", rc);
	std::string fr("[");
	if(rc == 0)
	{
		nbody_data out;
		out.resize(rd.get_body_count());
		for(size_t i = 0; i != rd.get_frame_count(); ++i)
		{
			memset((void*)out.get_vertites(), 0x5a, sizeof(nbvertex_t) * out.get_count());
			int r = rd.seek(i);
			if(r == 0) r = rd.read(&out);
			auto it = content.find(frame_bytes(out));
			bool aux = masses.count(bytes(out.get_mass(), out.get_count() * sizeof(nbcoord_t))) && colors.count(bytes(out.get_color(), out.get_count() * sizeof(nbcolor_t)));
			if(i) fr += ",";
			fr += r != 0 ? "-1" : std::to_string(it == content.end() || !aux ? 0 : it->second);
		}
	}
	e.raw("frames", fr + "]").out();
}

int main()
{
	qInstallMessageHandler(quiet_messages);
	want.pending = false;
	std::string line;
	while(std::getline(std::cin, line))
	{
		std::istringstream is(line);
		std::string op;
		is >> op;
		if(op == "start")
		{
			is >> dir;
			runs.clear(); content.clear(); masses.clear(); colors.clear();
			writer.reset(new nbody_data_stream);
			ev("start").out();
		}
		else if(op == "data") { int r; size_t n, b; is >> r >> n >> b; make_run(r, n, b); }
		else if(op == "fault") { is >> want.at >> want.torn >> want.err >> want.kind >> want.sticky; if(want.kind == "-") want.kind.clear(); want.pending = true; }
		else if(op == "open" || op == "append")
		{
			long long limit;
			is >> cur >> limit;
			nbody_data_stream_reader rd;
			int rc = 0;
			if(op == "append") rc = rd.load(base(cur));
			arm();
			if(rc == 0) rc = writer->open(base(cur), limit, op == "append" ? &rd : NULL);
			int h = disarm();
			ev(op.c_str()).str("nm", cur).num("rc", rc).num("hits", h).out();
		}
		else if(op == "close") { writer->close(); ev("close").out(); }
		else if(op == "write")
		{
			int fid, run; unsigned long long step; std::string t;
			is >> fid >> step >> t >> run;
			nbody_data& d(*runs.at(run));
			fill_frame(d, fid);
			d.set_step(size_t(step));
			d.set_time(strtod(t.c_str(), NULL));
			arm();
			int rc = writer->write(&d);
			int h = disarm();
			ev("write").num("fid", fid).str("step", fmt_u(d.get_step())).str("time", fmt_time(d.get_time())).num("run", run).num("rc", rc).num("hits", h).out();
		}
		else if(op == "look" || op == "faultyread")
		{
			std::string nm;
			is >> nm;
			nbody_data_stream_reader rd;
			if(op == "faultyread") arm();
			int rc = rd.load(base(nm)), mass = -1, col = -1;
			std::string fr("[]");
			bool ok = rc == 0;
			if(ok) fr = read_all(rd, rc, mass, col);
			int h = op == "faultyread" ? disarm() : 0;
			ev(op.c_str()).flag("ok", ok).num("rc", rc).num("hits", h).raw("frames", fr).num("mass", mass).num("col", col).out();
		}
		else if(op == "run")
		{
			int frames;
			is >> frames;
			struct counting : nbody_data_stream
			{
				int after, failed;
				counting() : after(0), failed(0) {}
				int write(const nbody_data* d) { if(failed) ++after; int r = nbody_data_stream::write(d); if(r) ++failed; return r; }
			} st;
			nbody_data d;
			d.make_universe(8, 10, 10, 10);
			nbody_engine_simple en;
			en.init(&d);
			int rc, h;
			{
				nbody_solver_euler s;
				s.set_engine(&en);
				s.set_time_step(1.0 / 1024, 1.0 / 1024);
				if(0 != st.open(base("run"), 24 * 2 * 16 * 2)) return 3;
				arm();
				rc = s.run(&d, &st, frames / 1024.0, 1.0 / 1024, 2.0 / 1024);
				h = disarm();
			}
			st.close();
			ev("run").num("rc", rc).num("hits", h).num("after", st.after).out();
		}
		else if(op == "save")
		{
			int run;
			is >> run;
			QString fn(QString::fromStdString(dir + "/table.txt"));
			QFile::remove(fn);
			fill_frame(*runs.at(run), 777);
			arm();
			bool good = runs.at(run)->save(fn);
			int h = disarm();
			nbody_data b;
			bool same = good && b.load(fn) && b.is_equal(*runs.at(run));
			ev("save").flag("good", good).flag("same", same).num("hits", h).out();
		}
		else if(op == "loadtable")
		{
			int rows;
			is >> rows;
			std::string fn(dir + "/rows.txt");
			FILE* f = fopen(fn.c_str(), "w");
			for(int i = 0; i < rows; ++i) fprintf(f, "%d 0.125 0.25 0.5 1 2 %d 3.25   // a comment to make the line longer\n", i, i + 1);
			fclose(f);
			nbody_data b;
			arm();
			bool good = b.load(QString::fromStdString(fn));
			int h = disarm();
			bool same = int(b.get_count()) == rows;
			for(int i = 0; same && i < rows; ++i) same = b.get_vertites()[i].x == i && b.get_mass()[i] == i + 1;
			ev("loadtable").flag("good", good).flag("same", same).num("hits", h).out();
		}
		else if(op == "idx") do_idx(is);
		else if(op == "spoil") do_spoil(is);
		else return 3;
	}
	writer.reset();
	return 0;
}
