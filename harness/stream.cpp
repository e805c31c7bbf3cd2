// Executes behaviours of the specification Stream against nbody_data_stream / nbody_data_stream_reader.
// stdin: one operation per line
//   start <dir>                          new writer object, empty registry
//   data <run> <n> <box>                 the bodies of run <run> (masses, colours, box)
//   open <nm> <limit> | append <nm> <limit> | close | fresh (a new writer object)
//   write <fid> <step> <time> <run>
//   hole <bytes>                         makes the current part longer
//   readback <nm>
//   crash <k> <torn> <fid> <step> <time> <run>   a write whose process dies at its k-th file operation (torn: in the middle of it)
//   failing <k> <errno> <kind> ...               see C05
// With the argument "crash", every behaviour runs in a child process; after its death the files are examined ("recover")
// and the rest of the behaviour runs in a new child.
#include "hcommon.h"
#include <memory>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"

#include <sys/syscall.h>
#include <sys/wait.h>
#include <errno.h>
#include <stdarg.h>
#include <set>
#include "fault.h"

static std::string dir;
static std::map<int, std::unique_ptr<nbody_data>> runs;
static std::map<std::string, int> content, masses, colors;
static std::unique_ptr<nbody_data_stream> writer;

static QString base(const std::string& nm) { return QString::fromStdString(dir + "/" + nm + "/s"); }

static std::string bytes(const void* p, size_t n) { return std::string(static_cast<const char*>(p), n); }
static std::string frame_bytes(const nbody_data& d)
{
	return bytes(d.get_vertites(), sizeof(nbvertex_t) * d.get_count()) + bytes(d.get_velosites(), sizeof(nbvertex_t) * d.get_count());
}

static void make_run(int run, size_t n, size_t box)
{
	std::string fn(dir + "/init.txt");
	FILE* f = fopen(fn.c_str(), "w");
	for(size_t i = 0; i != n; ++i) fprintf(f, "%zu 0 0 0 0 0 1\n", i ? i % box : box);
	fclose(f);
	std::unique_ptr<nbody_data> d(new nbody_data);
	if(!d->load_initial(QString::fromStdString(fn), "G1")) { fprintf(stderr, "load_initial failed\n"); exit(3); }
	if(d->get_box_size() != box) { fprintf(stderr, "box %zu %zu\n", d->get_box_size(), box); exit(3); }
	mix m(1000 + run);
	for(size_t i = 0; i != n; ++i)
	{
		d->get_mass()[i] = odd_double(m);
		d->get_color()[i] = nbcolor_t(float(m.uni()), float(m.uni()), float(m.uni()), float(run));
	}
	d->get_mass()[0] = run + 0.1;
	masses[bytes(d->get_mass(), n * sizeof(nbcoord_t))] = run;
	colors[bytes(d->get_color(), n * sizeof(nbcolor_t))] = run;
	runs[run] = std::move(d);
}

static void fill_frame(nbody_data& d, int fid)
{
	mix m(77000 + fid);
	size_t n = d.get_count();
	for(size_t i = 0; i != n; ++i)
	{
		d.get_vertites()[i] = nbvertex_t(odd_double(m), odd_double(m), odd_double(m));
		d.get_velosites()[i] = nbvertex_t(odd_double(m), odd_double(m), odd_double(m));
	}
	d.get_vertites()[0].x = fid + 0.25;
	d.get_velosites()[n - 1].z = -fid - 0.5;
	content[frame_bytes(d)] = fid;
}

static std::string sizes(const std::string& nm)
{
	std::string r("[");
	for(int k = 0; ; ++k)
	{
		QString fn(nbody_data_stream::make_dat_name(base(nm), size_t(k)));
		struct stat st;
		if(0 != stat(fn.toLocal8Bit().constData(), &st)) break;
		if(k) r += ",";
		r += st.st_size % 8 ? "-1" : std::to_string((long long)(st.st_size / 8));
	}
	return r + "]";
}

static void readback_as(const char* name, const std::string& nm)
{
	nbody_data_stream_reader rd;
	ev e(name);
	e.str("nm", nm);
	bool ok = 0 == rd.load(base(nm));
	e.flag("ok", ok);
	std::string fr("[");
	int mass = -1, col = -1;
	if(ok)
	{
		nbody_data d;
		d.resize(rd.get_body_count());
		for(size_t k = 0; k != rd.get_frame_count(); ++k)
		{
			if(0 == k) for(size_t i = 0; i != d.get_count(); ++i) { d.get_mass()[i] = 5e5; d.get_color()[i] = nbcolor_t(9, 9, 9, 9); }
			memset((void*)d.get_vertites(), 0x5a, sizeof(nbvertex_t) * d.get_count());
			memset((void*)d.get_velosites(), 0x5a, sizeof(nbvertex_t) * d.get_count());
			d.set_time(-77); d.set_step(4242);
			int rc = rd.read(&d);
			auto it = content.find(frame_bytes(d));
			int fid = rc == 0 && it != content.end() ? it->second : 0;
			if(k) fr += ",";
			fr += "{\"fid\":" + std::to_string(fid) + ",\"step\":" + jstr(fmt_u(d.get_step())) + ",\"time\":" + jstr(fmt_time(d.get_time())) + "}";
			if(0 == k)
			{
				auto m = masses.find(bytes(d.get_mass(), d.get_count() * sizeof(nbcoord_t)));
				auto c = colors.find(bytes(d.get_color(), d.get_count() * sizeof(nbcolor_t)));
				mass = m == masses.end() ? -1 : m->second;
				col = c == colors.end() ? -1 : c->second;
			}
		}
	}
	e.num("mass", mass).num("col", col);
	e.num("n", ok ? (long long)rd.get_body_count() : 0).num("box", ok ? (long long)rd.get_box_size() : 0);
	e.str("last", ok ? fmt_u(rd.get_steps_count()) : "").str("tmax", ok ? fmt_time(rd.get_max_time()) : "");
	e.num("lastn", ok ? (long long)rd.get_last_file_n() : 0).raw("frames", fr + "]").raw("sizes", sizes(nm)).out();
}

static void readback(const std::string& nm) { readback_as("readback", nm); }

static std::string cur;

static void do_write(std::istringstream& is, bool failing)
{
	int fid, run; unsigned long long step; std::string t;
	is >> fid >> step >> t >> run;
	nbody_data& d(*runs.at(run));
	fill_frame(d, fid);
	d.set_step(size_t(step));
	d.set_time(strtod(t.c_str(), NULL));
	ev("begin").num("fid", fid).str("step", fmt_u(d.get_step())).str("time", fmt_time(d.get_time()))
		.num("n", (long long)d.get_count()).num("box", (long long)d.get_box_size()).num("run", run).out();
	if(failing) fault::armed = true;
	int rc = writer->write(&d);
	fault::armed = false;
	ev("ack").num("rc", rc).raw("sizes", sizes(cur)).out();
}

static void exec(const std::string& line)
{
	std::istringstream is(line);
	std::string op;
	is >> op;
	if(op == "start")
	{
		is >> dir;
		fault::root = dir;
		runs.clear(); content.clear(); masses.clear(); colors.clear();
		writer.reset(new nbody_data_stream);
		ev("start").out();
	}
	else if(op == "data")
	{
		int run; size_t n, box;
		is >> run >> n >> box;
		make_run(run, n, box);
	}
	else if(op == "fresh")
	{
		writer.reset();
		writer.reset(new nbody_data_stream);
		ev("close").out();
	}
	else if(op == "open" || op == "append")
	{
		long long limit;
		is >> cur >> limit;
		int rc;
		long long lim8 = limit <= 0 ? 0 : (limit + 7) / 8;
		if(op == "open")
		{
			rc = writer->open(base(cur), limit);
		}
		else
		{
			nbody_data_stream_reader rd;
			rc = rd.load(base(cur));
			if(rc == 0) rc = writer->open(base(cur), limit, &rd);
		}
		ev(op.c_str()).str("nm", cur).num("limit", lim8).num("rc", rc).out();
	}
	else if(op == "close")
	{
		writer->close();
		ev("close").out();
	}
	else if(op == "write")
	{
		do_write(is, false);
	}
	else if(op == "crash")
	{
		is >> fault::at >> fault::torn;
		fault::action = fault::die;
		fault::count = 0;
		do_write(is, true);
		_exit(0);
	}
	else if(op == "hole")
	{
		long long sz; int part;
		is >> sz >> part;
		// while no writer has the file open
		QString fn(nbody_data_stream::make_dat_name(base(cur), size_t(part)));
		struct stat st;
		if(0 != stat(fn.toLocal8Bit().constData(), &st) || 0 != truncate(fn.toLocal8Bit().constData(), st.st_size + sz)) { perror("hole"); exit(3); }
		ev("hole").str("nm", cur).num("part", part).num("k", sz / 8).out();
	}
	else if(op == "readback")
	{
		std::string nm;
		is >> nm;
		readback(nm);
	}
	else { fprintf(stderr, "unknown op %s\n", line.c_str()); exit(3); }
}

static int run_children(const std::vector<std::string>& ops)
{
	// everything the files may contain is known in advance: register it before forking
	size_t k = 0;
	for(; k < ops.size() && (ops[k].compare(0, 5, "start") == 0 || ops[k].compare(0, 5, "data ") == 0); ++k) exec(ops[k]);
	for(const auto& o : ops)
	{
		std::istringstream is(o);
		std::string op; int a, b, fid, run; std::string st, t;
		is >> op;
		if(op == "data" && k < ops.size()) { int r; size_t n, box; is >> r >> n >> box; if(!runs.count(r)) make_run(r, n, box); }
		if(op == "crash") is >> a >> b;
		if(op == "crash" || op == "write") { is >> fid >> st >> t >> run; fill_frame(*runs.at(run), fid); }
	}
	std::string nm;
	while(k < ops.size())
	{
		// one process life: up to and including the next crash
		size_t end = k;
		while(end < ops.size() && ops[end].compare(0, 6, "crash ") != 0) ++end;
		bool crash = end < ops.size();
		for(size_t i = k; i < end; ++i) if(ops[i].compare(0, 5, "open ") == 0 || ops[i].compare(0, 7, "append ") == 0)
		{
			std::istringstream is(ops[i]);
			is >> nm >> nm;
		}
		fflush(stdout);
		pid_t pid = fork();
		if(pid == 0)
		{
			for(size_t i = k; i < end; ++i) exec(ops[i]);
			if(crash) exec(ops[end]);
			writer.reset();
			fflush(stdout);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
		if(!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "child status %x\n", st); return WIFEXITED(st) ? WEXITSTATUS(st) : 134; }
		if(crash)
		{
			ev("crash").raw("sizes", sizes(nm)).out();
			readback_as("recover", nm);
		}
		k = end + 1;
	}
	return 0;
}

int main(int argc, char* argv[])
{
	qInstallMessageHandler(quiet_messages);
	bool children = argc > 1 && std::string(argv[1]) == "crash";
	std::string line;
	std::vector<std::string> ops;
	while(true)
	{
		bool more(std::getline(std::cin, line));
		if(!children)
		{
			if(!more) break;
			exec(line);
			continue;
		}
		if(!more || line.compare(0, 6, "start ") == 0)
		{
			if(!ops.empty())
			{
				int rc = run_children(ops);
				if(rc) return rc;
			}
			ops.clear();
			if(!more) break;
		}
		ops.push_back(line);
	}
	writer.reset();
	return 0;
}
