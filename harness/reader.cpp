// Executes behaviours of the specification Reader against nbody_data_stream_reader.
// The streams are those of spec/ReaderData.tla, written to argv[1]; stdin: start | load nm | close | seek k | read d | readnull
#include "hcommon.h"
#include <memory>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"

static std::string dir;
static std::map<std::string, int> content, masses, colors;
static std::string bytes(const void* p, size_t n) { return std::string(static_cast<const char*>(p), n); }
static std::string frame_bytes(const nbody_data& d)
{
	return bytes(d.get_vertites(), sizeof(nbvertex_t) * d.get_count()) + bytes(d.get_velosites(), sizeof(nbvertex_t) * d.get_count());
}
static QString base(const std::string& nm) { return QString::fromStdString(dir + "/" + nm); }

static void put(const std::string& nm, size_t n, size_t box, int run, int fbase, int frames, long long limit)
{
	std::string fn(dir + "/init.txt");
	FILE* f = fopen(fn.c_str(), "w");
	for(size_t i = 0; i != n; ++i) fprintf(f, "%zu 0 0 0 0 0 1\n", box);
	fclose(f);
	nbody_data d;
	if(!d.load_initial(QString::fromStdString(fn), "G1") || d.get_box_size() != box) exit(3);
	for(size_t i = 0; i != n; ++i)
	{
		d.get_mass()[i] = run * 1000.5 + double(i);
		d.get_color()[i] = nbcolor_t(float(run), float(i), 0.5f, 1.0f);
	}
	masses[bytes(d.get_mass(), n * sizeof(nbcoord_t))] = run;
	colors[bytes(d.get_color(), n * sizeof(nbcolor_t))] = run;
	nbody_data_stream w;
	if(0 != w.open(base(nm), limit)) exit(3);
	for(int k = 1; k <= frames; ++k)
	{
		int fid = fbase + k;
		mix m(uint64_t(4400 + fid));
		for(size_t i = 0; i != n; ++i)
		{
			d.get_vertites()[i] = nbvertex_t(fid, m.uni(), m.uni());
			d.get_velosites()[i] = nbvertex_t(m.uni(), m.uni(), m.uni());
		}
		content[frame_bytes(d)] = fid;
		d.set_step(size_t(fbase * 10 + 2 * k));
		d.set_time(fbase + 3 * k);
		if(0 != w.write(&d)) exit(3);
	}
	w.close();
}

static void text(const std::string& nm, const std::string& t)
{
	FILE* f = fopen((dir + "/" + nm + ".idx").c_str(), "w");
	fputs(t.c_str(), f);
	fclose(f);
}

int main(int, char* argv[])
{
	qInstallMessageHandler(quiet_messages);
	dir = argv[1];
	put("a", 3, 7, 1, 100, 4, 1);
	put("b", 5, 9, 2, 200, 3, 0);
	put("c", 3, 11, 3, 300, 5, 3 * 48 + 1);
	put("u", 3, 2, 4, 400, 1, 0);
	put("big", 700, 3, 5, 500, 3, 700 * 48 + 1);
	text("nohdr", "1\t1\t0\t0\n");
	text("bad", "#coord_size 8\n#body_count 3\n#box_size 4\n1\t1\t0\t0\nxx\t1\t0\t0\n");
	text("nopart", "#coord_size 8\n#body_count 3\n#box_size 4\n1\t1\t0\t0\n");

	std::unique_ptr<nbody_data_stream_reader> rd;
	std::map<std::string, std::unique_ptr<nbody_data>> dst;
	const std::map<std::string, size_t> sizes = {{"p", 3}, {"q", 3}, {"r", 5}, {"e", 0}, {"g", 700}};
	std::string line;
	while(std::getline(std::cin, line))
	{
		std::istringstream is(line);
		std::string op, arg;
		is >> op >> arg;
		ev e(op.c_str());
		int rc = 0;
		if(op == "start")
		{
			rd.reset(new nbody_data_stream_reader);
			dst.clear();
			for(auto& s : sizes)
			{
				dst[s.first].reset(new nbody_data);
				dst[s.first]->resize(s.second);
				dst[s.first]->set_time(-1);
				for(size_t i = 0; i != s.second; ++i) { dst[s.first]->get_vertites()[i] = nbvertex_t(-9, -9, -9); dst[s.first]->get_mass()[i] = -9; dst[s.first]->get_color()[i] = nbcolor_t(7, 7, 7, 7); }
			}
			e.out();
			continue;
		}
		else if(op == "load") { rc = rd->load(base(arg)); e.str("nm", arg); }
		else if(op == "close") rd->close();
		else if(op == "seek") { long long k = atoll(arg.c_str()); rc = rd->seek(size_t(k)); e.num("k", k); }
		else if(op == "read") { rc = rd->read(dst.at(arg).get()); e.str("d", arg); }
		else if(op == "readnull") rc = rd->read(NULL);
		else return 3;
		e.num("rc", rc == 0 ? 0 : -1);
		e.num("fc", (long long)rd->get_frame_count()).str("last", fmt_u(rd->get_steps_count())).str("tmax", fmt_time(rd->get_max_time()));
		e.num("bc", (long long)rd->get_body_count()).num("box", (long long)rd->get_box_size()).num("lastn", (long long)rd->get_last_file_n());
		e.num("cur", rd->get_current_frame() > 1000000 ? -1 : (long long)rd->get_current_frame());
		std::string j("{");
		for(auto& s : sizes)
		{
			nbody_data& d(*dst[s.first]);
			if(j.size() > 1) j += ",";
			auto c = content.find(frame_bytes(d));
			auto m = masses.find(bytes(d.get_mass(), d.get_count() * sizeof(nbcoord_t)));
			auto cl = colors.find(bytes(d.get_color(), d.get_count() * sizeof(nbcolor_t)));
			bool never = d.get_time() == -1;
			bool odd = d.get_count() && d.get_vertites()[0].x != -9 && c == content.end();
			bool oddm = d.get_count() && d.get_mass()[0] != -9 && m == masses.end();
			bool oddc = d.get_count() && d.get_color()[0].x != 7 && cl == colors.end();
			j += jstr(s.first) + ":{\"fid\":" + std::to_string(odd ? -1 : c == content.end() ? 0 : c->second) + ",\"step\":" + jstr(never ? "" : fmt_u(d.get_step())) +
				 ",\"time\":" + jstr(never ? "" : fmt_time(d.get_time())) + ",\"run\":" + std::to_string(oddm ? -1 : m == masses.end() ? 0 : m->second) +
				 ",\"col\":" + std::to_string(oddc ? -1 : cl == colors.end() ? 0 : cl->second) + ",\"box\":" + std::to_string(d.get_box_size()) + "}";
		}
		e.raw("dst", j + "}").out();
	}
	return 0;
}
